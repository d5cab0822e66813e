"""Explicit-state exploration of flip histories against the real Partition code.

The model of a plan is the tuple of district indices; a flip overwrites entries.  Three ways of
driving the implementation through the same histories:

  tree   one shared object graph: every child is flipped from the same parent object, checked as
         soon as it exists, and every parent is checked again after all of its descendants
         (siblings and descendants must not disturb it);
  path   every history is rebuilt from a fresh root, and for every subset of its steps the
         derived values are read only at those steps (always at the last);
  cover  one single long history that takes every transition (plan, flip) of the state space at
         least once, dropping grandparents like MarkovChain; values are read at every step, or
         only at every ``every``-th;
  chain  as path, but like MarkovChain the grandparent is dropped as soon as a new state exists.
"""
import itertools
from collections import deque
from .gen import apply


def histories(a0, moves, depth):
    """All sequences of flips of length exactly depth (no state merging)."""
    def rec(a, h):
        if len(h) == depth:
            yield h
            return
        for f in moves(a):
            yield from rec(apply(a, f), h + (f,))
    yield from rec(a0, ())


def reuse(fl):
    """The caller goes on using its dictionary for something else."""
    if len(fl) % 2:
        fl.clear()
    else:
        vals = list(fl.values())
        for v, d in zip(list(fl), vals[1:] + vals[:1]):
            fl[v] = d


def tree(ctx, root, a0, moves, depth, to_flips, check, recheck=True):
    """check(partition, model, parent_model, hist)"""
    def rec(part, a, parent_a, hist):
        check(part, a, parent_a, hist)
        ctx.state(a)
        if len(hist) == depth:
            ctx.trace()
            return
        for f in moves(a):
            fl = to_flips(f)
            keep = dict(fl)
            child = part.flip(fl)
            ctx.trans()
            ctx.check(fl == keep, "flip() changed the caller's flips dictionary", history=hist + (f,))
            reuse(fl)
            rec(child, apply(a, f), a, hist + (f,))
        if recheck:
            check(part, a, parent_a, hist + ("after its children",))
    rec(root, a0, None, ())


def paths(ctx, make_root, a0, moves, depth, to_flips, check, erase=False, masks=None, keep_last=True):
    """Every history x every subset of read points.  erase: drop the parent's parent (chain)."""
    for h in histories(a0, moves, depth):
        for mask in (masks if masks is not None else range(1 << depth)):
            part = make_root()
            a, pa = a0, None
            if mask & 1:
                check(part, a, None, ("read root",))
            for i, f in enumerate(h):
                fl = to_flips(f)
                nxt = part.flip(fl)
                reuse(fl)
                ctx.trans()
                if erase:
                    part.parent = None
                part, pa, a = nxt, a, apply(a, f)
                last = i == depth - 1
                if last or mask >> (i + 1) & 1:
                    check(part, a, pa, h[:i + 1] + ("mask %d" % mask, "erase %s" % erase))
            ctx.state(h, mask)
            ctx.trace()


def cover_history(a0, moves):
    """A history from a0 that takes every transition of the reachable state space at least once."""
    untried = {}
    out = []

    def rest(a):
        if a not in untried:
            untried[a] = deque(moves(a))
        return untried[a]
    a = a0
    while True:
        if rest(a):
            f = rest(a).popleft()
            out.append(f)
            a = apply(a, f)
            continue
        back, todo = {a: None}, deque([a])          # nearest plan with a transition left
        goal = None
        while todo and goal is None:
            x = todo.popleft()
            for f in moves(x):
                y = apply(x, f)
                if y not in back:
                    back[y] = (x, f)
                    if rest(y):
                        goal = y
                        break
                    todo.append(y)
        if goal is None:
            return out
        path = []
        y = goal
        while back[y] is not None:
            y, f = back[y]
            path.append(f)
        out.extend(reversed(path))
        a = goal


def cover(ctx, make_root, a0, moves, to_flips, check, every=1, offset=0):
    follow(ctx, make_root, a0, cover_history(a0, moves), to_flips, check, every, offset)


def follow(ctx, make_root, a0, h, to_flips, check, every=1, offset=0):
    """One long history, dropping grandparents like MarkovChain."""
    part, a, pa = make_root(), a0, None
    for i, f in enumerate(h):
        if (i + offset) % every == 0:
            check(part, a, pa, ("long history, step %d" % i,) + tuple(h[max(0, i - 3):i]))
        fl = to_flips(f)
        nxt = part.flip(fl)
        reuse(fl)
        ctx.trans()
        part.parent = None
        part, pa, a = nxt, a, apply(a, f)
        ctx.state(a, f)
    check(part, a, pa, ("long history, end", len(h)))
    ctx.trace()
