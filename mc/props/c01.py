"""C01 A Markov chain follows the propose/validate/accept protocol exactly."""
import contextlib, functools, io, itertools
import numpy
from gerrychain import MarkovChain, Partition
from gerrychain.accept import always_accept, cut_edge_accept
from gerrychain.constraints import (Validator, contiguous, no_vanishing_districts, single_flip_contiguous,
                                    within_percent_of_ideal_population)
from gerrychain.proposals import propose_random_flip
from gerrychain.updaters import Tally, cut_edges
from mc.core import gen, hist
from mc.core.explore import Violation, explore

ID = "C01"
BOUNDS = {
    "quick": "all answer words over {fails 1st constraint, fails 2nd constraint, rejected, accepted, self-loop accepted/rejected} needed to finish chains of 1..5 steps with <=3 invalid proposals; runs of 7 to 12000 equal answers (11 patterns); every point of abandoning and restarting; 9 ways of passing constraints; acceptance answered with booleans, numpy booleans and other true and false values; constraint replacement before every step, refused or taken up (a replacement that is taken up disturbs nothing else); real flip chains of 3 steps on 3-4 node graphs over all random outcomes (12 choice points, fair completion after)",
    "thorough": "chains of 1..6 steps with <=4 invalid proposals; runs of 120000 equal answers; real flip chains of 4 steps",
}
SYM = ["1", "2", "R", "A", "s", "S"]   # invalid by 1st/2nd constraint, rejected, accepted, self-loop rejected/accepted



class Truth:
    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b


YES = [True, numpy.bool_(True), 1, "yes", Truth(True)]
NO = [False, numpy.bool_(False), 0, None, Truth(False)]


def words(valid_needed, max_invalid, syms):
    """All words ending with the valid_needed-th valid symbol."""
    inv = [s for s in syms if s in "12"]
    val = [s for s in syms if s not in "12"]

    def rec(w, v, i):
        if v == valid_needed:
            yield w
            return
        for s in val:
            yield from rec(w + s, v + 1, i)
        if i < max_invalid:
            for s in inv:
                yield from rec(w + s, v, i + 1)
    yield from rec("", 0, 0)


def cases(tier):
    th = tier == "thorough"
    for T in range(1, 7 if th else 6):
        ws = list(words(T - 1, (4 if th else 3) if T <= 4 else 2, SYM if T <= 4 else "2RAS"))
        for form in range(9):
            n = max(1, len(ws) // 400)
            for c in range(n):
                if form and not th and c % 3 != form % 3:
                    continue
                yield "script", dict(T=T, form=form, chunk=c, chunks=n)
    for T in (2, 3, 4):
        yield "restart", dict(T=T)
    for sym in ["1", "2", "R", "A", "s", "S", "12", "R2", "1A", "s1", "AR"]:
        for n in (7, 50, 150, 1100, 12000) + ((120000,) if th else ()):
            yield "long", dict(sym=sym, n=n)
    for form in range(9):
        yield "refuse", dict(form=form)
    for e, n, k in [(gen.path(3), 3, 2), (gen.path(4), 4, 2), (gen.cycle(4), 4, 2), (gen.path(3), 3, 3), (gen.star(4), 4, 2)]:
        for a in gen.contiguous_plans(e, n, k, unlabelled=True):
            if not movable(e, n, k, a):
                continue          # the documented behaviour is then to look for a valid proposal forever
            for acc in ("always", "cut"):
                yield "real", dict(edges=e, n=n, k=k, a0=a, acc=acc, T=4 if th else 3)


def movable(edges, n, k, a):
    ng = gen.adj(edges, n)
    for i, j in list(edges) + [(j, i) for i, j in edges]:
        if a[i] != a[j]:
            b = gen.apply(a, ((i, a[j]),))
            if all(gen.is_connected_set([x for x in range(n) if b[x] == d], ng) for d in range(k)):
                return True
    return False


def base():
    g = gen.build(gen.path(3), 3, "int", {"pop": [1, 1, 1]})
    return Partition(g, {0: 0, 1: 0, 2: 1}, updaters={"cut_edges": cut_edges}, use_default_updaters=False)


class Named:
    def __init__(self, f):
        self.f = f

    def __call__(self, p):
        return self.f(p)


def forms(form, c1, c2):
    if form == 0:
        return [c1, c2]
    if form == 1:
        return (c1, c2)
    if form == 2:
        return Validator([c1, c2])
    if form == 3:
        return lambda p: c1(p) and c2(p)
    if form == 4:
        return [Named(c1), functools.partial(c2)]
    if form == 7:
        return Named(lambda p: c1(p) and c2(p))
    if form == 8:
        return functools.partial(lambda x, p: c1(p) and c2(p), 0)
    if form == 5:
        return {"first": c1, "second": c2}.values()
    return (c for c in (c1, c2))          # an iterator, used up by going through it once


class Script:
    """Scripted callbacks and the log of what the chain did with them."""
    setting = False

    def __init__(self, word, init):
        self.word, self.i, self.log = word, 0, []
        self.tag = {id(init): "init"}
        self.keep = [init]
        self.verdict = {}

    def proposal(self, state):
        if self.i >= len(self.word):
            raise Violation("the chain asked for more proposals than it needs", word=self.word, log=self.log[-6:])
        s = self.word[self.i]
        self.i += 1
        new = state if s in "sS" else state.flip({1: self.i % 2})
        self.keep.append(new)
        self.cur, self.sym = new, s
        self.log.append(("propose", id(state)))
        self.parent = state
        return new

    def c1(self, p):
        return self._con(p, "1")

    def c2(self, p):
        return self._con(p, "2")

    def _con(self, p, which):
        if self.i == 0 or self.setting:
            return True            # initial state
        if p is not self.cur:
            raise Violation("a constraint was asked about a plan that is not the proposed one", word=self.word[:self.i])
        if self.sym not in "sS" and p.parent is not self.parent:
            raise Violation("the proposal was validated without the current state as its parent", word=self.word[:self.i])
        self.log.append(("constraint" + which, id(p)))
        r = self.sym != which
        return numpy.bool_(r) if self.i % 2 else r

    def accept(self, p):
        if p is not self.cur:
            raise Violation("the acceptance rule was shown a plan that is not the proposed one", word=self.word[:self.i])
        if self.sym in "12":
            raise Violation("an invalid proposal reached the acceptance rule", word=self.word[:self.i])
        if self.sym not in "sS" and p.parent is not self.parent:
            raise Violation("the proposal was judged without the current state as its parent", word=self.word[:self.i])
        self.log.append(("accept", id(p)))
        return (YES if self.sym in "AS" else NO)[self.i % 5]          # any true or false value


def expect(word, init, script):
    """Replay the log against the protocol; returns expected yields (object identities)."""
    out, cur = [init], init
    pos = 0
    log = script.log
    made = iter(script.keep[1:])
    for j, s in enumerate(word):
        new = next(made)
        if pos >= len(log) or log[pos] != ("propose", id(cur)):
            raise Violation("a proposal was not drawn from the current state", word=word[:j + 1])
        pos += 1
        seen = set()
        while pos < len(log) and log[pos][0].startswith("constraint"):
            seen.add(log[pos][0][-1])
            pos += 1
        if s in "12":
            if s not in seen:
                raise Violation("an invalid proposal was not checked against the constraint it fails", word=word[:j + 1])
            continue
        if seen != {"1", "2"}:
            raise Violation("a proposal was not checked against every constraint", word=word[:j + 1], seen=sorted(seen))
        if pos >= len(log) or log[pos] != ("accept", id(new)):
            raise Violation("a valid proposal was not shown to the acceptance rule exactly once", word=word[:j + 1])
        pos += 1
        if s in "AS":
            cur = new
        out.append(cur)
    if pos != len(log):
        raise Violation("callbacks were called after the chain had finished", word=word, extra=log[pos:])
    return out


def run_word(ctx, T, form, word):
    init = base()
    sc = Script(word, init)
    chain = MarkovChain(sc.proposal, forms(form, sc.c1, sc.c2), sc.accept, init, T)
    ctx.check(len(chain) == T, "length of the chain is not total_steps")
    sc.log.clear()
    got = []
    it = iter(chain)
    while True:
        try:
            got.append(next(it))
        except StopIteration:
            break
        ctx.check(len(got) <= T, "the chain yields more states than total_steps", word=word, T=T)
    for again in range(4):            # a finished chain stays finished
        try:
            next(it)
        except StopIteration:
            continue
        raise Violation("a finished chain yields further states when asked again", word=word, T=T, asked_again=again + 1)
    want = expect(word, init, sc)
    ctx.trans(len(word))
    ctx.check(len(got) == T, "the chain yields a number of states other than total_steps", got=len(got), T=T, word=word)
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(a is b, "state %d of the chain is not the one the protocol gives" % i, word=word, got=dict(a.assignment), want=dict(b.assignment))
    return got


def case_script(ctx, p, tier):
    T = p["T"]
    th = tier == "thorough"
    ws = list(words(T - 1, (4 if th else 3) if T <= 4 else 2, SYM if T <= 4 else "2RAS"))
    for word in ws[p["chunk"]::p["chunks"]]:
        run_word(ctx, T, p["form"], word)
        ctx.state(T, word)
        ctx.trace()
        ctx.outcome(word.count("A"))


def case_long(ctx, p, tier):
    """Runs of the same answers many times over, between two accepted proposals."""
    word = "A" + (p["sym"] * p["n"])[:p["n"]] + "A"
    T = 1 + sum(c not in "12" for c in word)
    run_word(ctx, T, p["n"] % 3, word)
    ctx.state(p["sym"], p["n"])
    ctx.trace()


def case_restart(ctx, p, tier):
    """Abandon after j states, start over; iterate twice; progress bar; set constraints in between."""
    T = p["T"]
    for word in words(T - 1, 1, "2RA"):
        for j in range(0, T + 1):
            init = base()
            sc = Script(word, init)
            chain = MarkovChain(sc.proposal, [sc.c1, sc.c2], sc.accept, init, T)
            for mode in ("abandon", "again", "bar"):
                sc.word, sc.i = word, 0
                sc.log.clear()
                sc.keep = [init]
                if mode == "abandon":
                    it = iter(chain)
                    for _ in range(j):
                        next(it)
                        ctx.trans()
                    continue
                if mode == "bar":
                    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                        got = list(chain.with_progress_bar())
                else:
                    got = list(chain)
                want = expect(word, init, sc)
                ctx.check(len(got) == T and all(a is b for a, b in zip(got, want)), "a chain iterated again does not start over from the initial state",
                          word=word, abandoned_after=j, mode=mode, got=[dict(x.assignment) for x in got])
            ctx.state(word, j)
            ctx.trace()
        # replacing the constraints before every step
        for j in range(1, T):
            init = base()
            sc = Script(word, init)
            chain = MarkovChain(sc.proposal, [sc.c1, sc.c2], sc.accept, init, T)
            it = iter(chain)
            try:
                for _ in range(j):
                    next(it)
            except StopIteration:
                continue
            before = chain.constraints
            refused = False
            try:
                chain.constraints = [lambda q: True, lambda q: q is not init]
            except ValueError:
                refused = True
            ctx.check(refused, "replacing the constraints with ones the initial state fails was not refused")
            ctx.check(chain.constraints is before, "a refused replacement changed the chain's constraints")
            rest = list(_rest(it))
            ctx.check(1 + len(rest) + j - 1 == T, "the chain does not continue after a refused replacement", word=word, j=j)
            ctx.trans(T)
        # an accepted replacement changes nothing but the constraints
        for j in range(1, T + 1):
            for form in range(9):
                init = base()
                sc = Script(word, init)
                chain = MarkovChain(sc.proposal, [sc.c1, sc.c2], sc.accept, init, T)
                sc.log.clear()
                it = iter(chain)
                got = [next(it) for _ in range(j)]
                sc.setting = True
                chain.constraints = forms(form, sc.c1, sc.c2)
                sc.setting = False
                got += list(_rest(it))
                want = expect(word, init, sc)
                ctx.check(len(got) == T and all(x is y for x, y in zip(got, want)), "replacing the constraints on the way disturbs the chain", word=word, replaced_after=j,
                          got=[dict(x.assignment) for x in got], want=[dict(x.assignment) for x in want])
                ctx.trans(T)
    # an accepted replacement governs the following proposals
    init = base()
    banned = set()
    chain = MarkovChain(lambda s: s.flip({1: 1 - s.assignment[1]}), lambda q: True, always_accept, init, 4)
    it = iter(chain)
    next(it)
    calls = []

    def only_zero(q):
        calls.append(q)
        return len(calls) != 2          # fail the first proposal after the replacement
    chain.constraints = only_zero
    rest = list(_rest(it))
    ctx.check(len(rest) == 3 and len(calls) == 5, "the new constraints are not the ones applied", calls=len(calls))


def _rest(it):
    while True:
        try:
            yield next(it)
        except StopIteration:
            return


def case_refuse(ctx, p, tier):
    form = p["form"]
    for bits in itertools.product((True, False), repeat=2):
        for np_bool in (False, True):
            for named in (False, True):
                init = base()
                mk = (lambda b: (lambda q: numpy.bool_(b))) if np_bool else (lambda b: (lambda q: b))
                c1, c2 = mk(bits[0]), mk(bits[1])
                if not named:
                    c1, c2 = functools.partial(c1), Named(c2)
                ok = all(bits)
                try:
                    MarkovChain(lambda s: s, forms(form, c1, c2) if form != 3 else Named(lambda q: bool(c1(q)) and bool(c2(q))), always_accept, init, 3)
                    built = True
                except ValueError:
                    built = False
                ctx.check(built == ok, "a chain is built exactly if the initial state satisfies the constraints", bits=bits, form=form, named=named)
                chain = MarkovChain(lambda s: s, [lambda q: True], always_accept, init, 3)
                old = chain.constraints
                try:
                    chain.constraints = forms(form, c1, c2) if form != 3 else (lambda q: bool(c1(q)) and bool(c2(q)))
                    built = True
                except ValueError:
                    built = False
                ctx.check(built == ok, "constraints are replaced exactly if the initial state satisfies them", bits=bits, form=form, named=named)
                ctx.check((chain.constraints is old) == (not ok), "constraints after the (attempted) replacement are wrong", bits=bits)
                ctx.trans(2)
                ctx.state(bits, np_bool, named)
                ctx.trace()


def case_real(ctx, p, tier):
    w = hist.World(p)
    w.attrs = {"pop": [1 + (i == 0) for i in range(w.n)]}
    T = p["T"]
    total = sum(w.attrs["pop"])
    acc = always_accept if p["acc"] == "always" else cut_edge_accept
    g = w.graph()

    def run():
        init = Partition(g, w.assignment(), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)
        cons = [single_flip_contiguous, contiguous, within_percent_of_ideal_population(init, 0.9), no_vanishing_districts]
        return [tuple(w.dl.index(s.assignment[v]) for v in w.lab) for s in MarkovChain(propose_random_flip, cons, acc, init, T)]

    def on(states, prob, choices):
        ctx.check(len(states) == T and states[0] == w.a0, "number of states or first state wrong", states=states)
        for i, a in enumerate(states):
            for d in range(w.k):
                ns = [x for x in range(w.n) if a[x] == d]
                ctx.check(gen.is_connected_set(ns, w.neigh), "a yielded state violates the contiguity constraint", states=states, choices=choices)
                pop = sum(w.attrs["pop"][x] for x in ns)
                ctx.check(0.1 * total / w.k - 1e-9 <= pop <= 1.9 * total / w.k + 1e-9, "a yielded state violates the population constraint", states=states)
            if i:
                ctx.check(sum(x != y for x, y in zip(a, states[i - 1])) <= 1, "consecutive states differ by more than one flip", states=states)
            ctx.state(a)
        ctx.trace()
        ctx.outcome(tuple(states))
    st = explore(run, on, horizon=3000, fair_after=12 if tier == "quick" else 16)
    ctx.absorb(st)
    ctx.trans(st.executions * (T - 1))
