"""C22 Diversity statistics count distinct plans and districts exactly."""
import itertools
from gerrychain import MarkovChain, Partition
from gerrychain.accept import always_accept
from gerrychain.meta import collect_diversity_stats
from mc.core import gen
from mc.core.hist import PARTLABELS
from mc.core.explore import explore
from mc.core.rng import ORACLE

ID = "C22"
BOUNDS = {
    "quick": "every sequence of 3 plans (4 for the smaller alphabets) over all plans with 1..n districts of 2-, 3- and 4-node graphs (relabelled copies included; 4 nodes: 1-3 districts), node labels incl. ones with colliding hashes and colliding concatenations; plans made fresh, by flips, by flips with plans in between that are not counted, and repeated objects; chains over every accept/reject word of length 6; sequences of 1100 plans of a 24-cycle with 2, 3 and 6 districts; plans with up to 398 districts; thousands of distinct plans of 14 nodes, each seen twice",
    "thorough": "sequences of 4-5 plans, 4 nodes with 4 districts",
}
ASSUMPTIONS = ["every district of a yielded plan is non-empty"]
LABELS = {"int": lambda i: i, "neg": lambda i: [-1, -2, 0, 3, 5][i], "cat": lambda i: "1" * (i + 1), "tup": lambda i: (i // 2, i % 2), "str": lambda i: "abcde"[i]}


def cases(tier):
    th = tier == "thorough"
    for n, edges in ((2, gen.path(2)), (3, gen.path(3)), (3, gen.complete(3)), (4, gen.path(4)), (4, gen.cycle(4)), (4, gen.complete(4))):
        ks = range(1, n + 1) if n < 4 or th else (1, 2, 3)
        al = [a for k in ks for a in gen.surjections(n, k)]
        L = {2: 5, 3: 4, 4: 3}[n]
        for lab in LABELS:
            if n == 4:
                # split over the first plan
                for i in range(len(al)):
                    if lab in ("neg", "cat") or i % 6 == 0 or th:
                        yield "seq", dict(n=n, edges=[list(e) for e in edges], labels=lab, ks=list(ks), len=L - 1 if not th and i % 3 else L if th or n < 4 else 2, first=i, mode=("flip", "fresh", "skip", "fresh")[i % 4])
            else:
                for mode in ("fresh", "flip", "skip"):
                    yield "seq", dict(n=n, edges=[list(e) for e in edges], labels=lab, ks=list(ks), len=L + (1 if th and n == 2 else 0), first=None, mode=mode)
    # full length-3 sequences over unlabelled-distinct plans of 4 nodes (plus one relabelling each)
    for lab in LABELS:
        yield "pairs4", dict(labels=lab, len=4 if th else 3)
    yield "chain", dict(len=8 if th else 6)
    for k in (2, 3, 6):
        for mode in ("fresh", "flip"):
            yield "many", dict(k=k, mode=mode, len=3000 if th else 1100)
    for n in (30, 70, 150, 400):
        yield "crowd", dict(n=n)
    for k in (2, 5):
        yield "huge", dict(k=k, len=20000 if th else 6000)


def key(a):
    d = {}
    for i, x in enumerate(a):
        d.setdefault(x, set()).add(i)
    return frozenset(frozenset(s) for s in d.values())


def run_seq(ctx, seq, parts, info):
    """seq: model plans; parts: the Partition objects."""
    plans, dists = set(), set()
    got = []
    want = []
    k = 0
    for q, st in collect_diversity_stats(iter(parts)):
        ctx.check(k < len(parts) and q is parts[k], "the wrapped sequence does not yield the same plans in order", at=k, sequence=seq[-8:], **info)
        plans.add(key(seq[k]))
        dists |= key(seq[k])
        k += 1
        want.append((k, len(plans), len(dists)))
        got.append(st)
        ctx.trans()
        ctx.check((st.steps_taken, st.unique_plans, st.unique_districts) == want[-1], "statistics are not (steps, distinct plans, distinct districts) so far", sequence=seq[:k][-8:],
                  got=(st.steps_taken, st.unique_plans, st.unique_districts), want=want[-1], **info)
    ctx.check(k == len(parts), "plans were dropped or added", got=k, want=len(parts), **info)
    ctx.check([(s.steps_taken, s.unique_plans, s.unique_districts) for s in got] == want, "an earlier report changed", sequence=seq[-8:], **info)


def make(p, al):
    n = p["n"]
    lab = [LABELS[p["labels"]](i) for i in range(n)]
    from gerrychain import Graph
    g = Graph()
    g.add_nodes_from(lab)
    g.add_edges_from((lab[i], lab[j]) for i, j in p["edges"])
    cache = {}

    from gerrychain.updaters import cut_edges

    def fresh(a):
        if a not in cache:
            cache[a] = Partition(g if not cache else next(iter(cache.values())).graph, {lab[i]: a[i] for i in range(n)}, updaters={"cut_edges": cut_edges}, use_default_updaters=False)
        return cache[a]
    return lab, fresh


def case_seq(ctx, p, tier):
    n = p["n"]
    al = [a for k in p["ks"] for a in gen.surjections(n, k)]
    lab, fresh = make(p, al)
    for rest in itertools.product(al, repeat=p["len"] - (0 if p["first"] is None else 1)):
        seq = rest if p["first"] is None else (al[p["first"]],) + rest
        if p["mode"] == "fresh":
            parts = [fresh(a) for a in seq]
        else:
            # flips only between plans with the same set of labels; otherwise start fresh
            # ("skip": every other plan of the history is left out of the counted sequence)
            parts = []
            for i, a in enumerate(seq):
                if i and set(seq[i - 1]) == set(a) and p["mode"] == "skip":
                    mid = al[(al.index(a) * 5 + i) % len(al)]
                    mid = mid if set(mid) == set(a) else tuple(reversed(a))
                    q = parts[-1].flip({lab[j]: mid[j] for j in range(n) if mid[j] != seq[i - 1][j]})
                    parts.append(q.flip({lab[j]: a[j] for j in range(n) if a[j] != mid[j]}))
                elif i and set(seq[i - 1]) == set(a):
                    parts.append(parts[-1].flip({lab[j]: a[j] for j in range(n) if a[j] != seq[i - 1][j]}))
                else:
                    parts.append(fresh(a))
        run_seq(ctx, seq, parts, dict(labels=p["labels"], mode=p["mode"]))
        ctx.trace()
        ctx.state(seq)


def case_pairs4(ctx, p, tier):
    n = 4
    pp = dict(p, n=4, edges=[list(e) for e in gen.cycle(4)])
    al = [a for k in (1, 2, 3, 4) for a in gen.set_partitions(4, k)]
    al += [(1, 0, 0, 0), (2, 1, 0, 0)]
    lab, fresh = make(pp, al)
    for seq in itertools.product(al, repeat=p["len"]):
        run_seq(ctx, seq, [fresh(a) for a in seq], dict(labels=p["labels"]))
        ctx.trace()
        ctx.state(seq)


def case_many(ctx, p, tier):
    """Long sequences with many distinct plans and districts, revisited and relabelled."""
    n, k = 24, p["k"]
    pp = dict(n=n, edges=[list(e) for e in gen.cycle(n)], labels="int")
    from gerrychain import Graph
    from gerrychain.updaters import cut_edges
    g = Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from(gen.cycle(n))
    seq = []
    base = [i * k // n for i in range(n)]
    for t in range(p["len"]):
        r, s = (t * 5) % n, (t // 7) % 3
        a = [base[(i + r) % n] for i in range(n)]
        if t % 4 == 1:
            a = [k - 1 - x for x in a]                     # relabelled copy
        if t % 3 == 2:
            a[t % n] = a[(t + s + 1) % n]
        if t % 50 > 25 and seq:
            a = list(seq[(t * 11) % len(seq)])             # revisited
        if len(set(a)) < k:
            a = list(base)
        seq.append(tuple(a))
    parts = []
    for i, a in enumerate(seq):
        if i and p["mode"] == "flip":
            q = parts[-1].flip({j: a[j] for j in range(n) if a[j] != seq[i - 1][j]})
            parts[-1].parent = None
            parts.append(q)
        else:
            parts.append(Partition(g if not parts else parts[0].graph, dict(enumerate(a)), updaters={"cut_edges": cut_edges}, use_default_updaters=False))
    run_seq(ctx, seq, parts, dict(k=k, mode=p["mode"]))
    ctx.trace()
    for a in seq:
        ctx.state(a)


def case_crowd(ctx, p, tier):
    """Plans with hundreds of districts, most of them single units."""
    from gerrychain import Graph
    n = p["n"]
    g = Graph()
    g.add_edges_from(gen.path(n))
    base = tuple(range(n - 2)) + (n - 3, n - 3)
    seq = [base]
    for t in range(40):
        a = list(seq[-1])
        i = (t * 37) % (n - 2)
        a[(n - 1, n - 2)[t % 2]] = i if t % 5 else n - 3
        seq.append(tuple(a))
    seq += [tuple(reversed(a)) for a in seq[:5]] + seq[:5]
    first = Partition(g, dict(enumerate(seq[0])), use_default_updaters=False)
    parts = [first]
    for x, y in zip(seq, seq[1:]):
        parts.append(parts[-1].flip({j: y[j] for j in range(n) if x[j] != y[j]}))
    run_seq(ctx, seq, parts, dict(n=n))
    run_seq(ctx, seq, [Partition(first.graph, dict(enumerate(a)), use_default_updaters=False) for a in seq], dict(n=n))
    ctx.trace()
    for a in seq:
        ctx.state(a)


def case_huge(ctx, p, tier):
    """Thousands of distinct plans (written in base k over 14 nodes), then all of them again."""
    from gerrychain import Graph
    n, k = 14, p["k"]
    g = Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from(gen.cycle(n))
    half = [tuple((t * 7 // k ** i) % k for i in range(n - k)) + tuple(range(k)) for t in range(p["len"] // 2)]
    seq = half + half
    first = Partition(g, dict(enumerate(seq[0])), use_default_updaters=False)

    def parts():
        q = first
        for i, a in enumerate(seq):
            if i:
                q = q.flip({j: a[j] for j in range(n) if a[j] != seq[i - 1][j]})
                q.parent = None
            yield q
    plans, dists, keys = set(), set(), {}
    steps = 0
    for a, (q, st) in zip(seq, collect_diversity_stats(parts())):
        steps += 1
        if a not in keys:
            keys[a] = key(a)
        plans.add(keys[a])
        dists |= keys[a]
        ctx.check((st.steps_taken, st.unique_plans, st.unique_districts) == (steps, len(plans), len(dists)), "statistics are not (steps, distinct plans, distinct districts) so far",
                  got=(st.steps_taken, st.unique_plans, st.unique_districts), want=(steps, len(plans), len(dists)), step=steps)
        ctx.trans()
    ctx.check(steps == len(seq), "plans were dropped or added", got=steps)
    ctx.state(k, len(plans))
    ctx.trace()


def case_chain(ctx, p, tier):
    """Wrapping a running chain (repeated objects when a step is rejected, parents dropped)."""
    from gerrychain.updaters import cut_edges
    g = gen.build(gen.path(4), 4)
    plans = [(0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 1, 1), (0, 0, 0, 1)]

    def run():
        log = []

        def proposal(q):
            b = plans[ORACLE.uniform(4, "p")]
            return q.flip({i: b[i] for i in range(4) if q.assignment[i] != b[i]})
        acc = [i % 3 != 1 for i in range(50)]
        it = iter(acc)
        init = Partition(g, dict(enumerate(plans[0])), updaters={"cut_edges": cut_edges}, use_default_updaters=False)
        ch = MarkovChain(proposal, [], lambda q: next(it), init, p["len"])
        pl, ds, k = set(), set(), 0
        out = []
        for q, st in collect_diversity_stats(ch):
            a = tuple(q.assignment[i] for i in range(4))
            pl.add(key(a))
            ds |= key(a)
            k += 1
            out.append((a, st, (k, len(pl), len(ds))))
            ctx.check((st.steps_taken, st.unique_plans, st.unique_districts) == (k, len(pl), len(ds)), "statistics of a wrapped chain are wrong", plans=[o[0] for o in out],
                      got=(st.steps_taken, st.unique_plans, st.unique_districts), want=(k, len(pl), len(ds)))
        ctx.check(k == p["len"], "the wrapped chain has the wrong length", got=k)
        for a, st, wn in out:
            ctx.check((st.steps_taken, st.unique_plans, st.unique_districts) == wn, "an earlier report changed")
        return tuple(o[0] for o in out)

    def on(seq, pr, chs):
        ctx.state(seq)
        ctx.trans(len(seq))
    st = explore(run, on)
    ctx.absorb(st)
    ctx.trace(st.executions)
