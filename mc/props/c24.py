"""C24 Region surcharges steer trees and cuts away from splitting regions.

Every assignment of a fixed set of distinct weights to the edges is tried (all permutations of
the values random() hands out), so the tally of outcomes does not depend on the order in which
the code visits the edges and can be compared exactly with the model's tally.
"""
import itertools
from collections import Counter
from fractions import Fraction
from functools import partial
from gerrychain import Partition
from gerrychain.proposals import recom
from gerrychain.tree import (bipartition_tree, find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization, random_spanning_tree)
from gerrychain.updaters import Tally, cut_edges
from mc.core import gen
from mc.core.explore import explore
from mc.core.rng import ORACLE

ID = "C24"
BOUNDS = {
    "quick": "graphs P4, star, C4, paw, diamond, K4, C5, triangle with tail (3-6 edges) and 2x3 grid: every assignment of distinct weights (all permutations) x every labelling with one region type over {A, B, none} (names incl. 0, "", False) and two region types over {A,B}x{X,Y} (up to symmetry), families with 0, 3 and 4 region types; surcharges of zero, below and above one (negative ones for the trees); trees drawn, balanced cuts chosen by bipartition_tree (both cut searches, two tolerances, one-sided), and whole ReCom steps, all roots and choices",
    "thorough": "all three-type labellings of 4-node graphs, 2x3 grid with all one-type labellings, 2x3 grid pipelines",
}
ASSUMPTIONS = ["no two sets of region types have equal total surcharge (ties are not specified)", "no edge joins two nodes without a region when judging the cut choice", "the surcharge dictionary has at most one draw of random() per edge and tree",
               "the weights are distinct"]

GRAPHS = {"P4": (gen.path(4), 4), "star": (gen.star(4), 4), "C4": (gen.cycle(4), 4), "paw": (((0, 1), (0, 2), (1, 2), (2, 3)), 4),
          "diamond": (((0, 1), (0, 2), (1, 2), (1, 3), (2, 3)), 4), "K4": (gen.complete(4), 4), "C5": (gen.cycle(5), 5),
          "tail": (((0, 1), (0, 2), (1, 2), (2, 3), (3, 4)), 5), "K3": (gen.complete(3), 3), "grid23": (gen.grid(2, 3), 6)}
ONE = [{"county": 1.5}, {"county": 0.3}, {"county": 0.0}]
TWO = [{"county": 1.2, "muni": 0.45}, {"muni": 0.2, "county": 3.0}, {"county": 0.0, "muni": 0.45}]
THREE = [{"a": 2.1, "b": 1.3, "c": 0.45}, {"a": 0.25, "b": 0.45, "c": 0.15}]
FOUR = [{"a": 1.1, "b": 0.7, "c": 0.4, "d": 0.25}]


def labellings(n, keys, none):
    """All labellings of n nodes by ``keys`` region types, up to swapping names in each type."""
    base = [x for x in itertools.product("AB", repeat=n) if x[0] == "A"]
    if none:
        base = [x for x in itertools.product(("A", "B", None), repeat=n) if next((y for y in x if y), "A") == "A"]
    return itertools.product(base, repeat=keys)


def cases(tier):
    th = tier == "thorough"
    for name, (e, n) in GRAPHS.items():
        m = len(e)
        confs = [(1, ONE, True), (2, TWO, False)]
        for keys, dicts, none in confs:
            if name == "grid23" and keys == 2:
                continue
            if m < 6:           # a negative surcharge makes the borders attractive
                neg = {"county": -0.4} if keys == 1 else {"county": -1.3, "muni": 0.35}
                yield "tree", dict(graph=name, keys=list(neg), d=neg, none=none, chunk=0, chunks=1, stride=3 if m == 5 else 1)
            if m >= 6 and keys == 2 and not th:
                dicts = dicts[:1]
            for di, d in enumerate(dicts):
                chunks = 8 if m >= 6 else 2
                for c in range(chunks):
                    p = dict(graph=name, keys=list(d), d=d, none=none, chunk=c, chunks=chunks)
                    yield "tree", dict(p, stride=1 if m < 6 or (th and name != "grid23") else 4 if name != "grid23" else (3 if th else 24))
                    if name != "grid23" or th:
                        yield "cut", dict(p, stride=1 if m < 5 else 2 if th else {5: 6, 6: 16, 7: 40}[m])
        for d in THREE:
            yield "tree", dict(graph=name, keys=list(d), d=d, none=False, chunk=0, chunks=1, stride=max(1, {3: 1, 4: 1, 5: 5, 6: 60, 7: 20000}[m] // (4 if th else 1)))
            if m < 7:
                yield "cut", dict(graph=name, keys=list(d), d=d, none=False, chunk=0, chunks=1, stride=max(1, {3: 4, 4: 8, 5: 60, 6: 200}[m] // (6 if th else 1)))
        for d in FOUR:
            if m < 6 and n == 4:
                yield "cut", dict(graph=name, keys=list(d), d=d, none=False, chunk=0, chunks=1, stride=160 if m < 5 else 640)
        if m < 7:
            for empty in ("none", "empty"):
                yield "cut", dict(graph=name, keys=[], d={} if empty == "empty" else None, none=False, chunk=0, chunks=1, stride=1)
    for n in (6, 12, 24, 40):
        yield "long", dict(n=n)
    for name in ("P4", "C4", "paw", "diamond") + (("K4", "C5", "tail") if th else ()):
        for d in (ONE[0], TWO[0], None):
            m = len(GRAPHS[name][0])
            yield "recom", dict(graph=name, keys=list(d or {}), d=d, none=False, chunk=0, chunks=1, stride=(1 if m < 5 else 3) if d is None or len(d) == 1 else (4 if m < 5 else 24))


def weights(m):
    return [Fraction(2 * i + 1, 2 * m) for i in range(m)] if m > 2 else [Fraction(1, 8), Fraction(7, 8)]


def vals(m):
    v = [float(x) for x in weights(m)]
    v[0], v[-1] = 0.001, 0.997
    return v


def charge(e, lab, d, tree):
    """Total surcharge of an edge; region-free endpoints count as crossing when drawing trees."""
    out = 0.0
    for i, k in enumerate(d or {}):
        a, b = lab[i][e[0]], lab[i][e[1]]
        if a != b or (tree and a is None):
            out += d[k]
    return out


def mst(edges, n, w):
    comp = list(range(n))
    out = []
    for e in sorted(edges, key=lambda e: w[e]):
        a, b = comp[e[0]], comp[e[1]]
        if a != b:
            comp = [a if x == b else x for x in comp]
            out.append(e)
    return frozenset(out)


def build(p, lab):
    e, n = GRAPHS[p["graph"]]
    attrs = {k: list(lab[i]) for i, k in enumerate(p["keys"])}
    attrs["pop"] = [1] * n
    return gen.build(e, n, attrs=attrs), e, n


def picked(p, cut):
    e, n = GRAPHS[p["graph"]]
    for i, lab in enumerate(labellings(n, len(p["keys"]), p["none"])):
        if i % p["chunks"] != p["chunk"] or (i // p["chunks"]) % p["stride"]:
            continue
        if cut and any(l[a] is None and l[b] is None for l in lab for a, b in e):
            continue
        # region names include values that are false: 0, "" and False
        names = NAMES[i % len(NAMES)]
        yield tuple(tuple(names.get(x, x) for x in l) for l in lab)


NAMES = [{}, {"A": "north", "B": "south"}, {"A": 1001, "B": 1002}, {"A": 0, "B": 1}, {"A": "x", "B": ""}, {"A": "01", "B": "1"}, {"A": 5, "B": False}]


def distinct(w):
    v = sorted(w.values())
    return all(b - a > 1e-9 for a, b in zip(v, v[1:]))


def case_tree(ctx, p, tier):
    d = p["d"]
    for lab in picked(p, False):
        g, edges, n = build(p, lab)
        m = len(edges)
        V = vals(m)
        got, want = Counter(), Counter()
        ok = True
        for u in itertools.permutations(V):
            w = {e: x + charge(e, lab, d, True) for e, x in zip(edges, u)}
            if not distinct(w):
                ok = False
                break
            want[mst(edges, n, w)] += 1
            ORACLE.reset([])
            ORACLE.script = list(u)
            t = random_spanning_tree(g, region_surcharge=d)
            te = frozenset(tuple(sorted(x)) for x in t.edges)
            ctx.trans()
            ctx.check(set(t.nodes) == set(range(n)) and len(te) == n - 1 and te <= set(edges) and gen.is_connected_set(range(n), gen.adj(te, n)), "not a spanning tree", tree=sorted(te), regions=lab)
            got[te] += 1
            if len(d) == 1 and list(d.values())[0] > 1:
                for r in {x for x in lab[0] if x is not None}:
                    ns = {i for i in range(n) if lab[0][i] == r}
                    if gen.is_connected_set(ns, gen.adj(edges, n)):
                        ctx.check(gen.is_connected_set(ns, gen.adj(te, n)), "with a surcharge above one the drawn tree splits a connected region", region=r, regions=lab, tree=sorted(te))
        if not ok:
            ctx.note("labellings_skipped_for_equal_weights")
            continue
        ctx.trace(len(got))
        ctx.check(got == want, "over all assignments of weights, the trees are not the minimum trees of weight + surcharge", regions=lab, surcharge=d,
                  wrong=[(sorted(t), got[t], want[t]) for t in set(got) | set(want) if got[t] != want[t]][:3])
        for t in got:
            ctx.state(p["graph"], lab, t)


def choose(cuts, lab, d, w):
    """Model of the preferred cut: {cut: probability}."""
    if d is None:
        return {c: Fraction(1, len(cuts)) for c in cuts}

    def key(c):
        crossed = [k for i, k in enumerate(d) if lab[i][c[0]] != lab[i][c[1]]]
        if not 1 <= len(d) <= 3:
            return (w[c],)
        return (len(crossed), sum(d[k] for k in crossed), w[c])
    return {max(cuts, key=key): Fraction(1)}


def model_cut(edges, n, lab, d, u, t, eps, one):
    w = {e: x + charge(e, lab, d, True) for e, x in zip(edges, u)}
    if not distinct(w):
        return None
    tr = mst(edges, n, w)
    cuts, side = [], {}
    for e in tr:
        c = gen.components(range(n), gen.adj([x for x in tr if x != e], n))
        okk = [abs(len(s) - t) <= eps * t for s in c]
        if (any(okk) if one else all(okk)):
            cuts.append(e)
            side[e] = frozenset(c)
    if not cuts:
        return {"none": Fraction(1)}
    out = {}
    for c, pr in choose(cuts, lab, d, w).items():
        out[side[c]] = out.get(side[c], 0) + pr
    return out


def variants(n):
    yield "mem", n / 2, 0.9375, False
    yield "con", n / 2, 0.9375, False
    if n >= 4:
        yield "mem", n / 2, 0.5, False
        yield "con", n / 2, 0.125 if n % 2 == 0 else 0.25, False
        yield "mem", float(n // 2), 0.5, True


def tally(ctx, run, d, edges, n, lab, t, eps, one, what, info):
    m = len(edges)
    got, want = {}, {}
    tot = 0
    for u in itertools.permutations(vals(m)):
        mo = model_cut(edges, n, lab, d, u, t, eps, one)
        if mo is None:
            ctx.note("labellings_skipped_for_equal_weights")
            return
        tot += 1
        for k, x in mo.items():
            want[k] = want.get(k, 0) + x

        def go():
            ORACLE.script = list(u)
            r = run()
            ORACLE.script = []
            return r

        def on(r, pr, ch):
            if pr is None:
                pr = Fraction(0)
            got[r] = got.get(r, Fraction(0)) + pr
            ctx.trans()
        st = explore(go, on, horizon=500)
        ctx.absorb(st)
        ctx.trace(st.executions)
    bad = [(sorted(map(sorted, k)) if k != "none" else k, str(got.get(k, 0)), str(want.get(k, 0))) for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)]
    ctx.check(not bad, what, regions=lab, surcharge=d, target=t, eps=eps, one_sided=one, of=tot, wrong_got_want=bad[:3], **info)
    for k in got:
        ctx.state(lab, k, t, eps)


def case_cut(ctx, p, tier):
    d = p["d"]
    for j, lab in enumerate(picked(p, True)):
        g, edges, n = build(p, lab)
        vs = list(variants(n))
        if len(edges) >= 5 and tier == "quick":
            vs = [vs[j % len(vs)], vs[(j + 2) % len(vs)]]
        for alg, t, eps, one in vs:
            fn = find_balanced_edge_cuts_memoization if alg == "mem" else find_balanced_edge_cuts_contraction

            def run():
                try:
                    s = bipartition_tree(g, "pop", t, eps, region_surcharge=d, balance_edge_fn=fn, one_sided_cut=one, max_attempts=1)
                except RuntimeError:
                    return "none"
                return frozenset((frozenset(s), frozenset(set(range(n)) - set(s))))
            tally(ctx, run, d, edges, n, lab, t, eps, one, "over all assignments of weights, the chosen cuts are not the preferred ones", dict(search=alg))


def case_recom(ctx, p, tier):
    d = p["d"]
    for j, lab in enumerate(picked(p, True)):
        g, edges, n = build(p, lab)
        t, eps = n / 2, 0.9375 if j % 2 else 0.5
        plans = list(gen.contiguous_plans(edges, n, 2, unlabelled=True))
        a = plans[j % len(plans)]
        part = Partition(g, dict(enumerate(a)), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)

        def run():
            try:
                q = recom(part, "pop", t, eps, region_surcharge=d, method=partial(bipartition_tree, max_attempts=1))
            except RuntimeError:
                return "none"
            return frozenset(frozenset(i for i in range(n) if q.assignment[i] == x) for x in (0, 1))
        tally(ctx, run, d, edges, n, lab, t, eps, False, "the plans ReCom proposes do not follow the region surcharges", dict(start=a))


def case_long(ctx, p, tier):
    """A long path with many balanced cuts, one of which is preferred whatever the weights are."""
    n = p["n"]
    edges = gen.path(n)
    for j in range(1, n):
        one = ["A" if i < j else "B" for i in range(n)]
        j2 = (j * 3) % (n - 1) + 1
        two = ["X" if i < j2 else "Y" for i in range(n)]
        third = ["P" if i < n - j else "Q" for i in range(n)]
        every = ["R%d" % i for i in range(n)]              # crossed everywhere
        both = [("a", one), ("b", one)]
        confs = [([("a", one)], {"a": 0.3}, j), ([("a", one)], {"a": 2}, j), ([("a", one), ("b", every)], {"a": 0.5, "b": 0.2}, j),
                 (both + [("c", two)], {"c": 3, "a": 0.4, "b": 0.3}, j if j != j2 else j), ([("a", one), ("b", two)], {"a": 0.4, "b": 1.7}, j2),
                 ([("a", one), ("b", two)], {"a": 1.7, "b": 0.4}, j), ([("a", one), ("b", one), ("c", third)], {"a": 0.2, "b": 0.3, "c": 0.1}, j)]
        for cols, d, at in confs[(j % 2):: 2] if n > 24 else confs:
            g = gen.build(edges, n, attrs=dict({k: v for k, v in cols}, pop=[1] * n))
            for fn in (find_balanced_edge_cuts_memoization, find_balanced_edge_cuts_contraction) if n <= 24 else (find_balanced_edge_cuts_memoization,):
                for s in range(2):
                    ORACLE.reset([], fair_after=0)
                    ORACLE.script = [((i * (2 * s + 5) + s) % n + 0.5) / n for i in range(n - 1)]
                    side = bipartition_tree(g, "pop", n / 2, 0.999, region_surcharge=d, balance_edge_fn=fn, max_attempts=1)
                    ORACLE.script = []
                    ctx.check(set(side) in (set(range(at)), set(range(at, n))), "the cut that crosses most region borders is not chosen", nodes=n, surcharge=d, want=at, got=sorted(side))
                    ctx.trans()
            ctx.state(n, j, len(cols), at)
            ctx.trace()
