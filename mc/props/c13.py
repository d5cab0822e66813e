"""C13 Bipartitions and seed plans are always connected, balanced and complete."""
import warnings
from fractions import Fraction
from functools import partial
from gerrychain import GeographicPartition, Graph, Partition
from gerrychain.tree import (BalanceError, PopulationBalanceError, ReselectException, bipartition_tree, bipartition_tree_random,
                             epsilon_tree_bipartition, find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization,
                             get_max_prime_factor_less_than, random_spanning_tree, recursive_seed_part, recursive_tree_part,
                             uniform_spanning_tree)
from mc.core import gen, hist
from mc.core.explore import explore
from mc.core.rng import ORACLE
from mc.core.trees import EnumTree, StyleTree, tree_sides

ID = "C13"
BOUNDS = {
    "quick": "bipartitions: all connected graphs with <=4 nodes and 5-node graphs with <=6 edges, three population patterns, 4 (target, epsilon) pairs, one-/two-sided, both search algorithms, both bipartition functions, all spanning trees x all roots x all cut choices, 1 attempt (2 attempts for <=4 trees); real Kruskal draws on graphs with <=5 edges; seed plans: paths, stars, cycles, small trees and grids with 4-10 nodes into 2-6 districts, all trees and cut choices, up to 2500 failing attempts in a row, with or without a late success; all chunking options n in {None,2,3}, ceil in {None,2,3}; plans with 2-30 districts of paths, cycles, grids and caterpillars with 36-64 nodes (six systematic spanning trees, first two choices enumerated, then a fair schedule)",
    "thorough": "5-node graphs with <=8 edges, 2x3 and 2x4 grids with every root, 2 attempts, more populations",
}
ASSUMPTIONS = ["targets and tolerances are exactly representable in binary", "seed plans with at least two districts", "an exhausted attempt limit may surface as RuntimeError, ReselectException, BalanceError or PopulationBalanceError"]
FAIL = (RuntimeError, BalanceError, PopulationBalanceError, ReselectException)
POPS = {"unit": lambda i: 1, "alt": lambda i: 1 + i % 2, "big": lambda i: [4, 1, 1, 2, 1, 1, 2, 4, 1, 1][i]}


def cases(tier):
    th = tier == "thorough"
    c = 0
    kinds = ["int", "str", "rev", "tup"]
    gs = [(e, n) for n in (2, 3, 4, 5) for e in gen.connected(n) if n < 5 or len(e) <= (8 if th else 6)]
    gs.append((gen.grid(2, 3), 6))
    for e, n in gs:
        for pops in POPS:
            for one in (False, True):
                for alg in ("mem", "con"):
                    for fn in ("tree", "random"):
                        c += 1
                        if not th and n >= 5 and c % 2:
                            continue
                        yield "bip", dict(edges=[list(x) for x in e], n=n, nodes=kinds[c % 4], pops=pops, one=one, alg=alg, fn=fn)
        if len(e) <= 5:
            for fn in ("tree", "random"):
                for tree in ("kruskal",) + (("wilson",) if n <= 3 else ()):
                    yield "real", dict(edges=[list(x) for x in e], n=n, nodes=kinds[c % 4], pops="unit", fn=fn, tree=tree)
    yield "fail", dict()
    for n in (7, 50, 150, 999, 1000, 1001, 2500) + ((10000, 30000) if th else ()):
        for fn in ("tree", "reselect", "random"):
            for rep in (1, 3):
                yield "longfail", dict(attempts=n, fn=fn, rep=rep)
    shapes = [("path", n) for n in (4, 5, 6, 8, 9, 10)] + [("cycle", n) for n in (4, 5, 6, 8)] + [("grid23", 6), ("star", 4), ("grid24", 8), ("cat", 6), ("cat", 8), ("grid33", 9)]
    for sh, n in shapes:
        for k in (2, 3, 4, 5, 6):
            if k > n or (sh in ("grid33",) and k not in (2, 3)) or (sh == "grid24" and k not in (2, 4)) or (sh == "cycle" and n == 8 and k > 4):
                continue
            for pops in ("unit", "alt", "big"):
                if sh in ("grid24", "grid33") and pops != "unit":
                    continue
                for eps in (0.0, 0.25, 0.5) if pops != "unit" else (0.0, 0.5):
                    if sh in ("grid24", "grid33", "grid23") and eps == 0.5 and k > 3 and not th:
                        continue
                    c += 1
                    if not th and eps == 0.5 and (sh == "grid33" or k == 5 and (sh, n) in (("cycle", 5), ("path", 10))):
                        continue
                    p = dict(shape=sh, n=n, k=k, pops=pops, eps=eps, nodes=kinds[c % 4], method=["tree", "random"][c % 2], lab=[None, "step", "tuple", "down", "mixed", "far"][c % 6] if n < 10 else None)
                    yield "seed", dict(p, gen="rtp")
                    if k == 2:
                        yield "seed", dict(p, gen="eps2")
                    for opt in ([None, None], [2, None], [3, None], [None, 2], [None, 3]) if k > 2 else ([None, None],):
                        if sh in ("grid33", "grid24") and opt[0] == 3 or not th and sh == "grid23" and k == 3 and eps == 0.5 and pops != "alt" and 3 in opt + [3 if opt == [None, None] else 0]:
                            continue
                        yield "seed", dict(p, gen="seed", opt=opt)
                    if sh in ("path", "cat", "star") and pops != "big":
                        yield "seed", dict(p, gen="fra")
    yield "primes", dict()
    for sh, n, ks in (("path", 60, (5, 6, 12, 30)), ("cycle", 40, (4, 5, 8, 10)), ("gridRC", 36, (2, 4, 6, 9)), ("gridRC", 64, (4, 8, 16)), ("cat", 48, (3, 6, 8))):
        for k in ks:
            for how in ("rtp", "seed", "seed2", "seed3", "fra") + (("eps2",) if k == 2 else ()):
                for eps in (0.25, 0.5) if how in ("rtp", "fra", "seed") else (0.5,):
                    c += 1
                    yield "large", dict(shape=sh, n=n, k=k, gen=how, eps=eps, pops=("unit", "alt")[c % 2], method=("tree", "random")[c // 2 % 2], nodes=kinds[c % 4])


LABELS = {"step": lambda k: range(10, 10 + 10 * k, 10), "down": lambda k: range(k, 0, -1), "tuple": lambda k: tuple("D%d" % (i * i) for i in range(k)), "mixed": lambda k: [0, "a", 2.5, (1, 2), "0", None][:k],
          "far": lambda k: [7 ** i - 3 for i in range(k)]}


def shape(sh, n):
    return {"path": gen.path, "cycle": gen.cycle, "star": gen.star, "grid23": lambda n: gen.grid(2, 3), "grid24": lambda n: gen.grid(2, 4), "grid33": lambda n: gen.grid(3, 3),
            "cat": lambda n: tuple(sorted([(2 * i, 2 * i + 1) for i in range(n // 2)] + [(2 * i, 2 * i + 2) for i in range(n // 2 - 1)]))}[sh](n)


def snapshot(g):
    return ({v: {k: (type(x), x) for k, x in g.nodes[v].items()} for v in g.nodes}, {frozenset(e): {k: (type(x), x) for k, x in g.edges[e].items() if k != "random_weight"} for e in g.edges}, set(g.node_indices))


def settings(tot, one):
    if one:
        return [(tot / 4, 0.5), (tot / 2, 0.25), (2.0, 0.0), (2.0, 0.5)]
    return [(tot / 2, 0.0), (tot / 2, 0.25), (tot / 2, 0.5), (2.0, 0.5)]


def judge_side(ctx, w, pop, nodes, target, eps, one, info):
    s = {w.idx[v] for v in nodes}
    rest = set(range(w.n)) - s
    t, ep = Fraction(target), Fraction(eps)
    ctx.check(gen.is_connected_set(s, w.neigh), "the returned set is empty or not connected", got=sorted(s), **info)
    ctx.check(gen.is_connected_set(rest, w.neigh), "the complement of the returned set is empty or not connected", got=sorted(s), **info)
    ctx.check(abs(sum(pop[i] for i in s) - t) <= ep * t, "the returned set is not within epsilon of the target", got=sorted(s), **info)
    if not one:
        ctx.check(abs(sum(pop[i] for i in rest) - t) <= ep * t, "the complement is not within epsilon of the target", got=sorted(s), **info)
    return frozenset(s)


def case_bip(ctx, p, tier):
    w = hist.World(dict(p, k=2, a0=[0] * p["n"]))
    pop = [POPS[p["pops"]](i) for i in range(w.n)]
    w.attrs = {"pop": pop, "other": [7] * w.n}
    w.eattrs = {"shared_perim": lambda i, j: i + j}
    g = w.graph()
    before = snapshot(g)
    one = p["one"]
    search = find_balanced_edge_cuts_memoization if p["alg"] == "mem" else find_balanced_edge_cuts_contraction
    T = gen.count_spanning_trees(w.edges, range(w.n))
    for target, eps in settings(sum(pop), one):
        t, ep = Fraction(target), Fraction(eps)

        def ok(side):
            return abs(sum(pop[w.idx[v]] for v in side) - t) <= ep * t

        def balanced(tree):
            return [s for s in tree_sides(tree, w.lab).values() if (ok(s[0]) and ok(s[1])) or one and (ok(s[0]) or ok(s[1]))]
        for attempts in ((1, 2) if T <= (4 if tier == "quick" else 8) and w.n <= 4 else (1,)):
            seen = set()
            possible = set()
            info = dict(target=target, epsilon=eps, pop=pop, attempts=attempts)

            def run():
                et = EnumTree()
                calls = [0]

                def counting(h, one_sided_cut=False, choice=None):
                    calls[0] += 1
                    return search(h, one_sided_cut=one_sided_cut, choice=choice)
                kw = dict(pop_col="pop", pop_target=target, epsilon=eps, spanning_tree_fn=et, balance_edge_fn=counting, max_attempts=attempts)
                if one:
                    kw["one_sided_cut"] = True
                f = bipartition_tree if p["fn"] == "tree" else bipartition_tree_random
                try:
                    return f(g, **kw), et, calls[0]
                except FAIL as e:
                    return e, et, calls[0]

            def on(r, pr, ch):
                res, et, calls = r
                for tr in et.drawn:
                    for s in balanced(tr):
                        for x in s:
                            if ok(x):
                                possible.add(frozenset(w.idx[v] for v in x))
                if isinstance(res, FAIL):
                    ctx.check(calls == attempts, "failure reported after a number of attempts other than the configured one", calls=calls, **info)
                    for tr in et.drawn:
                        if not one or p["alg"] == "mem":
                            ctx.check(not balanced(tr), "failure reported although a drawn tree has a balanced cut", tree=tr, **info)
                else:
                    ctx.check(res is not None, "no result and no failure", **info)
                    ctx.check(calls <= attempts, "more attempts than configured", **info)
                    s = judge_side(ctx, w, pop, res, target, eps, one, dict(info, choices=ch))
                    last = et.drawn[-1]
                    ctx.check(any({w.lab[i] for i in s} in x for x in balanced(last)), "the returned set is not a balanced cut of the tree drawn", tree=last, got=sorted(s), **info)
                    seen.add(s)
                ctx.trans()
            st = explore(run, on, horizon=2000)
            ctx.absorb(st)
            ctx.trace(st.executions)
            for s in seen:
                ctx.state(s, target, eps)
            sides = seen | {frozenset(range(w.n)) - s for s in seen}
            if not one or p["alg"] == "mem":
                ctx.check(possible <= sides, "a balanced split of some tree is never returned", missing=[sorted(s) for s in possible - sides], **info)
        ctx.outcome((target, eps, len(seen)))
    ctx.check(snapshot(g) == before, "the graph was altered")


def case_real(ctx, p, tier):
    """Default tree sampler, all draws."""
    w = hist.World(dict(p, k=2, a0=[0] * p["n"]))
    pop = [1] * w.n
    w.attrs = {"pop": pop}
    g = w.graph()
    before = snapshot(g)
    f = bipartition_tree if p["fn"] == "tree" else bipartition_tree_random
    for target, eps in ((w.n / 2, 0.5), (w.n / 2, 0.0)):
        kw = dict(pop_col="pop", pop_target=target, epsilon=eps, max_attempts=1, choice=lambda s: s[0]) if len(w.edges) > 4 and p["fn"] == "tree" else dict(pop_col="pop", pop_target=target, epsilon=eps, max_attempts=1)
        if p["tree"] == "wilson":
            kw["spanning_tree_fn"] = uniform_spanning_tree
        seen = set()

        def run():
            try:
                return f(g, **kw)
            except FAIL as e:
                return e

        def on(r, pr, ch):
            if not isinstance(r, FAIL):
                seen.add(judge_side(ctx, w, pop, r, target, eps, False, dict(choices=ch, target=target)))
            ctx.trans()
        st = explore(run, on, horizon=2000, fair_after=60 if p["tree"] == "kruskal" else 12)
        ctx.absorb(st)
        ctx.trace(st.executions)
        want = set()
        for tr in gen.spanning_trees(w.edges, range(w.n)):
            for s in tree_sides(tr, range(w.n)).values():
                if all(abs(len(x) - target) <= eps * target for x in s):
                    want |= set(s)
        got = seen | {frozenset(range(w.n)) - s for s in seen}
        ctx.check(got == want, "not exactly the balanced splits can be returned", got=[sorted(s) for s in got], want=[sorted(s) for s in want])
        for s in seen:
            ctx.state(s, target, eps)
    ctx.check(snapshot(g) == before, "the graph was altered")


def case_fail(ctx, p, tier):
    """No balanced cut exists: the call must end after max_attempts, with the right kind of failure."""
    for n, e in ((3, gen.path(3)), (3, gen.complete(3)), (4, gen.star(4))):
        for m in (1, 2, 3, 5):
            for rep in (1, 2, 3):
                for f, reselect in ((bipartition_tree, False), (bipartition_tree, True), (bipartition_tree_random, False)):
                    g = gen.build(e, n, "int", {"pop": [1] * n})
                    calls = [0]
                    pool = gen.spanning_trees(e, range(n))

                    def counting(h, one_sided_cut=False, choice=None):
                        calls[0] += 1
                        ctx.check(calls[0] <= m, "more attempts than configured", max_attempts=m, node_repeats=rep)
                        return find_balanced_edge_cuts_memoization(h, one_sided_cut=one_sided_cut, choice=lambda s: s[0])
                    kw = dict(pop_col="pop", pop_target=n / 2 if n % 2 else 2, epsilon=0.125, node_repeats=rep, max_attempts=m, balance_edge_fn=counting, spanning_tree_fn=EnumTree())
                    if reselect:
                        kw["allow_pair_reselection"] = True

                    def run():
                        calls[0] = 0
                        try:
                            return f(g, **kw)
                        except FAIL as x:
                            return x

                    def on(r, pr, ch):
                        ctx.check(isinstance(r, ReselectException if reselect else RuntimeError), "an impossible bipartition did not report failure", got=repr(r), reselect=reselect)
                        ctx.check(calls[0] == m, "failure after a number of attempts other than max_attempts", calls=calls[0], max_attempts=m, node_repeats=rep)
                        ctx.trans()
                    ctx.absorb(explore(run, on, horizon=500))
                    ctx.state(n, m, rep, reselect, f.__name__)
                    ctx.trace()
    # repeat_until_valid=False: one attempt, None if it has no balanced cut
    g = gen.build(gen.path(3), 3, "int", {"pop": [1] * 3})
    ctx.check(bipartition_tree_random(g, "pop", 1.5, 0.125, repeat_until_valid=False, choice=lambda s: s[0]) is None, "a single failing attempt does not return None")


def case_longfail(ctx, p, tier):
    """Many failed attempts in a row: still no unbalanced cut, and a late balanced tree is still found."""
    m = p["attempts"]
    f = bipartition_tree_random if p["fn"] == "random" else bipartition_tree
    kw = dict(allow_pair_reselection=True) if p["fn"] == "reselect" else {}
    # path of populations 1 1 1 2 (cuts 1|4, 2|3, 3|2); target 2.5, balanced only with epsilon >= 0.2
    for one in (False, True):
        for good in (None, m - 1):
            # good: the cycle 0 1 2 3 with populations 2 1 1 2; its tree 0-1-2-3 has the cut 3|3, the tree 1-0-3-2 too, 0-3.. have 2|4
            n, pop, target, eps = (4, [1, 1, 1, 2], 2.5, 0.125) if good is None else (4, [2, 1, 2, 1], 3, 0.125)
            edges = gen.path(4) if good is None else ((0, 1), (1, 2), (2, 3), (0, 2))
            w = hist.World(dict(edges=edges, n=n, k=2, a0=[0] * n))
            g = gen.build(edges, n, "int", {"pop": pop})
            trees = gen.spanning_trees(edges, range(n))
            ok = lambda side: abs(sum(pop[v] for v in side) - target) <= eps * target
            bal = {t: any(ok(a) and ok(b) or one and (ok(a) or ok(b)) for a, b in tree_sides(t, range(n)).values()) for t in map(tuple, trees)}
            bad = [t for t in bal if not bal[t]]
            fine = [t for t in bal if bal[t]]
            if good is not None and not (bad and fine):
                raise AssertionError("scenario has no mixture of trees")
            if good is None and fine:
                raise AssertionError("scenario has a balanced tree")
            drawn = [0]

            def sampler(graph):
                t = fine[0] if good is not None and drawn[0] * p["rep"] >= good - p["rep"] + 1 else bad[drawn[0] % len(bad)]
                drawn[0] += 1
                h = Graph()
                h.add_nodes_from(graph.nodes)
                h.add_edges_from(t)
                return h

            def run():
                drawn[0] = 0
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        return f(g, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=p["rep"], max_attempts=m, one_sided_cut=one,
                                 spanning_tree_fn=sampler, choice=lambda x: x[0], **kw)
                except FAIL as x:
                    return x

            def on(r, pr, ch):
                info = dict(attempts=m, one_sided=one, node_repeats=p["rep"])
                if good is None:
                    ctx.check(isinstance(r, ReselectException if kw else RuntimeError), "an impossible bipartition did not report failure", got=repr(r), **info)
                else:
                    ctx.check(not isinstance(r, Exception), "failure reported before the configured number of attempts", got=repr(r), **info)
                    judge_side(ctx, w, pop, r, target, eps, one, info)
                ctx.trans(drawn[0])
            ctx.absorb(explore(run, on, horizon=200))
            ctx.state(m, one, good, p["fn"], p["rep"])
            ctx.trace()


def pick(s):
    """Enumerate the choice among cuts, fix the root (root independence is C12's and bip's business)."""
    return s[ORACLE.uniform(len(s), "n")] if hasattr(s[0], "subset") else s[0]


def case_seed(ctx, p, tier):
    edges = shape(p["shape"], p["n"])
    w = hist.World(dict(edges=edges, n=p["n"], k=min(4, p["k"]), a0=[0] * p["n"], nodes=p["nodes"]))
    k = p["k"]
    pop = [POPS[p["pops"]](i) for i in range(w.n)]
    # make the ideal exactly representable
    while (Fraction(sum(pop), k).denominator & (Fraction(sum(pop), k).denominator - 1)) != 0:
        pop[-1] += 1
    w.attrs = {"pop": pop, "county": [i % 2 for i in range(w.n)]}
    g = w.graph()
    before = snapshot(g)
    target = sum(pop) / k
    eps = p["eps"]
    parts = {"rtp": ["D%d" % i for i in range(k)], "seed": list(range(10, 10 + k)), "eps2": ["x", 3], "fra": list(range(k))}[p["gen"]]
    if p["gen"] in ("rtp", "seed") and p.get("lab"):
        parts = LABELS[p["lab"]](k)
    small = w.n <= 5 and p["shape"] != "grid23"
    t, ep = Fraction(target), Fraction(eps)
    base = bipartition_tree if p["method"] == "tree" else bipartition_tree_random

    def run():
        kw = dict(spanning_tree_fn=EnumTree(), max_attempts=1)
        if not small:
            kw["choice"] = pick
        method = partial(base, **kw)
        try:
            if p["gen"] == "rtp":
                return recursive_tree_part(g, parts, target, "pop", eps, method=method)
            if p["gen"] == "eps2":
                return epsilon_tree_bipartition(g, parts, target, "pop", eps, method=method)
            if p["gen"] == "seed":
                n, ceil = p["opt"]
                return recursive_seed_part(g, parts, target, "pop", eps, method=method, n=n, ceil=ceil)
            cls = GeographicPartition if p["pops"] == "alt" else Partition
            g2 = w.graph()
            if cls is GeographicPartition:
                for v in g2.nodes:
                    g2.nodes[v].update(area=1, boundary_node=True, boundary_perim=1)
                for e in g2.edges:
                    g2.edges[e]["shared_perim"] = 1
            bef2 = snapshot(g2)
            q = cls.from_random_assignment(g2, k, eps, "pop", method=lambda **kws: recursive_tree_part(**dict(kws, method=method)))
            ctx.check(type(q) is cls, "from_random_assignment returns a different kind of partition")
            ctx.check(snapshot(g2) == bef2, "the graph was altered")
            ctx.check({v: d for d, s in q.parts.items() for v in s} == dict(q.assignment.items()), "districts and assignment of the random plan differ")
            return dict(q.assignment.items())
        except FAIL as e:
            return e
    good = [0]

    def on(r, pr, ch):
        ctx.trans()
        if isinstance(r, FAIL):
            ctx.note("executions_that_raised")
            return
        info = dict(choices=ch, plan=str(r)[:300], target=target, epsilon=eps, pop=pop)
        ctx.check(set(r) == set(w.lab), "the plan does not assign exactly the nodes of the graph", **info)
        ctx.check(set(r.values()) == set(parts), "the plan does not use exactly the requested labels", **info)
        for d in parts:
            ns = {w.idx[v] for v in r if r[v] == d}
            ctx.check(gen.is_connected_set(ns, w.neigh), "a district is not connected", district=d, **info)
            ctx.check(abs(sum(pop[i] for i in ns) - t) <= ep * t, "a district is not within epsilon of the target", district=d, population=sum(pop[i] for i in ns), **info)
        good[0] += 1
        ctx.state(frozenset(frozenset(w.idx[v] for v in r if r[v] == d) for d in parts))
        ctx.outcome(tuple(sorted(map(str, r.items()))))
    st = explore(run, on, horizon=3000, max_exec=60000 if tier == "quick" else 1500000)
    ctx.absorb(st)
    ctx.trace(good[0])
    ctx.check(snapshot(g) == before, "the graph was altered")
    if p["pops"] == "unit" and w.n % k == 0 and sum(pop) == w.n and p["shape"] in ("path", "grid23", "grid24", "cycle"):
        ctx.check(good[0] > 0, "no plan was ever generated although the graph has balanced plans")


def case_large(ctx, p, tier):
    """Seed plans of larger graphs with many districts: systematic spanning trees, the first choices
    (tree, cut) enumerated, the rest by a fair schedule."""
    n, k, eps = p["n"], p["k"], p["eps"]
    r = round(n ** 0.5)
    edges = gen.grid(r, r) if p["shape"] == "gridRC" else shape(p["shape"], n)
    w = hist.World(dict(edges=edges, n=n, k=2, a0=[0] * n, nodes=p["nodes"]))
    pop = [1 + i % 2 if p["pops"] == "alt" else 1 for i in range(n)]
    while (Fraction(sum(pop), k).denominator & (Fraction(sum(pop), k).denominator - 1)) != 0:
        pop[-1] += 1
    w.attrs = {"pop": pop}
    g = w.graph()
    before = snapshot(g)
    target = sum(pop) / k
    t, ep = Fraction(target), Fraction(eps)
    parts = list(range(k)) if p["gen"] in ("fra", "eps2") else range(3, 3 + 7 * k, 7) if k % 2 else ["D%d" % (k - i) for i in range(k)]
    base = bipartition_tree if p["method"] == "tree" else bipartition_tree_random

    def run():
        method = partial(base, spanning_tree_fn=StyleTree(), max_attempts=30, choice=pick)
        try:
            if p["gen"] == "rtp":
                return recursive_tree_part(g, parts, target, "pop", eps, method=method)
            if p["gen"] == "eps2":
                return epsilon_tree_bipartition(g, parts, target, "pop", eps, method=method)
            if p["gen"].startswith("seed"):
                return recursive_seed_part(g, parts, target, "pop", eps, method=method, n=int(p["gen"][4:] or 0) or None)
            q = Partition.from_random_assignment(w.graph(), k, eps, "pop", method=lambda **kws: recursive_tree_part(**dict(kws, method=method)))
            return dict(q.assignment.items())
        except FAIL as e:
            return e
    good = [0]

    def on(res, pr, ch):
        ctx.trans()
        if isinstance(res, FAIL):
            ctx.note("executions_that_raised")
            return
        info = dict(choices=ch[:20], target=target, epsilon=eps)
        ctx.check(set(res) == set(w.lab), "the plan does not assign exactly the nodes of the graph", **info)
        ctx.check(set(res.values()) == set(parts), "the plan does not use exactly the requested labels", **info)
        for d in parts:
            ns = {w.idx[v] for v in res if res[v] == d}
            ctx.check(gen.is_connected_set(ns, w.neigh), "a district is not connected", district=d, **info)
            ctx.check(abs(sum(pop[i] for i in ns) - t) <= ep * t, "a district is not within epsilon of the target", district=d, population=sum(pop[i] for i in ns), **info)
        good[0] += 1
        ctx.state(frozenset(frozenset(w.idx[v] for v in res if res[v] == d) for d in parts))
        ctx.outcome(tuple(sorted(map(str, res.items()))))
    st = explore(run, on, horizon=100000, fair_after=2, max_exec=24 if tier == "quick" else 400)
    ctx.absorb(st)
    ctx.trace(good[0])
    ctx.check(snapshot(g) == before, "the graph was altered")
    if p["shape"] == "path" and p["pops"] == "unit" and p["gen"] == "rtp":
        ctx.check(good[0] > 0, "no plan was ever generated although the graph has balanced plans")


def case_primes(ctx, p, tier):
    for n in range(0, 61):
        for ceil in range(0, 66):
            fs = [q for q in range(2, n + 1) if n % q == 0 and all(q % d for d in range(2, q)) and q <= ceil]
            ctx.eq(get_max_prime_factor_less_than(n, ceil), (max(fs) if fs else None) if n > 1 and ceil > 1 else None, "wrong largest prime factor", n=n, ceil=ceil)
            ctx.state(n, ceil)
            ctx.trans()
    ctx.trace()
