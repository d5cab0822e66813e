"""C14 ReCom re-splits exactly one pair of adjacent districts and always ends."""
from fractions import Fraction
from functools import partial
from gerrychain import MarkovChain, Partition
from gerrychain.accept import always_accept
from gerrychain.proposals import ReCom, recom, spectral_recom
from gerrychain.proposals.tree_proposals import MetagraphError
from gerrychain.tree import (BalanceError, PopulationBalanceError, bipartition_tree, bipartition_tree_random, find_balanced_edge_cuts_contraction,
                             uniform_spanning_tree)
from gerrychain.updaters import Tally, cut_edges
from mc.core import gen, hist
from mc.core.explore import explore
from mc.core.rng import ORACLE
from mc.core.trees import EnumTree, StyleTree, tree_sides

ID = "C14"
BOUNDS = {
    "quick": "all contiguous plans (balanced or not) with 2-4 districts of all connected 3-4-node graphs and of P5, P6, C5, C6, 2x3 grid, one 6-node tree; 3 population patterns (small and in the thousands) x 2 tolerances; 5 ways of calling (function/class, both bipartition functions, with/without pair reselection, contraction search); all edge, tree and cut choices (retry loops: 4-12 choice points, then a fair schedule); default Kruskal sampler on 4-node graphs; populations exactly at the limit for nine decimal tolerances; spectral ReCom on all those plans; three ReCom steps in a row on 60-64-node grids and paths with 4-12 districts (six systematic spanning trees or Kruskal draws, first two choices enumerated, then a fair schedule)",
    "thorough": "also 5-node graphs with <=6 edges, 2x4 and 3x3 grids with 2-4 districts, chains of two ReCom steps everywhere",
}
ASSUMPTIONS = ["targets and tolerances are exactly representable in binary (except in the 'limit' cases)", "the number of tree attempts is set to 1, so a step may give up on a pair after one unlucky tree", "the edge scratch attribute random_weight may be written"]
FAIL = (RuntimeError, BalanceError, PopulationBalanceError)


def cases(tier):
    th = tier == "thorough"
    c = 0
    kinds, pls = ["int", "str", "rev", "tup"], ["int", "str", "mix", "one"]
    cat = ((0, 1), (0, 2), (2, 3), (2, 4), (4, 5))
    gs = [(e, n) for n in (2, 3, 4) for e in gen.connected(n)] + [(gen.path(5), 5), (gen.cycle(5), 5), (gen.path(6), 6), (gen.cycle(6), 6), (gen.grid(2, 3), 6), (cat, 6)]
    if th:
        gs += [(e, 5) for e in gen.connected(5) if len(e) <= 6] + [(gen.grid(2, 4), 8), (gen.grid(3, 3), 9)]
    for e, n in gs:
        for k in (2, 3, 4) if n in (4, 6, 8) else (2, 3):
            if k > n or (n == 9 and k == 3):
                continue
            for call in ("fn", "class", "reselect"):
                if n > 4 and (k == 4 or call == "reselect" and not th):
                    continue
                c += 1
                yield "step", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, pops="big", eps=0.5, call=call, nodes=kinds[c % 4], parts=pls[(c // 2) % 4], chunk=0, chunks=1)
            for pops in ("unit", "alt"):
                for eps in (0.5, 0.0):
                    for call in ("fn", "class", "reselect", "random", "contraction"):
                        c += 1
                        p = dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, pops=pops, eps=eps, call=call, nodes=kinds[c % 4], parts=pls[(c // 2) % 4])
                        if n in (4, 8) and k == 4 and call not in ("reselect", "fn"):
                            continue
                        if not th and n >= 5 and (c % 3) and call != "reselect":
                            continue
                        for ch in range(4 if n >= 8 else 1):
                            yield "step", dict(p, chunk=ch, chunks=4 if n >= 8 else 1)
            c += 1
            yield "spectral", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, nodes=kinds[c % 4], parts=pls[(c // 2) % 4])
    for e, n in ((gen.path(4), 4), (gen.cycle(4), 4), (gen.path(3), 3), (gen.complete(3), 3), (gen.star(4), 4)):
        for call in ("default", "class"):
            c += 1
            yield "kruskal", dict(edges=[list(x) for x in e], n=n, k=2, a0=[0] * n, nodes=kinds[c % 4], parts="str", call=call)
    for T, eps in ((200, 0.005), (400, 0.005), (1000, 0.001), (10, 0.7), (20, 0.7), (100, 0.05), (50, 0.1), (1000, 0.02), (8, 0.25)):
        yield "limit", dict(T=T, eps=eps)
    for e, n, k in ((gen.path(4), 4, 2), (gen.cycle(4), 4, 2), (gen.path(6), 6, 3)):
        yield "chain", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, nodes="str", parts="mix", T=3)
    for rows, cols, k in ((8, 8, 4), (8, 8, 8), (5, 12, 6), (5, 12, 12), (1, 60, 10)):
        for lay in ("rows", "blocks"):
            for call in ("fn", "class", "reselect", "contraction", "default"):
                c += 1
                yield "large", dict(rows=rows, cols=cols, k=k, lay=lay, call=call, a0=[], nodes=kinds[c % 4], eps=(0.25, 0.5)[c // 4 % 2])


def setup(p, pops="unit"):
    w = hist.World(p)
    pop = [1 + (i % 2 if pops != "unit" else 0) for i in range(w.n)]
    t = Fraction(sum(pop), w.k)
    while t.denominator & (t.denominator - 1):
        pop[-1] += 1
        t = Fraction(sum(pop), w.k)
    if pops == "big":
        pop = [x * 1024 for x in pop]
        t *= 1024
    w.attrs = {"pop": pop, "decoy": [5] * w.n}
    w.eattrs = {"shared_perim": lambda i, j: 1 + i, "weight": lambda i, j: 1.0}
    return w, pop, float(t)


def root(w, a, g):
    return Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)


def snap(part, w):
    g = part.graph
    return ({v: part.assignment[v] for v in w.lab}, {d: frozenset(s) for d, s in part.parts.items()},
            {v: dict(g.nodes[v]) for v in g.nodes}, {frozenset(e): {k: x for k, x in g.edges[e].items() if k != "random_weight"} for e in g.edges},
            frozenset(g.node_indices), frozenset(part["cut_edges"]))


def adjacent(w, a):
    return {frozenset((a[i], a[j])) for i, j in w.edges if a[i] != a[j]}


def judge(ctx, w, pop, part, q, a, target, eps, info, balanced=True):
    ctx.check(q.parent is part, "the new plan is not a child of the starting plan", **info)
    got = {v: q.assignment[v] for v in w.lab}
    ctx.check(set(got.values()) <= set(w.dl), "the new plan uses other labels", got=str(got), **info)
    b = tuple(w.dl.index(got[v]) for v in w.lab)
    ctx.check({d: frozenset(s) for d, s in q.parts.items() if s} == {w.dl[d]: frozenset(w.lab[i] for i in range(w.n) if b[i] == d) for d in set(b)}, "districts of the new plan do not match its assignment", **info)
    ctx.check(set(b) == set(range(w.k)), "a district vanished", result=b, **info)
    t, ep = Fraction(target), Fraction(eps)

    def fine(d):
        ns = [i for i in range(w.n) if b[i] == d]
        return gen.is_connected_set(ns, w.neigh) and abs(sum(pop[i] for i in ns) - t) <= ep * t
    ch = [i for i in range(w.n) if a[i] != b[i]]
    touched = {a[i] for i in ch} | {b[i] for i in ch}
    pairs = [pr for pr in adjacent(w, a) if touched <= pr]
    ctx.check(pairs, "nodes outside one pair of adjacent districts changed", result=b, changed=ch, **info)
    if balanced:
        ctx.check(any(all(fine(d) for d in pr) for pr in pairs), "the re-split districts are not connected and within epsilon of the target", result=b, pop=pop, **info)
    return b


def pick(s):
    return s[ORACLE.uniform(len(s), "n")] if hasattr(s[0], "subset") else s[0]


def case_step(ctx, p, tier):
    w, pop, target = setup(p, p["pops"])
    eps, call = p["eps"], p["call"]
    t, ep = Fraction(target), Fraction(eps)
    g = w.graph()
    plans = list(gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True))
    for a in plans[p["chunk"]::p["chunks"]]:
        part = root(w, a, g)
        before = snap(part, w)
        adj = adjacent(w, a)
        good = [0]

        def run():
            et = EnumTree()
            kw = dict(spanning_tree_fn=et, max_attempts=1)
            if w.n > 4 or w.k > 2:
                kw["choice"] = pick
            if call == "contraction":
                kw["balance_edge_fn"] = find_balanced_edge_cuts_contraction
            if call == "reselect":
                kw["allow_pair_reselection"] = True
            method = partial(bipartition_tree_random if call in ("random", "class") else bipartition_tree, **kw)
            try:
                if call == "class":
                    return ReCom("pop", target, eps, method)(part), et
                if call == "reselect":
                    return recom(part, pop_col="pop", pop_target=target, epsilon=eps, node_repeats=1, method=method), et
                return recom(part, "pop", target, eps, method=method), et
            except FAIL + (MetagraphError,) as e:
                return e, et

        def on(r, pr, ch):
            q, et = r
            info = dict(plan=a, target=target, epsilon=eps, choices=ch[:60])
            ctx.trans()
            for gr, tr in zip(et.graphs, et.drawn):
                ns = {w.idx[v] for v in gr.nodes}
                ctx.check(any(ns == {i for i in range(w.n) if a[i] in pr2} for pr2 in adj), "a set of nodes other than the union of two adjacent districts was merged", merged=sorted(ns), **info)

            def has_cut(tr):
                nodes = {v for e in tr for v in e}
                return any(all(abs(sum(pop[w.idx[v]] for v in s) - t) <= ep * t for s in sides) for sides in tree_sides(tr, nodes).values())
            if isinstance(q, Exception):
                tried = {frozenset(a[w.idx[v]] for v in gr.nodes) for gr in et.graphs}
                ctx.check(all(not has_cut(tr) for tr in et.drawn), "the step failed although a drawn tree had a balanced cut", error=repr(q)[:100], **info)
                if call == "reselect":
                    ctx.check(isinstance(q, MetagraphError), "with pair reselection the step must fail with a metagraph error", error=repr(q)[:100], **info)
                    ctx.check(tried == adj, "the step gave up before every adjacent pair was tried", tried=[sorted(x) for x in tried], **info)
                    ctx.check(len(et.drawn) == len(adj), "a failed pair was tried again", **info)
                else:
                    ctx.check(not isinstance(q, MetagraphError) or len(adj) == 0, "metagraph error without pair reselection", **info)
                ctx.note("steps_that_raised")
            else:
                b = judge(ctx, w, pop, part, q, a, target, eps, info)
                good[0] += 1
                ctx.state(a, b)
                ctx.outcome(b)
        fa = (12 if w.k == 2 else 4 if w.k == 4 else 6 if len(w.edges) <= 5 else 5) if tier == "quick" else (14 if w.k == 2 else 9)
        st = explore(run, on, horizon=4000, fair_after=fa if call == "reselect" else None)
        ctx.absorb(st)
        ctx.trace(st.executions)
        ctx.check(snap(part, w) == before, "the starting plan or its graph was changed", plan=a)
        # a pair all of whose trees can be cut must be found
        feas = False
        for pr2 in adj:
            ns = [i for i in range(w.n) if a[i] in pr2]
            for tr in gen.spanning_trees(w.edges, ns):
                if any(all(abs(sum(pop[i] for i in s) - t) <= ep * t for s in sides) for sides in tree_sides(tr, ns).values()):
                    feas = True
                    break
        ctx.check(bool(good[0]) == feas, "a step can succeed exactly if some adjacent pair can be re-split", plan=a, feasible=feas, successes=good[0])


def case_kruskal(ctx, p, tier):
    w, pop, target = setup(p)
    g = w.graph()
    for a in gen.contiguous_plans(w.edges, w.n, 2, unlabelled=True):
        part = root(w, a, g)
        before = snap(part, w)
        f = (lambda: recom(part, "pop", target, 0.5)) if p["call"] == "default" else (lambda: ReCom("pop", target, 0.5)(part))
        seen = set()

        def on(q, pr, ch):
            ctx.trans()
            b = judge(ctx, w, pop, part, q, a, target, 0.5, dict(plan=a, choices=ch[:60]))
            seen.add(frozenset((frozenset(i for i in range(w.n) if b[i] == 0), frozenset(i for i in range(w.n) if b[i] == 1))))
            ctx.state(a, b)
        st = explore(f, on, horizon=5000, fair_after=14 if tier == "quick" else 20)
        ctx.absorb(st)
        ctx.trace(st.executions)
        ctx.check(snap(part, w) == before, "the starting plan or its graph was changed", plan=a)
        want = {frozenset(s) for tr in gen.spanning_trees(w.edges, range(w.n)) for s in tree_sides(tr, range(w.n)).values() if all(abs(len(x) - target) <= 0.5 * target for x in s)}
        ctx.check(seen == want, "not exactly the balanced re-splits are reached", plan=a, got=[sorted(map(sorted, x)) for x in seen], want=[sorted(map(sorted, x)) for x in want])


def case_large(ctx, p, tier):
    """ReCom steps on larger maps with up to 12 districts (six systematic trees or real Kruskal
    draws, first choices enumerated, then a fair schedule), three steps in a row."""
    R, C, k, eps, call = p["rows"], p["cols"], p["k"], p["eps"], p["call"]
    n = R * C
    w = hist.World(dict(edges=gen.grid(R, C) if R > 1 else gen.path(n), n=n, k=2, a0=[0] * n, nodes=p["nodes"], parts="int"))
    w.k, w.dl = k, ["D%d" % (k - i) if p["lay"] == "rows" else 100 - 7 * i for i in range(k)]
    order = [r * C + (c if r % 2 == 0 else C - 1 - c) for r in range(R) for c in range(C)] if p["lay"] == "rows" else [(r if c % 2 == 0 else R - 1 - r) * C + c for c in range(C) for r in range(R)]
    a = [0] * n
    for j, i in enumerate(order):
        a[i] = j * k // n
    a = tuple(a)
    pop = [1] * n
    while (Fraction(sum(pop), k).denominator & (Fraction(sum(pop), k).denominator - 1)) != 0:
        pop[-1] += 1
    w.attrs = {"pop": pop}
    w.eattrs = {"shared_perim": lambda i, j: 1 + i}
    target = sum(pop) / k
    g = w.graph()
    part0 = Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)
    before = snap(part0, w)
    good = [0]

    def run():
        kw = dict(spanning_tree_fn=StyleTree(), max_attempts=40, choice=pick) if call != "default" else dict(max_attempts=40)
        if call == "contraction":
            kw["balance_edge_fn"] = find_balanced_edge_cuts_contraction
        if call == "reselect":
            kw["allow_pair_reselection"] = True
        method = partial(bipartition_tree_random if call == "class" else bipartition_tree, **kw)
        out, q = [], part0
        try:
            for _ in range(3):
                q = ReCom("pop", target, eps, method)(q) if call == "class" else recom(q, "pop", target, eps, method=method)
                out.append(q)
        except FAIL + (MetagraphError,):
            ctx.note("steps_that_raised")
        return out

    def on(out, pr, ch):
        prev, pa = part0, a
        for q in out:
            ctx.trans()
            pa = judge(ctx, w, pop, prev, q, pa, target, eps, dict(choices=ch[:20], plan=pa, step=out.index(q)))
            ctx.check(all(abs(q["population"][w.dl[d]] - sum(pop[i] for i in range(n) if pa[i] == d)) == 0 for d in range(k)), "populations after the step are wrong", plan=pa)
            prev = q
            good[0] += 1
            ctx.state(pa)
            ctx.outcome(pa)
        ctx.trace()
    ctx.absorb(explore(run, on, horizon=200000, fair_after=2, max_exec=16 if tier == "quick" else 200))
    ctx.check(good[0] > 0, "no step ever succeeded on a map with many balanced re-splits")
    ctx.check(snap(part0, w) == before, "the starting plan or its graph was changed", plan=a)


def case_limit(ctx, p, tier):
    """Populations exactly at the limit: a cut the search found is not refused because of rounding."""
    T, eps = p["T"], p["eps"]
    d = round(T * eps)
    for pop in ([T + d, T - d], [T - d, T + d], [T - 1, T + d, 1 - d + 2 * T - T], [1, T + d - 1, T - d], [T - d - 1, 1, T + d]):
        n = len(pop)
        w = hist.World(dict(edges=gen.path(n), n=n, k=2, a0=[0] * n, nodes="int", parts="int"))
        w.attrs = {"pop": pop}
        g = w.graph()
        for a in gen.contiguous_plans(w.edges, n, 2, unlabelled=True):
            part = root(w, a, g)
            for m in (partial(bipartition_tree, max_attempts=2), partial(bipartition_tree_random, max_attempts=2), partial(bipartition_tree, max_attempts=2, allow_pair_reselection=True)):
                def run():
                    try:
                        return recom(part, "pop", T, eps, method=m)
                    except RuntimeError as e:
                        return e
                    except MetagraphError as e:
                        return e

                def on(q, pr, ch):
                    ctx.trans()
                    if isinstance(q, Exception):
                        ctx.note("steps_that_raised")
                        return
                    b = tuple(w.dl.index(q.assignment[v]) for v in w.lab)
                    ctx.check(all(abs(sum(pop[i] for i in range(n) if b[i] == x) - T) <= d * (1 + 1e-9) for x in (0, 1)), "the re-split districts are not within epsilon of the target", pop=pop, result=b)
                    ctx.state(tuple(pop), b)
                st = explore(run, on, horizon=500)
                ctx.absorb(st)
                ctx.trace(st.executions)


def case_chain(ctx, p, tier):
    """ReCom inside a chain: every state keeps all districts connected and balanced."""
    w, pop, target = setup(p)
    g = w.graph()
    T = p["T"]
    for a in gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True):
        if any(abs(sum(pop[i] for i in range(w.n) if a[i] == d) - target) > 0.5 * target for d in range(w.k)):
            continue

        def run():
            part = root(w, a, g)
            method = partial(bipartition_tree, spanning_tree_fn=EnumTree(), max_attempts=1, choice=pick, allow_pair_reselection=True)
            out = []
            try:
                for s in MarkovChain(partial(recom, pop_col="pop", pop_target=target, epsilon=0.5, method=method), [], always_accept, part, T):
                    out.append((tuple(w.dl.index(s.assignment[v]) for v in w.lab), dict(s["population"])))
            except MetagraphError:
                pass
            return out

        def on(out, pr, ch):
            for i, (b, pops) in enumerate(out):
                ctx.check(set(b) == set(range(w.k)), "a district vanished", states=[x[0] for x in out])
                for d in range(w.k):
                    ns = [x for x in range(w.n) if b[x] == d]
                    ctx.check(gen.is_connected_set(ns, w.neigh) and abs(len(ns) - target) <= 0.5 * target, "a chain state has an unconnected or unbalanced district", states=[x[0] for x in out])
                    ctx.check(pops[w.dl[d]] == len(ns), "populations of a chain state are wrong", states=[x[0] for x in out])
                if i:
                    pa = out[i - 1][0]
                    touched = {pa[x] for x in range(w.n) if pa[x] != b[x]} | {b[x] for x in range(w.n) if pa[x] != b[x]}
                    ctx.check(any(touched <= pr2 for pr2 in adjacent(w, pa)), "a chain step changed more than one pair of adjacent districts", states=[x[0] for x in out])
                ctx.state(b)
            ctx.trans(len(out))
            ctx.trace()
        ctx.absorb(explore(run, on, horizon=6000, fair_after=10 if tier == "quick" else 14))


def case_spectral(ctx, p, tier):
    w, pop, target = setup(p)
    g = w.graph()
    for a in gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True):
        for wt, lap in ((None, "normalized"), ("random", "normalized"), (None, "other"), ("random", "other")):
            part = root(w, a, g)
            before = snap(part, w)

            def on(q, pr, ch):
                b = judge(ctx, w, pop, part, q, a, 1, 1, dict(plan=a, weight_type=wt, lap_type=lap, choices=ch), balanced=False)
                ctx.state(a, b)
                ctx.trans()
            st = explore(lambda: spectral_recom(part, weight_type=wt, lap_type=lap), on, horizon=500)
            ctx.absorb(st)
            ctx.trace(st.executions)
            ctx.check(snap(part, w) == before, "the starting plan or its graph was changed", plan=a)
