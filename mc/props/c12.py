"""C12 The balanced-cut search finds exactly the balanced cuts of a tree."""
import itertools
from fractions import Fraction
from gerrychain.tree import PopulatedGraph, find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization
from mc.core import gen
from mc.core.explore import explore
from mc.core.rng import ORACLE

ID = "C12"
BOUNDS = {
    "quick": "all trees with 2-5 nodes and populations in {0,1,2,3} (n=5: {0,1,2}), 6 nodes with {1,2}, 2-4 nodes with {-1, 0.5, 2, 3} (noise-added data), x 8 (target, tolerance) pairs x one-/two-sided x both algorithms x every root; paths, stars, binary trees, caterpillars and brooms with 40, 130 and 700 nodes with three population patterns and three roots",
    "thorough": "all trees with <=5 nodes with {0,1,2,3}, 6 nodes with {0,1,2}, 7 and 8 nodes with {1,2}",
}
ASSUMPTIONS = ["targets and tolerances are exactly representable in binary", "the contraction algorithm's one-sided mode need not report edges whose balanced side contains the root"]


def cases(tier):
    th = tier == "thorough"
    for shape in ("path", "star", "binary", "cat", "broom"):
        for n in (40, 130, 700) + ((3000,) if th else ()):
            yield "big", dict(shape=shape, n=n, nodes=("int", "rev", "str")[n % 3])
    c = 0
    for n, vals in ([(2, (0, 1, 2, 3)), (3, (0, 1, 2, 3)), (4, (0, 1, 2, 3)), (5, (0, 1, 2, 3) if th else (0, 1, 2)), (6, (0, 1, 2) if th else (1, 2))] + ([(7, (1, 2)), (8, (1, 2))] if th else [])
                    + [(n, [-1, 0.5, 2, 3]) for n in ((2, 3, 4, 5) if th else (2, 3, 4))]):      # noisy populations: negative, fractional
        for e in gen.trees(n) if not isinstance(vals, list) else gen.trees(n)[:: 1 if n < 5 else 3]:
            for alg in ("contraction", "memoization"):
                for one in (False, True):
                    for first in itertools.product(vals, repeat=2 if len(vals) ** n > 500 else 0):
                        c += 1
                        yield "tree", dict(edges=[list(x) for x in e], n=n, vals=list(vals), alg=alg, one=one, first=list(first), nodes=["int", "str", "rev", "tup"][c % 4], weighted=bool(c & 1))


def big_tree(shape, n):
    if shape == "path":
        return gen.path(n)
    if shape == "star":
        return tuple((0, i) for i in range(1, n))
    if shape == "binary":
        return tuple(((i - 1) // 2, i) for i in range(1, n))
    if shape == "cat":
        return tuple((i - 1 if i % 2 else i - 2, i) for i in range(1, n))
    return tuple((i - 1 if i < n // 2 else n // 2 - 1, i) for i in range(1, n))          # broom


def case_big(ctx, p, tier):
    """Large trees: several roots, all tolerances; the reference sums each subtree once."""
    n, edges = p["n"], big_tree(p["shape"], p["n"])
    lab = gen.labels(p["nodes"], n) if p["nodes"] != "str" else ["v%04d" % ((i * 7) % n) if n % 7 else "v%04d" % i for i in range(n)]
    import networkx as nx
    g = nx.Graph()
    g.add_nodes_from(lab)
    g.add_edges_from((lab[a], lab[b]) for a, b in edges)
    par = {b: a for a, b in edges}          # rooted at node 0: parents come first
    for pat in ((1,), (0, 3, 1), (5, 0, 0, 1, 2)):
        pop = [pat[i % len(pat)] for i in range(n)]
        sub = list(pop)
        nodes = [{i} for i in range(n)]
        for i in range(n - 1, 0, -1):
            sub[par[i]] += sub[i]
        down = [None] * n
        tot = sub[0]
        pops = {lab[i]: pop[i] for i in range(n)}
        for target, eps in ((tot / 2, 0.125), (tot / 2, 0.0), (tot / 2, 0.9375), (tot / 16, 0.5), (tot / 4, 1.0)):
            t, ep = Fraction(target), Fraction(eps)
            ok = lambda x: abs(x - t) <= ep * t
            for one in (False, True):
                must = {i for i in range(1, n) if (ok(sub[i]) and ok(tot - sub[i])) or one and (ok(sub[i]) or ok(tot - sub[i]))}
                for alg, fn in (("contraction", find_balanced_edge_cuts_contraction), ("memoization", find_balanced_edge_cuts_memoization)):
                    for at in (0, -1, n // 3):
                        ORACLE.reset((), None, 10 ** 9)
                        cuts = fn(PopulatedGraph(g, pops, target, eps), one_sided_cut=one, choice=lambda xs: list(xs)[at % len(xs)])
                        info = dict(shape=p["shape"], n=n, populations=pat, target=target, epsilon=eps, one_sided=one, algorithm=alg, root=at)
                        seen = []
                        for c in cuts:
                            a, b = lab_index(lab, c.edge)
                            ctx.check(par.get(b) == a or par.get(a) == b, "a reported cut is not an edge of the tree", **info)
                            v = b if par.get(b) == a else a
                            seen.append(v)
                            size = sum(pops[x] for x in c.subset)
                            ctx.check(len(c.subset) > 0 and (lab[v] in c.subset) != (lab[par[v]] in c.subset), "the reported side is not a component of the tree without the cut edge", **info)
                            ctx.check(size == (sub[v] if lab[v] in c.subset else tot - sub[v]), "the reported side is not a component of the tree without the cut edge", **info)
                            ctx.check(ok(size) and (one or ok(tot - size)), "a reported side is not within tolerance", **info)
                        if len(seen) <= 40 or n <= 200:
                            if down[0] is None:
                                down = [{i} for i in range(n)]
                                for i in range(n - 1, 0, -1):
                                    down[par[i]] |= down[i]
                            for c, v in zip(cuts, seen):
                                s = frozenset(lab[x] for x in down[v])
                                ctx.check(frozenset(c.subset) == s or frozenset(c.subset) == frozenset(lab) - s, "the reported side is not a component of the tree without the cut edge", **info)
                        ctx.check(len(seen) == len(set(seen)), "a cut edge is reported twice", **info)
                        if not one or alg == "memoization":
                            ctx.check(set(seen) == must, "not exactly the balanced edges are reported", got=len(set(seen)), want=len(must), **info)
                        else:
                            ctx.check(set(seen) <= must, "an edge that is not balanced is reported", **info)
                        ctx.trans()
                ctx.state(p["shape"], n, pat, target, eps, one)
        ctx.trace()


def lab_index(lab, edge, memo={}):
    key = id(lab)
    if memo.get("key") != key:
        memo.clear()
        memo.update(key=key, keep=lab, ix={x: i for i, x in enumerate(lab)})
    return memo["ix"][edge[0]], memo["ix"][edge[1]]


def settings(tot):
    return [(tot / 2, 0.0), (tot / 2, 0.25), (tot / 2, 0.5), (tot / 4, 0.5), (tot / 2, 1.0), (2, 0.5), (1, 0.0), (3.0, 0.125)]


def case_tree(ctx, p, tier):
    edges, n = tuple(tuple(x) for x in p["edges"]), p["n"]
    fn = find_balanced_edge_cuts_contraction if p["alg"] == "contraction" else find_balanced_edge_cuts_memoization
    one = p["one"]
    lab = gen.labels(p["nodes"], n)
    g = gen.build(edges, n, p["nodes"], None, {"random_weight": lambda i, j: (7 * i + 3 * j) % 5 / 8} if p["weighted"] else {})
    ng = gen.adj(edges, n)
    idx = {l: i for i, l in enumerate(lab)}
    sides = {}
    for (a, b) in edges:
        rest = [set(x) for x in ng]
        rest[a].discard(b)
        rest[b].discard(a)
        comps = gen.components(range(n), rest)
        sides[frozenset((a, b))] = comps
    before_edges = {frozenset(x) for x in g.edges}
    before_attr = {frozenset(x): dict(g.edges[x]) for x in g.edges}
    for rest in itertools.product(p["vals"], repeat=n - len(p["first"])):
        pop = tuple(p["first"]) + rest
        tot = sum(pop)
        if tot <= 0:
            continue
        pops = {lab[i]: pop[i] for i in range(n)}
        for target, eps in settings(tot):
            t, ep = Fraction(target), Fraction(eps)

            def ok(side):
                return abs(sum(pop[i] for i in side) - t) <= ep * t
            must = set()
            for e, (s1, s2) in sides.items():
                if ok(s1) and ok(s2) or one and (ok(s1) or ok(s2)):
                    must.add(e)
            cnt = [0]

            def run():
                return fn(PopulatedGraph(g, pops, target, eps), one_sided_cut=one) if one else fn(PopulatedGraph(g, pops, target, eps))

            def on(cuts, pr, ch):
                info = dict(pop=pop, target=target, epsilon=eps, choices=ch, cuts=[(str(c.edge), str(sorted(map(str, c.subset)))) for c in cuts])
                seen = []
                for c in cuts:
                    e = frozenset(idx[x] for x in c.edge)
                    ctx.check(e in sides, "a reported cut is not an edge of the tree", **info)
                    s = frozenset(idx[x] for x in c.subset)
                    ctx.check(s in sides[e], "the reported side is not a component of the tree without the cut edge", **info)
                    ctx.check(ok(s), "the reported side is not within tolerance of the target", **info)
                    if not one:
                        ctx.check(ok(frozenset(range(n)) - s), "the other side is not within tolerance of the target", **info)
                    if p["weighted"]:
                        ctx.check(c.weight == g.edges[c.edge]["random_weight"], "the reported weight is not the edge's weight", **info)
                    else:
                        ctx.check(c.weight is not None and 0 <= float(c.weight) <= 1, "a cut without a weight", **info)
                    seen.append(e)
                ctx.check(len(seen) == len(set(seen)), "a cut edge is reported twice", **info)
                if not one or p["alg"] == "memoization":
                    ctx.check(set(seen) == must, "not exactly the balanced edges are reported", want=[sorted(e) for e in must], **info)
                else:
                    ctx.check(set(seen) <= must, "an edge that is not balanced is reported", **info)
                cnt[0] += 1
            st = explore(run, on, horizon=300)
            ctx.absorb(st)
            ctx.trans(cnt[0])
            ctx.check(pops == {lab[i]: pop[i] for i in range(n)}, "the populations were changed", pop=pop)
            ctx.state(edges, pop, target, eps)
            ctx.trace()
            ctx.outcome(len(must))
    ctx.check({frozenset(x) for x in g.edges} == before_edges and {frozenset(x): dict(g.edges[x]) for x in g.edges} == before_attr and set(g.nodes) == set(lab), "the tree was changed")
