"""C11 Random trees are always spanning; the uniform one is uniform."""
import itertools
from fractions import Fraction
from functools import lru_cache, partial
import networkx as nx
from gerrychain import Graph, Partition
from gerrychain.graph import FrozenGraph
from gerrychain.tree import random_spanning_tree, uniform_spanning_tree
from gerrychain.updaters import num_spanning_trees
from mc.core import gen, hist
from mc.core.explore import Stats, explore
from mc.core.rng import ORACLE

ID = "C11"
BOUNDS = {
    "quick": "random_spanning_tree: every weight order on every connected graph with <=5 nodes and <=6 edges (720 orders), with the induced distribution over trees; uniform_spanning_tree: every random walk of probability >= the mass bound on every connected graph with <=4 nodes and 5-node graphs with <=6 edges; number of spanning trees: all districts of all plans of all connected graphs with <=5 nodes and 6-node graphs with <=8 edges, initially and after single flips; complete graphs to 30 nodes, grids to 10x10, long cycles, paths, stars and ladders: 12 weight sequences, 16 walks, tree counts; scripted walks of 50 to 3000 steps",
    "thorough": "7 edges (5040 orders); smaller mass bound; all 6-node graphs for the counts",
}
ASSUMPTIONS = ["uniformity is decided up to the total probability of the walks below the mass bound, which is measured and reported", "numbers of spanning trees beyond the range of a float (districts of some 650 units and more) raise OverflowError and are not claimed", "tree counts compared with relative tolerance 1e-9 (1e-7 above 60 nodes)"]


def cases(tier):
    th = tier == "thorough"
    kinds = ["int", "str", "rev", "tup"]
    c = 0
    gs = [(e, n) for n in (1, 2, 3, 4, 5, 6) for e in gen.connected(n)]
    for name, e, n in (("K9", gen.complete(9), 9), ("K16", gen.complete(16), 16), ("grid6", gen.grid(6, 6), 36), ("ladder", gen.grid(2, 20), 40), ("cycle", gen.cycle(30), 30),
                       ("path", gen.path(40), 40), ("star", gen.star(40), 40), ("grid10", gen.grid(10, 10), 100), ("K30", gen.complete(30), 30)):
        c += 1
        yield "big", dict(name=name, edges=[list(x) for x in e], n=n, nodes="rev" if c % 2 else "int")
    for name, e, n in (("path", gen.path(12), 12), ("cycle", gen.cycle(15), 15), ("grid", gen.grid(4, 5), 20), ("K5", gen.complete(5), 5), ("ladder", gen.grid(2, 9), 18), ("star", gen.star(9), 9)):
        for length in (50, 400, 3000) + ((40000,) if th else ()):
            yield "walk", dict(name=name, edges=[list(x) for x in e], n=n, length=length, nodes="str")
    for e, n in gs:
        c += 1
        p = dict(edges=[list(x) for x in e], n=n, nodes=kinds[c % 4], form=c % 3)
        if len(e) <= (7 if th else 6):
            yield "random", dict(p)
        if n <= 4 or n == 5 and len(e) <= (8 if th else 6) or n == 6 and len(e) <= 6 and th:
            yield "uniform", dict(p)
        if n <= 5 or len(e) <= 8 or th:
            for k in (1, 2, 3):
                if k <= n:
                    yield "count", dict(p, k=k, a0=[0] * n)


def make(p):
    """The graph as a Graph, a FrozenGraph, or a subgraph of a larger FrozenGraph."""
    w = hist.World(dict(p, k=2, a0=[0] * p["n"]))
    if p["form"] == 0:
        return w, lambda: w.graph()
    if p["form"] == 1:
        return w, lambda: FrozenGraph(w.graph())

    def sub():
        g = w.graph()
        extra = {"int": 77, "str": "zz", "rev": 7, "tup": (9, 9)}[w.kind]
        g.add_edge(w.lab[0], extra)
        return FrozenGraph(g).subgraph(w.lab)
    return w, sub


def case_big(ctx, p, tier):
    """Larger graphs: spanning trees under many systematic draw sequences, large tree counts."""
    edges, n = tuple(tuple(e) for e in p["edges"]), p["n"]
    w = hist.World(dict(p, k=2, a0=[0] * n))
    g = w.graph()
    m = len(edges)
    for j in range(12):
        script = [((i * (2 * j + 3) + j) % 997 + 0.5) / 997 for i in range(m)]
        if j == 1:
            script = [0.5] * m          # all weights equal
        ORACLE.reset([])
        ORACLE.script = list(script)
        t = random_spanning_tree(g)
        ORACLE.script = []
        spanning(ctx, w, t, ("script", j))
        ctx.trans()
        ctx.state(key(w, t))
    seen = []
    if n <= 70:
        st = explore(lambda: uniform_spanning_tree(g), lambda t, pr, ch: (spanning(ctx, w, t, ch), seen.append(key(w, t))), fair_after=4, horizon=200000, max_exec=16)
        ctx.executions += st.executions
        ctx.trans(len(seen))
    part = Partition(g, {v: w.dl[0] for v in w.lab}, updaters={"trees": num_spanning_trees}, use_default_updaters=False)
    want = gen.count_spanning_trees(edges, range(n))
    got = part["trees"][w.dl[0]]
    ctx.check(abs(got / want - 1) <= (1e-9 if n <= 60 else 1e-7), "wrong number of spanning trees", graph=p["name"], got=got, want=float(want))
    ctx.trace()


def case_walk(ctx, p, tier):
    """Walks of thousands of steps: each step is still offered every neighbour of the node it is at."""
    w = hist.World(dict(p, k=2, a0=[0] * p["n"]))
    g = w.graph()
    hoods = {frozenset(w.lab[j] for j in w.neigh[i]) for i in range(w.n)}
    for style in ("first", "last", "turn", "lcg"):
        for skip in (0, 1, 5):
            n, lcg = [0], [skip + 1]

            def pick(options):
                opts = list(options)
                n[0] += 1
                i = n[0]
                so = frozenset(opts)
                if so < frozenset(w.lab):
                    ctx.check(so in hoods and len(opts) == len(so), "a step of the walk is not offered every neighbour of its node once", options=sorted(map(repr, so)), step=i, style=style)
                ctx.trans()
                lcg[0] = (lcg[0] * 6364136223846793005 + 1442695040888963407) % 2 ** 64
                x = lcg[0] >> 33
                if style == "lcg" or i <= skip or i > p["length"]:
                    return opts[x % len(opts)]
                return sorted(opts)[0 if style == "first" or style == "turn" and i % 7 < 4 else -1]
            t = uniform_spanning_tree(g, choice=pick)
            spanning(ctx, w, t, ("scripted walk", style, p["length"]))
            ctx.state(style, skip, n[0])
    ctx.trace()


def key(w, t):
    return frozenset(frozenset((w.idx[a], w.idx[b])) for a, b in t.edges)


def spanning(ctx, w, t, choices):
    es = list(t.edges)
    ctx.check(set(t.nodes) == set(w.lab), "the tree does not contain exactly the nodes of the graph", nodes=list(t.nodes), choices=choices)
    ge = {frozenset(e) for e in w.edges}
    for a, b in es:
        ctx.check(frozenset((w.idx[a], w.idx[b])) in ge, "the tree has an edge the graph does not have", edge=(a, b), choices=choices)
    ctx.check(len(es) == w.n - 1 and gen.is_connected_set(range(w.n), gen.adj([(w.idx[a], w.idx[b]) for a, b in es], w.n)),
              "the result is not a spanning tree", edges=es, choices=choices)


@lru_cache(None)
def mst_distribution(edges, n):
    """Distribution over minimum trees when all orders of the edges are equally likely."""
    d = {}
    tot = 0
    for order in itertools.permutations(edges):
        comp = list(range(n))
        t = []
        for a, b in order:
            if comp[a] != comp[b]:
                x, y = comp[a], comp[b]
                comp = [x if c == y else c for c in comp]
                t.append(frozenset((a, b)))
        k = frozenset(t)
        d[k] = d.get(k, 0) + 1
        tot += 1
    return {k: Fraction(v, tot) for k, v in d.items()}


def order_probability():
    """Probability of the order constraints of the execution just finished (order draws only)."""
    vs = sorted(ORACLE.coupled)
    ix = {v: i for i, v in enumerate(vs)}
    m = len(vs)
    less = [0] * m                  # bitmask of predecessors
    for (a, b) in ORACLE.rel:
        less[ix[b]] |= 1 << ix[a]
    cnt = {0: 1}
    for s in range(1, 1 << m):
        c = 0
        for i in range(m):
            if s >> i & 1 and not (less[i] & ~(s ^ (1 << i))) and not any(s >> j & 1 and less[j] >> i & 1 for j in range(m)):
                c += cnt[s ^ (1 << i)]
        cnt[s] = c
    tot = 1
    for i in range(1, m + 1):
        tot *= i
    return Fraction(cnt[(1 << m) - 1], tot)


def case_random(ctx, p, tier):
    w, mk = make(p)
    g = mk()
    g = getattr(g, "graph") if isinstance(g, FrozenGraph) else g      # as ReCom passes it
    dist = {}
    attrs = {v: dict(g.nodes[v]) for v in g.nodes}
    exact = [True]

    def on(t, pr, ch):
        spanning(ctx, w, t, ch)
        if pr is None:
            if any(tag != "o" for _, _, tag in ORACLE.trace) or not ORACLE.pure:
                exact[0] = False
            pr = order_probability()
        k = key(w, t)
        dist[k] = dist.get(k, Fraction(0)) + pr
        ctx.state(k)
        ctx.trans()
        ctx.trace()
    st = explore(lambda: random_spanning_tree(g), on, horizon=500)
    ctx.absorb(st)
    want = mst_distribution(w.edges, w.n)
    ctx.check(set(dist) == set(want), "some spanning tree can never be drawn", drawn=len(dist), exist=len(want))
    if exact[0] and not st.concretized:
        ctx.check(dist == want, "the tree is not the minimum tree of independent equally distributed weights",
                  got={str(sorted(map(sorted, k))): str(v) for k, v in dist.items()}, want={str(sorted(map(sorted, k))): str(v) for k, v in want.items()})
    else:
        ctx.note("distribution_not_exact")
    ctx.check({v: dict(g.nodes[v]) for v in g.nodes} == attrs and {frozenset((w.idx[a], w.idx[b])) for a, b in g.edges} == {frozenset(e) for e in w.edges}, "drawing a tree changed the graph")


def case_uniform(ctx, p, tier):
    w, mk = make(p)
    g = mk()
    T = gen.count_spanning_trees(w.edges, range(w.n))
    ntree = len(w.edges) - (w.n - 1)
    lim = 60000 if tier == "quick" else 1500000
    mp = Fraction(1, 64)
    # the smallest mass bound whose exploration stays within the execution limit
    best = None
    while True:
        dist = {}
        st = Stats()

        def on(t, pr, ch):
            spanning(ctx, w, t, ch)
            k = key(w, t)
            dist[k] = dist.get(k, Fraction(0)) + pr
        explore(lambda: uniform_spanning_tree(g), on, horizon=2000, min_prob=mp, max_exec=lim, stats=st)
        if st.capped:
            break
        best = (dist, st)
        if (st.executions + st.pruned) * 9 > lim or st.pruned_mass == 0 or st.pruned_mass < Fraction(1, 5000):
            break
        mp /= 8
    dist, st = best
    st.capped = False
    ctx.absorb(st)
    ctx.trans(st.executions)
    ctx.trace(st.executions)
    eps = 1 - sum(dist.values())
    ctx.check(eps >= 0 and abs(eps - st.pruned_mass) < Fraction(1, 10 ** 9), "probabilities do not add up", eps=str(eps), pruned=str(st.pruned_mass))
    ctx.check(eps < Fraction(1, 2), "most random walks do not end in a tree", eps=float(eps))
    want = Fraction(1, T)
    for t in gen.spanning_trees(w.edges, range(w.n)):
        k = frozenset(map(frozenset, t))
        got = dist.get(k, Fraction(0))
        ctx.check(got <= want, "a spanning tree is drawn with probability above 1/number of trees", tree=t, at_least=float(got), uniform=float(want), undecided_mass=float(eps))
        ctx.check(got + eps >= want, "a spanning tree is drawn with probability below 1/number of trees", tree=t, at_most=float(got + eps), uniform=float(want))
        ctx.state(k)
    ctx.check(len(dist) <= T, "trees that do not exist were drawn")
    ctx.note("uniform_graphs")
    ctx.note("uniform_undecided_mass_ppm_total", int(eps * 10 ** 6))
    ctx.sample(dict(graph=w.edges, trees=T, undecided_mass=float(eps), mass_bound=float(mp), walks=st.executions))


def case_count(ctx, p, tier):
    w = hist.World(dict(p, parts="str"))
    # irrelevant attributes that must not influence the count
    w.eattrs = {"weight": lambda i, j: 2.5 + i, "shared_perim": lambda i, j: 3} if p["form"] == 1 else {}
    g = w.graph()

    def judge(part, a, h):
        got = part["trees"]
        ctx.check(set(got) == {w.dl[d] for d in range(w.k)}, "a district is missing", history=h)
        for d in range(w.k):
            ns = [i for i in range(w.n) if a[i] == d]
            want = gen.count_spanning_trees(w.edges, ns)
            ctx.check(abs(got[w.dl[d]] - want) <= 1e-9 * (1 + want), "wrong number of spanning trees", plan=a, district=d, got=got[w.dl[d]], want=want, history=h)
        ctx.state(a)
        ctx.trace()
    for a in gen.set_partitions(w.n, w.k):
        part = Partition(g, w.assignment(a), updaters={"trees": num_spanning_trees}, use_default_updaters=False)
        judge(part, a, "initial")
        if w.n <= 4 or (w.n == 5 and tier == "thorough"):
            for f in gen.single_flips(w.n, w.k):
                b = gen.apply(a, f)
                if len(set(b)) == w.k:
                    judge(part.flip(w.flips(f)), b, (a, f))
                    ctx.trans()
