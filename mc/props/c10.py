"""C10 Flip proposals move exactly the legal nodes, with the stated probabilities."""
import itertools
from fractions import Fraction
from gerrychain import Partition
from gerrychain.accept import always_accept, cut_edge_accept
from gerrychain.proposals import (propose_chunk_flip, propose_random_flip, slow_reversible_propose,
                                  slow_reversible_propose_bi)
from gerrychain.proposals import proposals as P
from gerrychain.updaters import cut_edges, cut_edges_by_part
from mc.core import gen, hist
from mc.core.explore import explore

ID = "C10"
BOUNDS = {
    "quick": "all connected graphs with <=5 nodes (5 nodes: <=7 edges), all plans with 1-3 districts (n=5: up to relabelling), initial and after one flip (emptied districts and districts without a border included), and 4 disconnected graphs: complete outcome distributions of all six proposals; cut-edge acceptance for every single flip, and for plans with up to 1000 cut edges; outcome distributions on a star, K8, cycle, grid and path with up to 60 nodes",
    "thorough": "all connected graphs with <=5 nodes and 6-node graphs with <=7 edges, 4 districts, the 2x3 and 3x3 grids",
}
ASSUMPTIONS = ["all randomness comes from Python's random module", "district order in the every-district flip is free (any order of the districts is accepted)",
               "plans in which a district became empty are not given to the any-node flip"]


def cases(tier):
    th = tier == "thorough"
    c = 0
    kinds, pls = ["int", "str", "rev", "tup", "neg"], ["int", "str", "mix", "one", "neg"]
    gs = [(e, n) for n in (2, 3, 4, 5) for e in gen.connected(n) if th or n < 5 or len(e) <= 7]
    if th:
        gs += [(e, 6) for e in gen.connected(6) if len(e) <= 7] + [(gen.grid(3, 3), 9)]
    gs.append((gen.grid(2, 3), 6))
    # graphs with islands and several components
    gs += [(((0, 1),), 3), (((0, 1), (2, 3)), 4), (((1, 2), (2, 3)), 4), (((0, 1), (1, 2), (0, 2)), 4)]
    for n in (30, 120, 250, 1001):
        yield "many", dict(n=n)
    for i, gname in enumerate(("star", "K8", "cycle", "grid", "path")):
        for k in (2, 3, 4):
            yield "wide", dict(graph=gname, k=k, nodes=("int", "rev")[(i + k) % 2], parts=pls[(i + k) % 4])
    for e, n in gs:
        for k in (1, 2, 3, 4) if th and n <= 5 else (1, 2, 3):
            if k > n or (n == 9 and k == 3):
                continue
            c += 1
            yield "proposals", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, nodes=kinds[c % 5], parts=pls[(c // 3) % 5])
            yield "accept", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, nodes=kinds[c % 5], parts=pls[(c // 3) % 5])


def add(d, k, p):
    d[k] = d.get(k, Fraction(0)) + p


def m_random(w, a):
    cut = [(i, j) for i, j in w.edges if a[i] != a[j]]
    if not cut:
        return {a: Fraction(1)}
    d = {}
    for i, j in cut:
        add(d, gen.apply(a, ((i, a[j]),)), Fraction(1, 2 * len(cut)))
        add(d, gen.apply(a, ((j, a[i]),)), Fraction(1, 2 * len(cut)))
    return d


def pairs(w, a):
    return sorted({(i, a[j]) for x, y in w.edges for i, j in ((x, y), (y, x)) if a[i] != a[j]})


def m_rev(w, a):
    ps = pairs(w, a)
    d = {}
    for i, t in ps:
        add(d, gen.apply(a, ((i, t),)), Fraction(1, len(ps)))
    return d


def m_bi(w, a):
    ps = pairs(w, a)
    nodes = sorted({i for i, t in ps})
    d = {}
    for i, t in ps:
        add(d, gen.apply(a, ((i, t),)), Fraction(1, len(nodes)) / sum(1 for x, _ in ps if x == i))
    return d


def m_any(w, a):
    d = {}
    for i in range(w.n):
        for t in range(w.k):
            add(d, gen.apply(a, ((i, t),)), Fraction(1, w.n * w.k))
    return d


def m_chunk(w, a):
    cut = [(i, j) for i, j in w.edges if a[i] != a[j]]
    d = {}
    for e in cut:
        for x in e:
            add(d, gen.apply(a, tuple((j, a[x]) for j in w.neigh[x] if a[j] != a[x])), Fraction(1, 2 * len(cut)))
    return d


def m_every(w, a):
    """Distributions for every order of the districts."""
    outs = []
    per = []
    for t in range(w.k):
        cut = [(i, j) for i, j in w.edges if a[i] != a[j] and t in (a[i], a[j])]
        if not cut:
            continue
        per.append([(f, Fraction(1, 2 * len(cut))) for i, j in cut for f in ((i, a[j]), (j, a[i]))])
    for order in itertools.permutations(per):
        d = {}
        for combo in itertools.product(*order):
            p = Fraction(1)
            for _, q in combo:
                p *= q
            add(d, gen.apply(a, tuple(f for f, _ in combo)), p)
        if d not in outs:
            outs.append(d)
    return outs


def observed(ctx, w, part, fn, a, h, same_ok=False):
    dist = {}
    before = {v: part.assignment[v] for v in w.lab}

    def on(q, p, ch):
        b = tuple(w.dl.index(q.assignment[v]) for v in w.lab)
        ctx.check(q is part or q.parent is part, "the proposed plan is not a child of the input plan", plan=a, history=h)
        ctx.check(q is not part or b == a, "the input plan was modified", plan=a, history=h)
        add(dist, b, p)
    st = explore(lambda: fn(part), on, horizon=200)
    ctx.absorb(st)
    ctx.trans(st.executions)
    ctx.eq({v: part.assignment[v] for v in w.lab}, before, "the proposal modified the input plan", plan=a, history=h)
    return dist


def case_proposals(ctx, p, tier):
    w = hist.World(p)
    g = w.graph()

    def judge(part, a, h):
        cut = any(a[i] != a[j] for i, j in w.edges)
        full = len(set(a)) == w.k
        todo = [(propose_random_flip, [m_random(w, a)])]
        if P.flip is not propose_random_flip:
            todo.append((P.flip, [m_random(w, a)]))
        if cut:
            todo += [(slow_reversible_propose, [m_rev(w, a)]), (slow_reversible_propose_bi, [m_bi(w, a)]), (propose_chunk_flip, [m_chunk(w, a)])]
        if full:
            todo.append((P.propose_any_node_flip, [m_any(w, a)]))
        if w.n <= 4 or w.k <= 2 or tier == "thorough" and w.n <= 5:
            todo.append((P.propose_flip_every_district, m_every(w, a)))
        for fn, wants in todo:
            got = observed(ctx, w, part, fn, a, h)
            ctx.check(any(got == d for d in wants), "%s does not have the stated outcome distribution" % fn.__name__, plan=a, history=h,
                      got={str(k): str(v) for k, v in sorted(got.items())}, want={str(k): str(v) for k, v in sorted(wants[0].items())})
            ctx.outcome((a, fn.__name__))
        ctx.state(a)
        ctx.trace()

    def root(a):
        return Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part}, use_default_updaters=False)
    for a in (gen.surjections(w.n, w.k) if w.n <= 4 else gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True)):
        part = root(a)
        judge(part, a, "initial")
        if w.n <= 4 and all(a[i] <= max(a[:i] + (-1,)) + 1 for i in range(w.n)):
            part["cut_edges"], part["cut_edges_by_part"]
            for f in gen.single_flips(w.n, w.k):
                judge(part.flip(w.flips(f)), gen.apply(a, f), (a, f))


def case_many(ctx, p, tier):
    """Hundreds of cut edges: alternating plans of a path, flipped at the ends and in the middle."""
    n = p["n"]
    w = hist.World(dict(edges=gen.path(n), n=n, k=2, a0=[0] * n, nodes="int", parts="mix"))
    g = w.graph()
    for a in (tuple(i % 2 for i in range(n)), tuple(i % 2 for i in range(n - 2)) + (n % 2,) * 2):
        part = Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges}, use_default_updaters=False)
        for i in (0, 1, n // 2, n - 2, n - 1):
            f = ((i, 1 - a[i]),)
            child = part.flip(w.flips(f))
            want = min(Fraction(1), Fraction(len(w.cut(a)), len(w.cut(gen.apply(a, f)))))
            d = {}
            ctx.absorb(explore(lambda: cut_edge_accept(child), lambda r, pr, ch: add(d, bool(r), pr), horizon=50))
            ctx.check(abs(d.get(True, 0) - want) < Fraction(1, 10 ** 12), "acceptance probability is not min(1, parent cut edges / new cut edges)", flip=f, got=str(d.get(True, 0)), want=str(want), cut=len(w.cut(a)))
            ctx.trans()
            ctx.state(n, a, i)
        ctx.trace()


def case_wide(ctx, p, tier):
    """Nodes with many neighbours and plans with many districts and cut edges."""
    e, n = {"star": (gen.star(24), 24), "K8": (gen.complete(8), 8), "cycle": (gen.cycle(24), 24), "grid": (gen.grid(4, 6), 24), "path": (gen.path(60), 60)}[p["graph"]]
    w = hist.World(dict(edges=e, n=n, k=p["k"], a0=[0] * n, nodes=p["nodes"], parts=p["parts"]))
    g = w.graph()
    for a in (tuple(i % w.k for i in range(n)), tuple(i * w.k // n for i in range(n)), tuple((i // 3) % w.k for i in range(n))):
        if len(set(a)) < w.k:
            continue
        part = Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part}, use_default_updaters=False)
        for fn, want in ((propose_random_flip, m_random), (slow_reversible_propose, m_rev), (slow_reversible_propose_bi, m_bi), (propose_chunk_flip, m_chunk), (P.propose_any_node_flip, m_any)):
            got = observed(ctx, w, part, fn, a, "initial")
            ctx.check(got == want(w, a), "%s does not have the stated outcome distribution" % fn.__name__, plan=a, graph=p["graph"])
            ctx.outcome((a, fn.__name__))
        # the same after a flip, and after flipping the node back
        i = n // 2
        child = part
        for b in (gen.apply(a, ((i, (a[i] + 1) % w.k),)), a):
            child = child.flip(w.flips(((i, b[i]),)))
            if len(set(b)) < w.k:
                continue
            for fn, want in ((propose_random_flip, m_random), (slow_reversible_propose, m_rev), (slow_reversible_propose_bi, m_bi), (propose_chunk_flip, m_chunk), (P.propose_any_node_flip, m_any)):
                got = observed(ctx, w, child, fn, b, (a, i))
                ctx.check(got == want(w, b), "%s does not have the stated outcome distribution" % fn.__name__, plan=b, graph=p["graph"], reached_from=a)
        ctx.state(a)
        ctx.trace()


def case_accept(ctx, p, tier):
    w = hist.World(p)
    g = w.graph()
    for a in gen.set_partitions(w.n, w.k):
        part = Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges}, use_default_updaters=False)

        def prob(q, fn):
            d = {}
            st = explore(lambda: fn(q), lambda r, pr, ch: add(d, bool(r), pr), horizon=50)
            ctx.absorb(st)
            return d.get(True, Fraction(0))
        if w.cut(a) or True:
            ctx.check(prob(part, cut_edge_accept) == 1, "an initial plan is not always accepted", plan=a)
        for f in gen.single_flips(w.n, w.k):
            b = gen.apply(a, f)
            for order in (0, 1):
                child = part.flip(w.flips(f))
                if order:
                    child["cut_edges"]
                # no cut edges left is better than any number of them
                want = min(Fraction(1), Fraction(len(w.cut(a)), len(w.cut(b)))) if w.cut(b) else Fraction(1)
                got = prob(child, cut_edge_accept)
                ctx.check(abs(got - want) < Fraction(1, 10 ** 12), "acceptance probability is not min(1, parent cut edges / new cut edges)", plan=a, flip=f, got=str(got), want=str(want))
                ctx.check(prob(child, always_accept) == 1, "always_accept refuses a plan")
                ctx.trans()
            ctx.state(a, b)
            ctx.trace()
