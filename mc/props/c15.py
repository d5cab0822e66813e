"""C15 Reversible ReCom has exactly the reversible transition probabilities."""
from fractions import Fraction
import gerrychain.proposals.tree_proposals as tp
import gerrychain.tree as gtree
from gerrychain import Partition
from gerrychain.proposals import reversible_recom
from gerrychain.proposals.tree_proposals import ReversibilityError
from gerrychain.tree import find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization
from gerrychain.updaters import Tally, cut_edges
from mc.core import gen, hist
from mc.core.explore import explore
from mc.core.trees import EnumTree, tree_sides

ID = "C15"
BOUNDS = {
    "quick": "all contiguous plans with 2-3 districts of all connected 3-4-node graphs, C5, P5, P6, C6, 2x3 grid, and with 3-4 districts of six disconnected graphs; 5 and 6 districts on paths, cycles, a star and the 2x4 grid (there every 12th plan); 2 population patterns, 2 tolerances, M = smallest valid bound, larger, and one too small; complete transition distributions over all pairs, trees, roots, cuts and acceptance draws; Wilson's sampler itself on 3- and 4-node graphs up to a measured undecided mass",
    "thorough": "also all 5-node graphs with <=7 edges, 2x4 grid, both cut searches everywhere",
}
ASSUMPTIONS = ["the tree sampler is replaced by an exactly uniform enumerating one (its uniformity is C11), except in the 'wilson' cases", "targets and tolerances are exactly representable in binary", "probabilities compared with tolerance 1e-9"]
TOL = Fraction(1, 10 ** 9)


def cases(tier):
    th = tier == "thorough"
    c = 0
    kinds, pls = ["int", "str", "rev", "tup"], ["int", "str", "mix", "one"]
    gs = [(e, n) for n in (3, 4) for e in gen.connected(n)] + [(gen.path(5), 5), (gen.cycle(5), 5), (gen.path(6), 6), (gen.cycle(6), 6), (gen.grid(2, 3), 6)]
    if th:
        gs += [(e, 5) for e in gen.connected(5) if len(e) <= 7] + [(gen.grid(2, 4), 8)]
    for e, n in gs:
        for k in (2, 3):
            if n == 8 and k == 3:
                continue
            for pops in ("unit", "alt"):
                for eps in (0.5, 0.25):
                    c += 1
                    if not th and n == 6 and k == 3 and len(e) == 7 and pops == "alt":
                        continue
                    for alg in (("mem", "con") if th else ("mem",) if c % 2 else ("con",)):
                        yield "exact", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, pops=pops, eps=eps, alg=alg, nodes=kinds[c % 4], parts=pls[(c // 2) % 4])
    # disconnected graphs: a district that borders no other one still counts in the number of pairs
    for e, n, k in (((0, 1), (1, 2)), 4, 3), (((0, 1), (1, 2), (0, 2)), 4, 3), (((0, 1), (1, 2), (2, 3), (0, 3)), 5, 3), (((1, 2), (2, 3), (3, 4)), 6, 4), (((0, 1), (2, 3)), 4, 3), (((0, 1), (1, 2), (3, 4), (4, 5)), 6, 4):
        for eps in (0.5, 0.25):
            c += 1
            yield "exact", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, pops="unit", eps=eps, alg="mem" if c % 2 else "con", nodes=kinds[c % 4], parts=pls[(c // 2) % 4])
    # more districts
    for e, n, k in ((gen.path(6), 6, 5), (gen.cycle(7), 7, 5), (gen.grid(2, 4), 8, 5), (gen.path(8), 8, 6), (gen.path(7), 7, 5), (gen.cycle(7), 7, 6), (gen.star(7), 7, 6)):
        for pops in ("unit", "alt"):
            c += 1
            yield "exact", dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, pops=pops, eps=(0.5, 0.25)[c % 2], alg="mem" if c % 2 else "con", nodes=kinds[c % 4], parts=pls[(c // 2) % 4], stride=12 if n == 8 and len(e) > 7 and not th else 2 if n == 8 and not th else 1)
    for e, n in ((gen.path(3), 3), (gen.complete(3), 3), (gen.path(4), 4), (gen.cycle(4), 4)):
        c += 1
        yield "wilson", dict(edges=[list(x) for x in e], n=n, k=2, a0=[0] * n, nodes=kinds[c % 4], parts="mix")


def setup(p):
    w = hist.World(p)
    pop = [1 + (i % 2 if p.get("pops") == "alt" else 0) for i in range(w.n)]
    t = Fraction(sum(pop), w.k)
    while t.denominator & (t.denominator - 1):
        pop[-1] += 1
        t = Fraction(sum(pop), w.k)
    w.attrs = {"pop": pop}
    return w, pop, t


def root(w, a, g):
    return Partition(g, w.assignment(a), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)


def unl(a):
    d = {}
    for i, x in enumerate(a):
        d.setdefault(x, set()).add(i)
    return frozenset(frozenset(s) for s in d.values())


def model(w, pop, a, t, ep, M):
    """{unlabelled plan: probability} for moves to a different plan; largest number of balanced cuts."""
    out, most = {}, 0
    for x in range(w.k):
        for y in range(x + 1, w.k):
            if not any({a[i], a[j]} == {x, y} for i, j in w.edges):
                continue
            ns = [i for i in range(w.n) if a[i] in (x, y)]
            sp = gen.count_spanning_trees(w.edges, ns)
            found = {}
            for tr in gen.spanning_trees(w.edges, ns):
                cnt = 0
                for s, o in tree_sides(tr, ns).values():
                    if all(abs(sum(pop[i] for i in z) - t) <= ep * t for z in (s, o)):
                        cnt += 1
                        found[frozenset((s, o))] = (s, o)
                most = max(most, cnt)
            for s, o in found.values():
                b = tuple(x if i in s else y if i in o else a[i] for i in range(w.n))
                if unl(b) != unl(a):
                    pr = Fraction(2, w.k ** 2) * gen.count_spanning_trees(w.edges, s) * gen.count_spanning_trees(w.edges, o) / (sp * M)
                    out[unl(b)] = out.get(unl(b), 0) + pr
    return out, most


class Patched:
    """Replace the uniform tree sampler where the proposal looks it up."""

    def __init__(self):
        self.et = EnumTree()

    def __enter__(self):
        self.old = [(m, m.uniform_spanning_tree) for m in (tp, gtree) if hasattr(m, "uniform_spanning_tree")]
        for m, _ in self.old:
            m.uniform_spanning_tree = self.et
        return self.et

    def __exit__(self, *a):
        for m, f in self.old:
            m.uniform_spanning_tree = f


def read(ctx, w, part, q, a, info):
    b = tuple(w.dl.index(q.assignment[v]) for v in w.lab)
    ctx.check(q is part or q.parent is part, "the result is neither the starting plan nor a child of it", **info)
    ctx.check(q is not part or b == a, "the starting plan was modified", **info)
    ctx.check(set(b) == set(a), "a district vanished", result=b, **info)
    ch = {a[i] for i in range(w.n) if a[i] != b[i]} | {b[i] for i in range(w.n) if a[i] != b[i]}
    ctx.check(len(ch) <= 2, "more than two districts changed", result=b, **info)
    return b


class Hit(Exception):
    pass


def interceptable(part, t, eps):
    """Does the proposal call the replaced sampler?  (If not, only the 'wilson' cases decide.)"""
    def boom(graph, *a, **k):
        raise Hit
    hit = [0]

    def run():
        pa = Patched()
        pa.et = boom
        with pa:
            try:
                reversible_recom(part, "pop", t, eps, M=1000)
            except Hit:
                hit[0] += 1
    explore(run, lambda *a: None, horizon=3000, max_exec=40, fair_after=6)
    return hit[0] > 0


def case_exact(ctx, p, tier):
    w, pop, t = setup(p)
    a = next(gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True), None)
    if a is None:
        return
    if not interceptable(root(w, a, w.graph()), float(t), p["eps"]):
        ctx.note("sampler_not_interceptable")
        ctx.incomplete = "the tree sampler cannot be replaced; only Wilson cases decide"
        return
    ep = Fraction(p["eps"])
    g = w.graph()
    fn = find_balanced_edge_cuts_memoization if p["alg"] == "mem" else find_balanced_edge_cuts_contraction
    for x, a in enumerate(gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True)):
        if x % p.get("stride", 1):
            continue
        part = root(w, a, g)
        _, most = model(w, pop, a, t, ep, 1)
        for M in sorted({max(1, most), most + 2, max(1, most - 1)}):
            want, _ = model(w, pop, a, t, ep, M)
            valid = M >= most
            dist = {}
            used = [0]

            def run():
                with Patched() as et:
                    try:
                        return reversible_recom(part, "pop", float(t), p["eps"], fn, M), et
                    except ReversibilityError as e:
                        return e, et

            def on(r, pr, ch):
                q, et = r
                info = dict(plan=a, M=M, choices=ch)
                ctx.trans()
                used[0] += len(et.drawn)
                cuts = 0
                for tr in et.drawn:
                    nodes = {v for e in tr for v in e}
                    cuts = max(cuts, sum(all(abs(sum(pop[w.idx[v]] for v in z) - t) <= ep * t for z in so) for so in tree_sides(tr, nodes).values()))
                if isinstance(q, ReversibilityError):
                    ctx.check(cuts > M, "a reversibility error although no tree had more balanced cuts than M", cuts=cuts, **info)
                    return
                ctx.check(cuts <= M, "a tree had more balanced cuts than M but no reversibility error was raised", cuts=cuts, **info)
                b = unl(read(ctx, w, part, q, a, info))
                dist[b] = dist.get(b, Fraction(0)) + pr
                ctx.state(b)
            st = explore(run, on, horizon=3000)
            ctx.absorb(st)
            ctx.trace(st.executions)
            if valid:
                for b in set(dist) | set(want):
                    if b == unl(a):
                        continue
                    ctx.check(abs(dist.get(b, 0) - want.get(b, 0)) <= TOL, "transition probability is not (2/k^2) trees(A')trees(B')/(trees(AuB) M)", plan=a, to=[sorted(s) for s in b], M=M,
                              got=float(dist.get(b, 0)), want=float(want.get(b, 0)))
                stay = 1 - sum(want.values())
                ctx.check(abs(dist.get(unl(a), 0) - stay) <= TOL, "the probability of staying put is wrong", plan=a, got=float(dist.get(unl(a), 0)), want=float(stay))
                ctx.outcome((a, M, len(dist)))
        ctx.check(tuple(w.dl.index(part.assignment[v]) for v in w.lab) == a, "the starting plan was modified")


def case_wilson(ctx, p, tier):
    w, pop, t = setup(p)
    ep = Fraction(1, 2)
    g = w.graph()
    for a in gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True):
        part = root(w, a, g)
        _, most = model(w, pop, a, t, ep, 1)
        M = max(1, most)
        want, _ = model(w, pop, a, t, ep, M)
        dist = {}

        def on(q, pr, ch):
            b = unl(read(ctx, w, part, q, a, dict(plan=a, M=M, choices=ch)))
            dist[b] = dist.get(b, Fraction(0)) + pr
            ctx.trans()
            ctx.state(b)
        st = explore(lambda: reversible_recom(part, pop_col="pop", pop_target=float(t), epsilon=0.5, M=M), on, horizon=3000,
                     min_prob=Fraction(1, 2 ** (14 if tier == "quick" else 18)))
        ctx.absorb(st)
        ctx.trace(st.executions)
        eps = 1 - sum(dist.values())
        ctx.check(eps < Fraction(1, 4), "most executions do not finish", undecided=float(eps))
        for b in set(want) | set(dist):
            x = want.get(b, 0) if b != unl(a) else 1 - sum(want.values())
            ctx.check(dist.get(b, 0) <= x + TOL and dist.get(b, 0) + eps >= x - TOL, "transition probability (Wilson sampler) is wrong", plan=a, to=[sorted(s) for s in b], at_least=float(dist.get(b, 0)), undecided=float(eps), want=float(x))
