"""C18 Metagraph neighbours are exactly the valid plans one boundary flip away."""
import itertools
from gerrychain import Partition
from gerrychain.constraints import Validator, contiguous, no_vanishing_districts, single_flip_contiguous, within_percent_of_ideal_population
from gerrychain.metagraph import all_cut_edge_flips, all_valid_flips, all_valid_states_one_flip_away, metagraph_degree
from gerrychain.updaters import Tally, cut_edges
from mc.core import gen, hist

ID = "C18"
BOUNDS = {
    "quick": "all connected graphs with 2-5 nodes plus 2x3 grid, C6, star; every plan with 2-3 districts (4 on 4 nodes) incl. non-contiguous ones; constraint sets: none, callable, list, Validator, iterator, contiguity (fast and full), no vanishing districts, population bounds, combinations; plans fresh and reached by a flip; two enumerations interleaved; full reachability search of the metagraph from every contiguous plan; maps with 12-60 nodes and plans with up to hundreds of boundary moves; 20 x 20, 25 x 25 and 2 x 300 grids with alternating districts",
    "thorough": "also 2x4 grid, 3x3 grid (2 districts), reachability on all",
}
ASSUMPTIONS = ["contiguity constraints are applied to contiguous plans only (they look at the districts a flip changes, C08)", "a constraint list's verdict on a plan is taken from an oracle computed on the model plan"]


def cases(tier):
    th = tier == "thorough"
    kinds, pls = ["int", "str", "rev", "tup", "neg", "obj"], ["int", "str", "mix", "one", "neg"]
    c = 0
    gs = [(e, n) for n in (2, 3, 4) for e in gen.connected(n)] + [(e, 5) for e in gen.connected(5)]
    gs += [(gen.grid(2, 3), 6), (gen.cycle(6), 6), (gen.star(6), 6)]
    if th:
        gs += [(gen.grid(2, 4), 8), (gen.grid(3, 3), 9)]
    for e, n, k in ((gen.path(30), 30, 2), (gen.star(30), 30, 3), (gen.grid(5, 6), 30, 5), (gen.cycle(24), 24, 8), (gen.complete(12), 12, 4), (gen.grid(2, 30), 60, 2)):
        c += 1
        yield "wide", dict(edges=[list(x) for x in e], n=n, k=min(k, 4), a0=[0] * n, nodes=kinds[c % 6] if n <= 26 else ("int", "rev")[c % 2], parts=pls[c % 4])
    for m, q, k in ((20, 20, 2), (25, 25, 3), (2, 300, 4)):
        yield "count", dict(m=m, q=q, k=k)
    for e, n in gs:
        for k in (2, 3, 4):
            if k > n or (k == 4 and n != 4) or (k == 3 and n > 8) or (n == 6 and k == 3 and not th and len(e) != 7):
                continue
            c += 1
            p = dict(edges=[list(x) for x in e], n=n, k=k, a0=[0] * n, nodes=kinds[c % 6], parts=pls[(c // 3) % 5])
            yield "plans", dict(p, contiguous_only=n > 5)
            if n <= 8:
                yield "reach", p


POP = [1, 2, 1, 3, 1, 2, 1, 2, 1] * 8


def contig(w, a):
    return all(gen.is_connected_set([i for i in range(w.n) if a[i] == d], w.neigh) for d in set(a))


class Fresh:
    def __init__(self, make):
        self.make = make


def constraint_sets(w, part, a):
    """(name, constraints, oracle on model plans)."""
    ideal = sum(POP[: w.n]) / w.k
    novan = lambda b: len(set(b)) == w.k

    def pops(b, eps):
        return all(ideal * (1 - eps) <= sum(POP[i] for i in range(w.n) if b[i] == d) <= ideal * (1 + eps) for d in range(w.k))
    out = [("none", lambda q: True, lambda b: True), ("empty list", [], lambda b: True),
           ("reject all", lambda q: False, lambda b: False),
           ("list", [no_vanishing_districts], novan),
           ("validator", Validator([no_vanishing_districts]), novan),
           ("iterator", Fresh(lambda: iter([no_vanishing_districts])), novan),
           ("callable node", lambda q: q.assignment[w.lab[0]] == w.dl[a[0]], lambda b: b[0] == a[0]),
           ("pop", [within_percent_of_ideal_population(part, 0.5)], None)]
    # population bounds are taken around the mean of the starting plan's populations (= ideal)
    out[-1] = ("pop", out[-1][1], lambda b: pops(b, 0.5))
    if contig(w, a):          # contiguity constraints judge the changed districts only (see C08)
        out.append(("contiguous", [no_vanishing_districts, contiguous], lambda b: novan(b) and contig(w, b)))
        out.append(("fast contiguity", [no_vanishing_districts, single_flip_contiguous], lambda b: novan(b) and contig(w, b)))
    return out


def root(w, a, g=None):
    return Partition(g or w.graph(), w.assignment(a), updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)


def nbrs(w, a):
    out = {}
    for i in range(w.n):
        for d in {a[j] for j in w.neigh[i]} - {a[i]}:
            out[(i, d)] = gen.apply(a, ((i, d),))
    return out


def read(w, q):
    return tuple(w.dl.index(q.assignment[v]) for v in w.lab)


def close_to_bound(w):
    ideal = sum(POP[: w.n]) / w.k
    return any(abs(x - y) < 1e-9 for x in range(0, 30 if w.n < 10 else 200) for y in (ideal * 0.5, ideal * 1.5))


def check_all(ctx, w, part, a, info):
    nb = nbrs(w, a)
    want = sorted((w.lab[i], w.dl[d]) for i, d in nb)
    fl = list(all_cut_edge_flips(part))
    ctx.check(all(len(f) == 1 for f in fl), "a flip moves more than one node", flips=repr(fl), **info)
    ctx.eq(sorted(next(iter(f.items())) for f in fl), want, "cut-edge flips are not exactly the boundary moves, each once", **info)
    for name, cons, ok in constraint_sets(w, part, a):
        if name == "pop" and close_to_bound(w):
            continue
        ws = sorted(b for b in nb.values() if ok(b))
        mk = cons.make if isinstance(cons, Fresh) else (lambda cons=cons: cons)
        states = list(all_valid_states_one_flip_away(part, mk()))
        ctx.trans(len(nb))
        ctx.eq(sorted(read(w, q) for q in states), ws, "states one flip away are not exactly the valid boundary moves, each once", constraints=name, **info)
        vf = [f for f in all_valid_flips(part, mk())]
        ctx.eq(sorted(tuple(sorted(f.items())) for f in vf), sorted(((w.lab[i], w.dl[d]),) for (i, d), b in nb.items() if ok(b)), "valid flips are not exactly the valid boundary moves, each once", constraints=name, **info)
        ctx.eq(metagraph_degree(part, mk()), len(ws), "metagraph degree is not the number of valid boundary moves", constraints=name, **info)
        # two enumerations of the same plan, interleaved
        g1, g2 = all_valid_states_one_flip_away(part, mk()), all_valid_flips(part, mk())
        s1, s2 = [], []
        for x, y in itertools.zip_longest(g1, g2):
            s1.append(read(w, x) if x is not None else None)
            s2.append(y)
        ctx.eq(sorted(x for x in s1 if x), ws, "interleaved enumerations disturb each other", constraints=name, **info)
        ctx.check(len([y for y in s2 if y]) == len(ws), "interleaved enumerations disturb each other (flips)", constraints=name, **info)
    ctx.check(read(w, part) == a, "enumeration changed the plan", **info)
    ctx.check({tuple(sorted(e)) for e in part["cut_edges"]} == w.cut(a), "enumeration changed the plan's cut edges", **info)
    sums = w.sums(a, POP)
    ctx.check({d: part["population"].get(d, 0) for d in w.dl} == sums, "enumeration changed the plan's population", **info)


def case_plans(ctx, p, tier):
    w = hist.World(p, attrs={"pop": POP[: p["n"]]})
    g = w.graph()
    for a in (gen.contiguous_plans(w.edges, w.n, w.k) if p["contiguous_only"] else gen.surjections(w.n, w.k)):
        if p["contiguous_only"] and a[0] != 0 and w.n > 5:
            continue
        part = root(w, a, g)
        ctx.state(a)
        check_all(ctx, w, part, a, dict(plan=a))
        ctx.trace()
        # the same plan reached by a flip
        i = sum((j + 1) * x for j, x in enumerate(a)) % w.n
        for d in range(w.k):
            b = gen.apply(a, ((i, d),))
            if b != a and len(set(b)) == w.k:
                check_all(ctx, w, root(w, b, g).flip({w.lab[i]: w.dl[a[i]]}), a, dict(plan=a, reached_from=b))
                ctx.trace()
                break


def case_wide(ctx, p, tier):
    """Plans with many boundary moves: stripes, blocks and alternating districts."""
    w = hist.World(p, attrs={"pop": POP[: p["n"]]})
    g = w.graph()
    for a in (tuple(i % w.k for i in range(w.n)), tuple(i * w.k // w.n for i in range(w.n)), tuple((i // 2) % w.k for i in range(w.n)), tuple(min(i, w.k - 1) for i in range(w.n))):
        check_all(ctx, w, root(w, a, g), a, dict(plan=a))
        b = gen.apply(a, ((w.n // 2, (a[w.n // 2] + 1) % w.k),))
        if len(set(b)) == w.k:
            check_all(ctx, w, root(w, b, g).flip({w.lab[w.n // 2]: w.dl[a[w.n // 2]]}), a, dict(plan=a, reached_from=b))
        ctx.state(a)
        ctx.trace()


def case_count(ctx, p, tier):
    """Thousands of boundary moves: alternating districts on big grids."""
    m, q, k = p["m"], p["q"], p["k"]
    for pat in (lambda i, j: (i + j) % k, lambda i, j: (i * 2 + j) % k, lambda i, j: j * k // q, lambda i, j: (i * q + j) % 7 % k):
        a0 = [pat(i, j) for i in range(m) for j in range(q)]
        w = hist.World(dict(edges=gen.grid(m, q), n=m * q, k=k, a0=a0, nodes="rev", parts="mix"), attrs={"pop": [1] * (m * q)})
        part = root(w, tuple(a0))
        moves = [(w.lab[i], w.dl[d]) for i in range(w.n) for d in sorted({a0[j] for j in w.neigh[i]} - {a0[i]})]
        ctx.check(sorted(next(iter(f.items())) for f in all_cut_edge_flips(part)) == sorted(moves), "cut-edge flips are not exactly the boundary moves, each once", want=len(moves))
        allow = {x for i, x in enumerate(sorted(moves)) if i % 3 != 1}

        def ok(s):
            (v, d), = s.flips.items()
            return (v, d) in allow
        ctx.check(sorted(next(iter(f.items())) for f in all_valid_flips(part, ok)) == sorted(allow), "valid flips are not exactly the valid boundary moves, each once", want=len(allow))
        got = []
        for s in all_valid_states_one_flip_away(part, ok):
            (v, d), = s.flips.items()
            ctx.check(s.assignment[v] == d and s.parent is part, "a state one flip away is not the plan with the flip made", flip=(v, d))
            got.append((v, d))
        ctx.check(sorted(got) == sorted(allow), "states one flip away are not exactly the valid boundary moves, each once", want=len(allow), got=len(got))
        ctx.check(metagraph_degree(part, ok) == len(allow), "metagraph degree is not the number of valid boundary moves", want=len(allow))
        ctx.trans(len(moves))
        ctx.state(pat(1, 2), len(moves))
        ctx.trace()


def case_reach(ctx, p, tier):
    """Search the metagraph with the library's own neighbour function; compare with the model's."""
    w = hist.World(p, attrs={"pop": POP[: p["n"]]})
    g = w.graph()
    plans = list(gen.contiguous_plans(w.edges, w.n, w.k))
    starts = plans if len(plans) <= 40 else plans[:: max(1, len(plans) // 12)]
    for a0 in starts:
        want, todo = {a0}, [a0]
        while todo:
            x = todo.pop()
            for b in nbrs(w, x).values():
                if b not in want and len(set(b)) == w.k and contig(w, b):
                    want.add(b)
                    todo.append(b)
        for cons in ([no_vanishing_districts, contiguous], [no_vanishing_districts, single_flip_contiguous]):
            got, todo = {a0}, [root(w, a0, g)]
            while todo:
                x = todo.pop(0)
                for q in all_valid_states_one_flip_away(x, cons):
                    b = read(w, q)
                    ctx.trans()
                    if b not in got:
                        got.add(b)
                        todo.append(q)
            ctx.check(got == want, "the plans reachable through valid flips differ from the model's", start=a0, missing=sorted(want - got)[:3], extra=sorted(got - want)[:3])
            ctx.trace()
        for b in want:
            ctx.state(b)
