"""C08 Contiguity checks decide connectivity exactly."""
import copy
from gerrychain import GeographicPartition, Partition
from gerrychain.constraints import (SelfConfiguringLowerBound, contiguous, contiguous_bfs, no_more_discontiguous,
                                    single_flip_contiguous)
from gerrychain.constraints.contiguity import contiguous_components, number_of_contiguous_parts
from gerrychain.updaters import cut_edges
from mc.core import gen, hist
from mc.core.explore import explore

ID = "C08"
BOUNDS = {
    "quick": "all connected graphs with <=5 nodes (n=6 with <=7 edges), all plans with 2-3 districts: initial plans; from every contiguous plan every single flip and every flip of <=2 (n<=4: any number of) nodes; every single boundary move with every choice of starting neighbour, also on all contiguous 2-district plans of the 3x3 grid; two-step histories with and without dropped parents; all pairs of plans for the no-more-discontiguous rule (n<=4); cycles up to 45, paths up to 60 and grids up to 7x7 with arcs, combs and winding districts: every single move, blocks of nodes, and one long history; rings of 5 to 1200 nodes, whole and with a gap, with and without tails: one node moved; hubs with up to 45 neighbours; hubs with 4-8 neighbours, every pattern of links on the ring around them",
    "thorough": "all connected graphs with <=6 nodes, 2-4 districts, flips of <=3 nodes, three-step histories, 3x3 and 2x4 grids with 2-3 districts",
}
ASSUMPTIONS = ["plans in which a district became empty are outside the general checks' domain (networkx refuses the empty graph); for the single-flip check they are inside",
               "moves to a district not adjacent to the node and no-op moves are outside the single-flip check's domain"]
CHECKS = (contiguous, contiguous_bfs)


def cases(tier):
    th = tier == "thorough"
    c = 0
    kinds, pls = ["int", "str", "rev", "tup"], ["int", "str", "mix", "one"]

    def mk(e, n, k, **x):
        nonlocal c
        c += 1
        return dict(edges=[list(y) for y in e], n=n, k=k, a0=[0] * n, nodes=kinds[c % 4], parts=pls[(c // 2) % 4], **x)
    for n in (2, 3, 4, 5, 6):
        for e in gen.connected(n):
            if n == 6 and not th and len(e) > 7:
                continue
            for k in (2, 3, 4) if th else (2, 3):
                if k > n:
                    continue
                yield "initial", mk(e, n, k)
                yield "flips", mk(e, n, k, size=n if n <= 4 else (1 if n == 6 else 2) + th)
                yield "single", mk(e, n, k)
            if n <= 4 or th and n == 5:
                yield "history", mk(e, n, 2, depth=2 + th)
                if n >= 3:
                    yield "history", mk(e, n, 3, depth=2)
            if n <= 4:
                for k in (2, 3):
                    if k <= n:
                        yield "nomore", mk(e, n, k)
    for m, q in ([(3, 3), (2, 4)] if th else [(3, 3)]):
        for k in ((2, 3) if th else (2,)):
            for chunk in range(8):
                yield "single", mk(gen.grid(m, q), m * q, k, chunk=chunk, chunks=8)
    yield "flips", mk(gen.cycle(6), 6, 2, size=2)
    for n in (12, 45) + ((90,) if th else ()):
        yield "long", mk(gen.cycle(n), n, 2, start="arc")
        yield "long", mk(gen.cycle(n), n, 3, start="arc")
    for n in (12, 60):
        yield "long", mk(gen.path(n), n, 3, start="arc")
    for m, q in ((2, 20), (3, 15), (7, 7)) + (((2, 50), (9, 9)) if th else ()):
        yield "long", mk(gen.grid(m, q), m * q, 2, start="comb", dims=[m, q])
        yield "long", mk(gen.grid(m, q), m * q, 2, start="snake", dims=[m, q])
        yield "long", mk(gen.grid(m, q), m * q, 3, start="rows", dims=[m, q])
    yield "flips", mk(gen.grid(2, 3), 6, 2, size=3)
    for q in (10, 14, 25, 45) + ((110,) if th else ()):
        yield "bighub", mk([], q + 2, 2, q=q)
    for n in (5, 30, 75, 140, 300, 1200) + ((5000,) if th else ()):
        yield "detour", mk([], n, 2)
    for q in (4, 5, 6, 7, 8) + ((9, 10) if th else ()):
        yield "hub", mk([], q + 2, 2, q=q)


def world(p):
    return hist.World(p)


def root(w, a, g=None):
    return Partition(g or w.graph(), w.assignment(a), updaters={"cut_edges": cut_edges}, use_default_updaters=False)


def truth(w, a):
    return all(gen.is_connected_set([i for i in range(w.n) if a[i] == d], w.neigh) for d in range(w.k))


def general(ctx, w, part, a, h):
    want = truth(w, a)
    for f in CHECKS:
        got = f(part)
        ctx.check(got == want, "%s says %s for a plan whose districts are %s" % (f.__name__, got, "connected" if want else "not all connected"), plan=a, history=h)
    return want


def listing(ctx, w, part, a, h):
    comps = contiguous_components(part)
    want = {w.dl[d]: sorted(sorted(map(repr, (w.lab[i] for i in c))) for c in gen.components([i for i in range(w.n) if a[i] == d], w.neigh)) for d in range(w.k)}
    got = {d: sorted(sorted(map(repr, s.nodes)) for s in l) for d, l in comps.items()}
    ctx.eq(got, want, "listed components are not the connected components of the districts", plan=a, history=h)
    for d, l in comps.items():
        for s in l:
            ctx.eq({frozenset(x) for x in s.edges}, {frozenset((w.lab[i], w.lab[j])) for i, j in w.edges if w.lab[i] in s.nodes and w.lab[j] in s.nodes},
                   "a listed component is not the induced subgraph", plan=a)
    ctx.eq(number_of_contiguous_parts(part), sum(len(v) == 1 for v in want.values()), "wrong number of contiguous districts", plan=a, history=h)


def case_initial(ctx, p, tier):
    w = world(p)
    g = w.graph()
    for a in gen.surjections(w.n, w.k) if w.n <= 4 else gen.set_partitions(w.n, w.k):
        part = root(w, a, g)
        want = general(ctx, w, part, a, "initial")
        st = explore(lambda: single_flip_contiguous(part), lambda r, pr, ch: ctx.eq(r, want, "single_flip_contiguous is wrong on an initial plan", plan=a))
        ctx.absorb(st)
        listing(ctx, w, part, a, "initial")
        ctx.state(a)
        ctx.trace()


def nonempty(a, k):
    return len(set(a)) == k


def case_flips(ctx, p, tier):
    w = world(p)
    g = w.graph()
    for a in gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True):
        part = root(w, a, g)
        for f in gen.all_flips(range(w.n), w.k, p["size"]):
            b = gen.apply(a, f)
            if not nonempty(b, w.k):
                continue
            child = part.flip(w.flips(f))
            ctx.trans()
            general(ctx, w, child, b, (a, f))
            listing(ctx, w, child, b, (a, f))
            child2 = part.flip(w.flips(f))
            child2.parent = None
            general(ctx, w, child2, b, (a, f, "parent dropped"))
            if len(f) <= 1 and a[f[0][0] if f else 0] == b[f[0][0] if f else 0]:
                ctx.note("no_op_flips")
            ctx.state(a, b)
            ctx.trace()


def case_single(ctx, p, tier):
    w = world(p)
    g = w.graph()
    for x, a in enumerate(gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True)):
        if x % p.get("chunks", 1) != p.get("chunk", 0):
            continue
        part = root(w, a, g)
        for i in range(w.n):
            for d in sorted({a[j] for j in w.neigh[i]} - {a[i]}):
                b = gen.apply(a, ((i, d),))
                want = truth(w, b)      # an emptied district counts as not connected
                child = part.flip(w.flips(((i, d),)))
                seen = []
                st = explore(lambda: single_flip_contiguous(child),
                             lambda r, pr, ch: (seen.append(r), ctx.check(bool(r) == want, "single_flip_contiguous says %s, the truth is %s" % (r, want), plan=a, move=(i, d), start_choice=ch)))
                ctx.absorb(st)
                ctx.trans(len(seen))
                ctx.state(b)
                ctx.trace()
        ctx.outcome(a)


def long_plan(p):
    n, k, st = p["n"], p["k"], p["start"]
    if st == "arc":
        return tuple(i * k // n for i in range(n))
    m, q = p["dims"]
    if st == "rows":
        return tuple((i % q) * k // q for i in range(n))
    if st == "comb":          # a spine (last row) with teeth on every other column against the first row's comb
        return tuple(1 if i // q == m - 1 or (i // q > 0 and (i % q) % 2) else 0 for i in range(n))
    # snake: a winding corridor of district 1 through district 0 (the corridor and its bank are both connected)
    return tuple(1 if i // q == 0 or (i % q) % 2 == 0 and i // q < m - 1 else 0 for i in range(n))


def case_long(ctx, p, tier):
    """Larger maps: every single move of a boundary node (every start neighbour), every pair of such
    moves at a stride, histories that go all the way round."""
    w = world(p)
    a = long_plan(p)
    g = w.graph()
    part = root(w, a, g)
    ctx.check(general(ctx, w, part, a, "initial"), "start plan of the harness is not contiguous")
    listing(ctx, w, part, a, "initial")
    moves = [(i, d) for i in range(w.n) for d in sorted({a[j] for j in w.neigh[i]} - {a[i]})]
    for i, d in moves:
        b = gen.apply(a, ((i, d),))
        want = truth(w, b)
        child = part.flip(w.flips(((i, d),)))
        ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.check(bool(r) == want, "single_flip_contiguous says %s, the truth is %s" % (r, want), plan=a, move=(i, d), start_choice=ch)))
        if nonempty(b, w.k):
            general(ctx, w, child, b, (a, (i, d)))
        ctx.trans()
        ctx.state(b)
    # any single node to any district, and blocks of nodes
    flips = [((i, d),) for i in range(w.n) for d in range(w.k) if a[i] != d]
    flips += [tuple((j, d) for j in range(i, min(w.n, i + size))) for size in (2, 3, w.n // 4) for i in range(0, w.n, max(1, size // 2)) for d in range(w.k)]
    for f in flips:
        b = gen.apply(a, f)
        if nonempty(b, w.k):
            child = part.flip(w.flips(f))
            general(ctx, w, child, b, (a, f))
            listing(ctx, w, child, b, (a, f))
            child.parent = None
            general(ctx, w, child, b, (a, f, "parent dropped"))
            ctx.trans()
            ctx.state(b)
    # one long history: the first admissible boundary move in rotating node order, many times
    cur, b, at = part, a, 0
    for step in range(3 * w.n):
        for x in range(w.n):
            i = (at + x) % w.n
            ds = sorted({b[j] for j in w.neigh[i]} - {b[i]})
            if ds and nonempty(gen.apply(b, ((i, ds[0]),)), w.k):
                break
        else:
            break
        at = i + 5
        c = gen.apply(b, ((i, ds[0]),))
        child = cur.flip(w.flips(((i, ds[0]),)))
        want = truth(w, c)
        general(ctx, w, child, c, ("step", step))
        ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.check(bool(r) == want, "single_flip_contiguous is wrong", step=step, choices=ch)))
        ctx.trans()
        if want:
            cur.parent = None
            cur, b = child, c
    ctx.trace()


def case_detour(ctx, p, tier):
    """A node of a long ring leaves its district: what is left hangs together only the long way round
    (or not at all: the ring has a gap, or the node carried a tail), whatever else hangs on the ring."""
    n = p["n"]
    for tail_at in (None, 0, 1, n // 2):
        for tail in ((1, n // 4 + 1, 2 * n) if tail_at is not None else (0,)):
            for gap in (None, 1, n // 2, n - 2):
                ring = [(i, (i + 1) % n) for i in range(n) if i != gap]
                tl = [(tail_at if t == 0 else n + t, n + t + 1) for t in range(tail)]
                edges = ring + [(0, n)] + tl
                if gap is not None and tail_at not in (None, 0) or gap is not None and tail > 1:
                    continue
                N = n + 1 + tail
                a = tuple(int(i == n) for i in range(N))
                w = world(dict(p, edges=edges, n=N, a0=a, nodes=["int", "rev", "str"][(n + tail) % 3]))
                part = root(w, a)
                b = (1,) + a[1:]
                want = truth(w, b)
                child = part.flip(w.flips(((0, 1),)))
                ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.check(bool(r) == want, "single_flip_contiguous says %s, the truth is %s" % (r, want), ring=n, gap=gap, tail=tail, tail_at=tail_at, start_choice=ch)))
                general(ctx, w, child, b, ("node of a long ring moved", n, gap, tail, tail_at))
                ctx.trans()
                ctx.state(gap, tail, tail_at)
    ctx.trace()


def case_hub(ctx, p, tier):
    """A node with many neighbours leaves its district: every pattern of links between neighbours on
    the ring around it, every way the ring continues through the other district's node."""
    q = p["q"]
    a = (0,) * (q + 1) + (1,)
    for mask in range(1 << q):
        edges = [(0, i) for i in range(1, q + 2)] + [(1 + i, 1 + (i + 1) % q) for i in range(q) if mask >> i & 1]
        w = world(dict(p, edges=edges, a0=a, nodes=["int", "rev", "str", "tup"][mask % 4]))
        part = root(w, a)
        b = (1,) + a[1:]
        want = truth(w, b)
        child = part.flip(w.flips(((0, 1),)))
        ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.check(bool(r) == want, "single_flip_contiguous says %s, the truth is %s" % (r, want), edges=edges, start_choice=ch)))
        general(ctx, w, child, b, ("hub moved", edges))
        listing(ctx, w, child, b, ("hub moved", edges))
        ctx.trans()
        ctx.state(mask)
    ctx.trace()


def case_bighub(ctx, p, tier):
    """A node with very many neighbours leaves: its neighbours hang together in one ring, or with one gap,
    or all but one, two or a run of them do (each place)."""
    q = p["q"]
    pats = [[i for i in range(q)], [i for i in range(q - 1)], list(range(0, q, 2)), []]
    pats += [[i for i in range(q) if i not in (x, (x - 1) % q)] for x in range(q)]          # neighbour x alone
    pats += [[i for i in range(q) if i not in (x, (x + y) % q)] for x in (0, 3, q - 4) for y in (2, 5, q // 2)]    # two runs
    for links in pats:
        for rot in (0, q // 2):
            edges = [(0, i) for i in range(1, q + 2)] + [(1 + i, 1 + (i + 1) % q) for i in links]
            # neighbours are joined to the hub in another order
            if rot:
                edges = edges[rot:] + edges[:rot]
            a = (0,) * (q + 1) + (1,)
            w = world(dict(p, edges=edges, n=q + 2, a0=a, nodes=["int", "rev", "str"][len(links) % 3]))
            part = root(w, a)
            b = (1,) + a[1:]
            want = truth(w, b)
            child = part.flip(w.flips(((0, 1),)))
            ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.check(bool(r) == want, "single_flip_contiguous says %s, the truth is %s" % (r, want), neighbours=q, links=links, start_choice=ch)))
            general(ctx, w, child, b, ("hub moved", links))
            ctx.trans()
            ctx.state(tuple(links), rot)
    ctx.trace()


def case_history(ctx, p, tier):
    """contiguous histories, then any flip at the end; parents dropped as a chain does."""
    w = world(p)
    moves = [f for f in gen.all_flips(range(w.n), w.k, 2 if w.n <= 3 else 1)]

    def rec(part, a, depth, h):
        for f in moves:
            b = gen.apply(a, f)
            if not nonempty(b, w.k):
                continue
            child = part.flip(w.flips(f))
            ctx.trans()
            ok = general(ctx, w, child, b, h + (f,))
            if len(f) == 1 and f[0][1] != a[f[0][0]] and any(a[j] == f[0][1] for j in w.neigh[f[0][0]]):
                ctx.absorb(explore(lambda: single_flip_contiguous(child), lambda r, pr, ch: ctx.eq(bool(r), ok, "single_flip_contiguous is wrong", history=h + (f,), choices=ch)))
            ctx.state(b, h)
            if ok and depth > 1:
                keep, part.parent = part.parent, None
                rec(child, b, depth - 1, h + (f,))
                general(ctx, w, child, b, h + (f, "after its children"))
                part.parent = keep
            else:
                ctx.trace()
    for a in gen.contiguous_plans(w.edges, w.n, w.k, unlabelled=True):
        rec(root(w, a), a, p["depth"], (a,))


def case_nomore(ctx, p, tier):
    """Every first plan followed by every sequence of later plans of length <= 2 (values of the
    rule's quantity are all that matters; all plans are tried as second, one per value as third)."""
    w = world(p)
    g = w.graph()
    plans = list(gen.set_partitions(w.n, w.k))
    val = {a: sum(len(gen.components([i for i in range(w.n) if a[i] == d], w.neigh)) == 1 for d in range(w.k)) for a in plans}
    rep = {}
    for a in plans:
        rep.setdefault(val[a], a)
    obj = {a: root(w, a, g) for a in plans}
    for a in plans:
        for mk in (lambda: SelfConfiguringLowerBound(number_of_contiguous_parts), lambda: copy.deepcopy(no_more_discontiguous)):
            for b in plans:
                rule = mk()
                ctx.check(rule(obj[a]), "the first plan is refused by its own bound", first=a)
                for c in [b] + list(rep.values()) + [b]:
                    ctx.check(bool(rule(obj[c])) == (val[c] >= val[a]), "no-more-discontiguous gave the wrong answer", first=a, seq=(b, c), contiguous_first=val[a], contiguous_now=val[c])
                    ctx.trans()
                ctx.state(a, b)
                ctx.trace()
