"""Shared configuration of the flip-history explorations (C02-C07)."""
from . import gen, walk

PARTLABELS = {"int": [0, 1, 2, 3], "one": [1, 2, 3, 4], "str": ["dA", "dB", "dC", "dD"], "mix": [1007, 303, 905, 301], "neg": [-1, -2, 0, 2.5]}
MANYLABELS = {"int": list(range(16)), "one": list(range(1, 17)), "str": ["d%s" % x for x in "ABCDEFGHIJKLMNOP"], "mix": [1007 - 37 * (i * 5 % 16) for i in range(16)], "neg": [-1 - i for i in range(8)] + [i + 0.5 * (i % 3) for i in range(8)]}


class World:
    """One small graph with labels; translates model indices to implementation labels."""

    def __init__(self, p, attrs=None, eattrs=None):
        self.edges = tuple(tuple(e) for e in p["edges"])
        self.n, self.k = p["n"], p["k"]
        self.a0 = tuple(p["a0"])
        self.kind = p.get("nodes", "int")
        self.lab = gen.labels(self.kind, self.n)
        self.dl = (PARTLABELS if self.k <= 4 else MANYLABELS)[p.get("parts", "int")][: self.k]
        self.idx = {l: i for i, l in enumerate(self.lab)}
        self.attrs, self.eattrs = attrs or {}, eattrs or {}
        self.neigh = gen.adj(self.edges, self.n)

    def graph(self, **extra):
        return gen.build(self.edges, self.n, self.kind, self.attrs, self.eattrs)

    def assignment(self, a=None):
        a = self.a0 if a is None else a
        return {self.lab[i]: gen.fresh(self.dl[a[i]]) for i in range(self.n)}

    def flips(self, f):
        # equal labels need not be the same objects
        return {gen.fresh(self.lab[i]): gen.fresh(self.dl[d]) for i, d in f}

    def nodes_of(self, a, d):
        return {self.lab[i] for i in range(self.n) if a[i] == d}

    def cut(self, a):
        return {tuple(sorted((self.lab[i], self.lab[j]))) for i, j in self.edges if a[i] != a[j]}

    def cut_by_part(self, a):
        out = {}
        for i, j in self.edges:
            if a[i] != a[j]:
                e = tuple(sorted((self.lab[i], self.lab[j])))
                out.setdefault(self.dl[a[i]], set()).add(e)
                out.setdefault(self.dl[a[j]], set()).add(e)
        return out

    def sums(self, a, values):
        """{label: sum of values (index -> number)} for every label of the plan."""
        out = {d: 0 for d in self.dl}
        for i in range(self.n):
            out[self.dl[a[i]]] += values[i]
        return out


def moves_of(name, n, k):
    if name == "all":
        fl = tuple(gen.all_flips(range(n), k))
    elif name == "pairs":
        fl = tuple(f for f in gen.all_flips(range(n), k, 2))
    else:
        fl = tuple(gen.single_flips(n, k))
    return lambda a: fl


def blocks(m, n, k):
    if m * n >= 100:
        return drains(m * n, k)
    if k > 4:           # many districts: every cell, row, column and half, moved to a far and a near district
        sets = [[x] for x in range(m * n)] + [list(range(i * n, i * n + n)) for i in range(m)] + [list(range(j, m * n, n)) for j in range(n)] + [list(range(m * n // 2)), list(range(0, m * n, 2))]
        out = [tuple((c, (d + s * x[0]) % k) for c in x) for x in sets for d, s in ((1, 5), (0, 1))]
        spread = [tuple((c, (c * 7 + t) % k) for c in range(m * n)) for t in range(3)]          # back to full districts
        out.sort(key=lambda f: ((f[0][0] * 31 + len(f) * 7919) % 97, f))
        return [f for i, f in enumerate(out) for f in ([f] if i % 40 else [f, spread[i // 40 % 3]])]
    return rectangles(m, n, k)


def drains(N, k):
    """Large districts that lose nodes to, or take nodes from, several other districts in the same flip."""
    out = []
    for size in (1, 2, 5, 30, 70):
        for t in range(k):
            to = [d for d in range(k) if d != t]
            out.append(tuple((c, t) for c in range(N - 2 * k)))                        # nearly everything in one district
            out.append(tuple((c, to[c % len(to)]) for c in range(0, size)))            # neighbours to different districts
            out.append(tuple((c, to[c * len(to) // size % len(to)]) for c in range(size)))          # and the same nodes in runs
            out.append(tuple((c, (t + c) % k) for c in range(0, N, N // (size + 1))))  # every district gives and takes
            out.append(tuple((c, t) for c in range(N // 2)) + tuple((c, to[c % len(to)]) for c in range(N // 2, N)))
    return out


def rectangles(m, n, k):
    """Every rectangle of cells of the m x n grid, moved to every district."""
    out = []
    for i0 in range(m):
        for i1 in range(i0, m):
            for j0 in range(n):
                for j1 in range(j0, n):
                    cells = [i * n + j for i in range(i0, i1 + 1) for j in range(j0, j1 + 1)]
                    for d in range(k):
                        out.append(tuple((c, d) for c in cells))
    # interleave small and large blocks
    out.sort(key=lambda f: ((len(f) * 7919 + f[0][0] * 31 + f[0][1]) % 97, f))
    return out


def configs(tier, scale=1):
    """Yield (params, mode) pairs; scale > 1 trims the space for expensive monitors."""
    kinds = ["int", "str", "rev", "tup", "neg", "obj"]
    pls = ["int", "str", "mix", "one", "neg"]
    c = 0

    def mk(edges, n, k, a0, moves, depth, mode):
        nonlocal c
        c += 1
        return dict(edges=[list(e) for e in edges], n=n, k=k, a0=list(a0), moves=moves, depth=depth,
                    mode=mode, nodes=kinds[c % 6], parts=pls[(c // 3) % 5])
    th = tier == "thorough"
    for e in gen.connected(2):
        for a0 in gen.surjections(2, 2):
            yield mk(e, 2, 2, a0, "all", 4 if th else 3, "tree")
            yield mk(e, 2, 2, a0, "all", 3 if th else 2, "path")
    for e in gen.connected(3):
        for k in (2, 3):
            for a0 in gen.set_partitions(3, k):
                yield mk(e, 3, k, a0, "all", 2, "tree")
                yield mk(e, 3, k, a0, "single", 3, "path")
                yield mk(e, 3, k, a0, "single", 3, "chain")
                if k == 2 or th:
                    yield mk(e, 3, k, a0, "all", 2, "path")
                    yield mk(e, 3, k, a0, "all", 2, "chain")
                if th:
                    yield mk(e, 3, k, a0, "single", 5 if k == 2 else 4, "tree")
    for e in gen.connected(4):
        for k in (2, 3):
            for a0 in gen.set_partitions(4, k):
                if k == 2:
                    yield mk(e, 4, k, a0, "pairs" if (scale > 1 and not th) else "all", 2, "tree")
                yield mk(e, 4, k, a0, "single", 3 if (scale == 1 or th or k == 2) else 2, "tree")
                yield mk(e, 4, k, a0, "single", 2, "path")
                yield mk(e, 4, k, a0, "single", 3 if (th or scale == 1) and k == 2 else 2, "chain")
                if th:
                    yield mk(e, 4, k, a0, "pairs", 2, "path")
                    yield mk(e, 4, k, a0, "pairs", 2, "tree")
                    yield mk(e, 4, k, a0, "single", 4, "tree")
    # graphs with islands and several components; more districts; one long history over everything
    for e, n in ((((0, 1),), 3), (((0, 1), (2, 3)), 4), (((1, 2), (2, 3)), 4)):
        for a0 in gen.set_partitions(n, 2):
            yield mk(e, n, 2, a0, "pairs", 2, "tree")
        yield mk(e, n, 3, (0, 1, 2, 1)[:n], "single", 2, "chain")
    for e, n in ((gen.path(4), 4), (gen.complete(4), 4)):
        yield mk(e, n, 4, (0, 1, 2, 3), "pairs", 2 if e == gen.path(4) or th else 1, "tree")
    for e, n, k, mv in ((gen.path(3), 3, 3, "all"), (gen.cycle(4), 4, 2, "all"), (gen.path(4), 4, 3, "single"),
                        (((0, 1), (0, 2), (1, 2), (2, 3)), 4, 3, "single"), (((0, 1), (2, 3)), 4, 2, "pairs"),
                        (gen.cycle(5), 5, 2, "single"), (gen.grid(2, 3), 6, 2, "single"), (gen.star(4), 4, 4, "single")):
        if not th and scale > 1 and k ** n > 100:
            continue
        yield mk(e, n, k, tuple(min(i, k - 1) for i in range(n)), mv, 0, "cover")
    for m, n, k in ((4, 4, 2), (5, 5, 4), (8, 8, 12), (1, 40, 9), (10, 12, 4), (1, 150, 3)) + (((6, 6, 3), (3, 10, 4), (15, 20, 5)) if th else ()):
        yield dict(mk(gen.grid(m, n) if m > 1 else gen.path(n), m * n, k, tuple(min(k - 1, i * k // (m * n)) for i in range(m * n)), "blocks", 0, "sweep"), dims=[m, n])
    if th:
        for e, n, k in ((gen.cycle(4), 4, 3), (gen.grid(2, 3), 6, 2), (gen.cycle(6), 6, 2), (gen.cycle(5), 5, 3)):
            yield mk(e, n, k, tuple(min(i, k - 1) for i in range(n)), "pairs", 0, "cover")
    big = [(gen.grid(2, 3), 6), (gen.cycle(5), 5), (gen.complete(4), 4), (gen.star(5), 5)]
    if th:
        big += [(gen.grid(2, 4), 8), (gen.grid(3, 3), 9)]
    for e, n in big:
        for k in (2, 3):
            if n == 4 and k == 2:
                continue
            pl = list(gen.contiguous_plans(e, n, k, unlabelled=True))
            step = max(1, len(pl) // (3 if not th else 8))
            for a0 in pl[::step]:
                yield mk(e, n, k, a0, "single", 2 if (n > 5 or k == 3) and not th or n > 6 else 3, "tree")
                if th:
                    yield mk(e, n, k, a0, "pairs", 2 if n <= 5 else 1, "tree")


def drive(ctx, p, w, make_root, check, moves=None):
    if p["mode"] == "sweep":
        for every, off in ((1, 0), (7, 3)):
            walk.follow(ctx, make_root, w.a0, blocks(p["dims"][0], p["dims"][1], w.k), w.flips, check, every, off)
        return
    mv = moves or moves_of(p["moves"], w.n, w.k)
    if p["mode"] == "cover":
        for every, off in ((1, 0), (5, 0), (7, 3)):
            walk.cover(ctx, make_root, w.a0, mv, w.flips, check, every, off)
    elif p["mode"] == "tree":
        walk.tree(ctx, make_root(), w.a0, mv, p["depth"], w.flips, check)
    else:
        walk.paths(ctx, make_root, w.a0, mv, p["depth"], w.flips, check, erase=p["mode"] == "chain")


BOUNDS = {
    "quick": "flip histories on all connected graphs with <=4 nodes, 2 and 3 districts, all start plans up to relabelling: every flips dictionary (any subset of nodes to any districts, no-op/emptying included) to depth 2 (n<=3; n=4,k=2), every single flip to depth 3; read points: every subset; also chain-style parent dropping; samples of start plans on 2x3 grid, C5, K4, star to depth 2-3; node labels int/str/reversed/tuple/negative, district labels int/str/negative and fractional; graphs with islands and two components; 4 districts; one single history through every transition of the state space of 8 graphs (up to ~5000 steps), read at every, every 5th and every 7th step; one history moving every rectangle of the 4x4 (2 districts) and 5x5 (4 districts) grids to every district; one history of cells, rows, columns and halves of the 8x8 grid (12 districts) and of a 40-node path (9 districts); one history of large districts giving up to and taking from several districts in the same flip on the 10x12 grid and a 150-node path",
    "thorough": "as quick with depth 5 (n=3), 4 (n=4) for single flips, all pairs flips at every read-point subset, plus 2x4 and 3x3 grids; covering histories of pair flips on C4, C5, C6, 2x3 grid",
}
