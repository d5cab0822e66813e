"""C23 Grid plans describe the unit-square grid exactly."""
import itertools, math
from gerrychain import MarkovChain
from gerrychain.grid import Grid, create_grid_graph
from gerrychain.updaters import Tally
from mc.core import gen

ID = "C23"
BOUNDS = {
    "quick": "all grid sizes 1..7 x 1..7 and twelve larger ones (20 x 20, 2 x 70, 1 x 130) with and without diagonals (graph, attributes, default plan and its geometry, layout); on all grids with <= 6 cells every plan with 1-3 districts, every single-cell flip to depth 2 and every two-cell flip; with custom updaters and assignments",
    "thorough": "sizes to 12 x 12; all grids with <= 8 cells (2-3 districts), depth 3 on <= 6 cells",
}
ASSUMPTIONS = ["layouts list one row per second coordinate (as the class prints them)", "a district left without cells may or may not keep a zero entry"]


def cases(tier):
    th = tier == "thorough"
    top = 12 if th else 7
    for m in range(1, top + 1):
        for n in range(1, top + 1):
            yield "size", dict(m=m, n=n)
    for m, n in ((1, 130), (130, 1), (2, 70), (70, 2), (20, 20)):
        yield "size", dict(m=m, n=n)
    for m, n in () if th else ((1, 16), (16, 1), (11, 3), (3, 12), (10, 10), (11, 12), (13, 13)):
        yield "size", dict(m=m, n=n)
    for m in range(1, 9):
        for n in range(1, 9):
            if 2 <= m * n <= (8 if th else 6):
                for diag in (False, True):
                    for k in (2, 3):
                        if k > m * n or (m * n == 6 and k == 3 and not th and diag):
                            continue
                        yield "flips", dict(m=m, n=n, diag=diag, k=k, depth=2 if not (th and m * n <= 6) else 3)


def sides(c):
    """The four unit sides of cell (x, y) as canonical segments."""
    x, y = c
    return [("v", x, y), ("v", x + 1, y), ("h", x, y), ("h", x, y + 1)]


def geometry(m, n, a):
    """Exact areas, perimeters, exterior/interior lengths of each district from its squares."""
    cells = [(x, y) for x in range(m) for y in range(n)]
    owner = {}
    for c in cells:
        for s in sides(c):
            owner.setdefault(s, []).append(c)
    area, per, ext, inn = {}, {}, {}, {}
    for c in cells:
        d = a[c]
        area[d] = area.get(d, 0) + 1
        for s in sides(c):
            o = owner[s]
            if len(o) == 1:
                ext[d] = ext.get(d, 0) + 1
                per[d] = per.get(d, 0) + 1
            elif a[o[0]] != a[o[1]]:
                inn[d] = inn.get(d, 0) + 1
                per[d] = per.get(d, 0) + 1
    return area, per, ext, inn


def edges_of(m, n, diag):
    """{edge: shared length}"""
    out = {}
    cells = [(x, y) for x in range(m) for y in range(n)]
    for c, d in itertools.combinations(cells, 2):
        dx, dy = abs(c[0] - d[0]), abs(c[1] - d[1])
        if dx + dy == 1:
            out[frozenset((c, d))] = 1
        elif diag and dx == dy == 1:
            out[frozenset((c, d))] = 0
    return out


def same(got, want, keys):
    return {k: got.get(k, 0) for k in set(keys) | set(got)} == {k: want.get(k, 0) for k in set(keys) | set(got)}


def check_graph(ctx, g, m, n, diag, info):
    cells = {(x, y) for x in range(m) for y in range(n)}
    ctx.check(set(g.nodes) == cells, "nodes are not the cells", got=sorted(g.nodes)[:10], **info)
    want = edges_of(m, n, diag)
    got = {frozenset(e): g.edges[e].get("shared_perim") for e in g.edges}
    ctx.check(got == want, "edges or shared lengths are wrong", extra=[sorted(e) for e in list(set(got) - set(want))[:3]], missing=[sorted(e) for e in list(set(want) - set(got))[:3]],
              wrong=[(sorted(e), got[e]) for e in got if want.get(e) != got[e]][:3], **info)
    cnt = {}
    for c in cells:
        for s in sides(c):
            cnt[s] = cnt.get(s, 0) + 1
    for c in cells:
        d = g.nodes[c]
        ext = sum(1 for s in sides(c) if cnt[s] == 1)
        ctx.check(d.get("population") == 1 and d.get("area") == 1, "population/area of a cell is not 1", cell=c, got=dict(d), **info)
        ctx.check(bool(d.get("boundary_node")) == (ext > 0), "boundary flag is wrong", cell=c, got=dict(d), **info)
        ctx.check(d.get("boundary_perim", 0) == ext, "exterior boundary length is wrong", cell=c, got=dict(d), want=ext, **info)


def check_plan(ctx, q, m, n, diag, a, labels, info):
    area, per, ext, inn = geometry(m, n, a)
    cells = [(x, y) for x in range(m) for y in range(n)]
    ctx.check(all(q.assignment[c] == a[c] for c in cells), "the plan's assignment is wrong", **info)
    ctx.check(tuple(q.dimensions) == (m, n), "dimensions are wrong", **info)
    ctx.check(same(q["population"], area, labels), "district populations are wrong", got=dict(q["population"]), want=area, **info)
    ctx.check(same(q["area"], area, labels), "district areas are wrong", got=dict(q["area"]), want=area, **info)
    ctx.check(same(q["perimeter"], per, labels), "district perimeters are not those of the union of squares", got=dict(q["perimeter"]), want=per, **info)
    ctx.check(same(q["exterior_boundaries"], ext, labels), "exterior boundary lengths are wrong", got=dict(q["exterior_boundaries"]), want=ext, **info)
    ctx.check(same(q["interior_boundaries"], inn, labels), "interior boundary lengths are wrong", got=dict(q["interior_boundaries"]), want=inn, **info)
    es = edges_of(m, n, diag)
    cut = {e for e in es if len({a[c] for c in e}) == 2}
    ctx.check({frozenset(e) for e in q["cut_edges"]} == cut, "cut edges are wrong", **info)
    cbp = {}
    for e in cut:
        for c in e:
            cbp.setdefault(a[c], set()).add(e)
    got = {d: {frozenset(e) for e in s} for d, s in q["cut_edges_by_part"].items() if s}
    ctx.check(got == cbp, "cut edges by district are wrong", **info)
    bn = {c for c in cells if c[0] in (0, m - 1) or c[1] in (0, n - 1)}
    ctx.check(set(q["boundary_nodes"]) == bn, "boundary nodes are wrong", got=sorted(q["boundary_nodes"]), **info)
    pp = q["polsby_popper"]
    for d in area:
        ctx.check(abs(pp[d] - 4 * math.pi * area[d] / per[d] ** 2) < 1e-9, "Polsby-Popper is not 4*pi*area/perimeter^2", district=d, got=pp[d], **info)
    rows = [[a[(x, y)] for x in range(m)] for y in range(n)]
    ctx.check([list(r) for r in q.as_list_of_lists()] == rows, "the listed layout does not show each cell's district", got=q.as_list_of_lists(), **info)
    ctx.check(str(q) == "".join("".join(str(x) for x in r) + "\n" for r in rows), "the printed layout does not show each cell's district", got=str(q), **info)
    ctx.trans()


def case_size(ctx, p, tier):
    m, n = p["m"], p["n"]
    for diag in (False, True):
        info = dict(size=(m, n), diagonals=diag)
        check_graph(ctx, create_grid_graph((m, n), diag), m, n, diag, info)
        q = Grid((m, n), with_diagonals=diag)
        check_graph(ctx, q.graph, m, n, diag, info)
        a = {(x, y): (0 if x < m // 2 else 1) + (0 if y < n // 2 else 2) for x in range(m) for y in range(n)}
        check_plan(ctx, q, m, n, diag, a, set(a.values()), info)
        k = len(set(a.values()))
        ctx.check(repr(q).split("\n")[0].startswith("%dx%d" % (m, n)) and "into %d part" % k in repr(q), "representation shows wrong size or number of parts", got=repr(q), **info)
        # supplied assignments and extra updaters
        for kind in ("stripes", "checker", "one"):
            b = {(x, y): {"stripes": 1 + x, "checker": 5 + (x + y) % 2, "one": 0}[kind] for x in range(m) for y in range(n)}
            q = Grid((m, n), diag, b, {"myarea": Tally("area", alias="myarea"), "const": lambda part: 42})
            check_plan(ctx, q, m, n, diag, b, set(b.values()), dict(info, assignment=kind))
            ctx.check(q["const"] == 42 and same(q["myarea"], geometry(m, n, b)[0], ()), "supplied updaters are not honoured", **info)
            if m * n > 1:
                c = (m - 1, n - 1)
                tgt = b[(0, 0)]
                r = q.flip({c: tgt})
                b2 = dict(b)
                b2[c] = tgt
                check_plan(ctx, r, m, n, diag, b2, set(b.values()), dict(info, assignment=kind, flipped=c))
                ctx.check(r["const"] == 42 and same(r["myarea"], geometry(m, n, b2)[0], ()), "supplied updaters are lost after a flip", **info)
                check_plan(ctx, q, m, n, diag, b, set(b.values()), dict(info, assignment=kind, after="flip"))
        ctx.trace()
        ctx.state(m, n, diag)
    for bad in ((m,), (m, n, 2)):
        try:
            create_grid_graph(bad, False)
        except ValueError:
            continue
        ctx.check(False, "a grid that is not two-dimensional was accepted", dimensions=bad)


def case_flips(ctx, p, tier):
    m, n, diag, k = p["m"], p["n"], p["diag"], p["k"]
    cells = [(x, y) for x in range(m) for y in range(n)]
    dl = [1, 2, 3][:k]
    N = len(cells)
    plans = list(gen.surjections(N, k)) if N <= 4 else list(gen.set_partitions(N, k))
    if N >= 6 and k == 3:
        plans = plans[::3]
    for a in plans:
        root = Grid((m, n), diag, {c: dl[a[i]] for i, c in enumerate(cells)})

        def rec(q, a, depth, h):
            mp = {c: dl[a[i]] for i, c in enumerate(cells)}
            check_plan(ctx, q, m, n, diag, mp, dl, dict(size=(m, n), diagonals=diag, history=h, plan=a))
            ctx.state(a)
            if depth == 0:
                ctx.trace()
                return
            moves = [((i, d),) for i in range(N) for d in range(k) if a[i] != d]
            if depth == p["depth"] and N <= 4:
                moves += [((i, d), (j, e)) for i, j in itertools.combinations(range(N), 2) for d in range(k) for e in range(k)]
            if depth < p["depth"] and N >= 5:
                moves = moves[:: 2]
            for f in moves:
                rec(q.flip({cells[i]: dl[d] for i, d in f}), gen.apply(a, f), depth - 1, h + (f,))
        rec(root, a, p["depth"] if N <= 5 or k == 2 else 1, ())
