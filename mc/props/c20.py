"""C20 Adjacency graphs built from geometries match the map."""
import itertools, math, os, shutil, tempfile, warnings
from collections import Counter
import geopandas as gp
import pandas as pd
from shapely.geometry import MultiPolygon, Polygon, box
from shapely.ops import unary_union
from gerrychain import Graph
from gerrychain.graph.geo import GeometryError
from mc.core.explore import Violation

ID = "C20"
BOUNDS = {
    "quick": "coordinate systems recorded for every combination of file CRS (two geographic, one projected, none) and reprojection; maps: every way of giving the cells of a 1x3, 2x2 and 2x3 lattice (unequal widths and heights) to regions or to the outside (all set partitions, so non-convex, multi-part and corner-touching regions, holes and islands included), every map of a 4x4 lattice whose border is one region (units reaching the outside only through holes); 2x2 maps scaled by 2^-23, 2^-40, 2^20; every 23rd such map of a 3x3 lattice with <= 4 regions; both adjacency rules for each; every row order and four kinds of index labels for all 2x2 maps; every ordered subset of three columns; all pairs/triples of overlapping regions on a 2x2 lattice; every non-empty subset of invalid rows x three kinds of invalid polygon x ignore/refuse x reproject; every 2x1 and 2x2 longitude/latitude map in 6 zones, both hemispheres, majority zone and pluralities over many zones; UTM zone rule on every whole degree; GeoJSON files",
    "thorough": "all maps of the 3x3 lattice with <= 4 regions, all row orders of all 2x3 maps with 3 regions",
}
ASSUMPTIONS = ["polygons have exactly representable coordinates; lengths and areas compared with tolerance 1e-9 (1e-6 relative after reprojection)", "index values are unique and mutually comparable", "geopandas/shapely predicates are trusted for rectilinear lattice polygons; reprojection is compared with geopandas' own to_crs"]

W, H = (1, 2, 4, 3), (1, 3, 2, 5)
SCALES = (2.0 ** -23, 2.0 ** -40, 2.0 ** 20)


def growth(ncell, kmax):
    """All assignments cell -> None (absent) or region, regions numbered in order of appearance."""
    def rec(pre, used):
        if len(pre) == ncell:
            if used:
                yield tuple(pre)
            return
        for r in range(-1, min(used + 1, kmax)):
            yield from rec(pre + [r], max(used, r + 1))
    yield from rec([], 0)


def canon(cells):
    seen = {}
    return [-1 if c < 0 else seen.setdefault(c, len(seen)) for c in cells]


def cases(tier):
    th = tier == "thorough"
    for m, n, kmax in ((1, 1, 1), (1, 3, 3), (3, 1, 3), (2, 2, 4), (2, 3, 6)):
        maps = list(growth(m * n, kmax))
        for s in range(0, len(maps), 120):
            yield "maps", dict(m=m, n=n, maps=[list(x) for x in maps[s:s + 120]])
    maps = list(growth(9, 4))
    if not th:
        maps = maps[::23]
    for s in range(0, len(maps), 150):
        yield "maps", dict(m=3, n=3, maps=[list(x) for x in maps[s:s + 150]])
    # a ring of land around any map of a 2x2 lattice: units that reach the outside only through a hole
    ring = []
    for inner in growth(4, 4):
        cells = [0] * 16
        for c, r in zip((5, 6, 9, 10), inner):
            cells[c] = r + 1 if r >= 0 else -1
        ring.append(cells)
        if max(inner) < 2:         # the ring itself reaching inwards
            ring.append(canon([x - 1 if x > 0 else x for x in cells]))
    yield "maps", dict(m=4, n=4, maps=ring)
    for sc in SCALES:
        yield "maps", dict(m=2, n=2, scale=sc, maps=[list(x) for x in growth(4, 4)])
    small = list(growth(4, 4)) if not th else list(growth(4, 4)) + [x for x in growth(6, 3) if max(x) == 2]
    for s in range(0, len(small), 12):
        yield "orders", dict(maps=[list(x) for x in small[s:s + 12]])
    for adj in ("rook", "queen"):
        yield "columns", dict(adjacency=adj)
        yield "overlap", dict(adjacency=adj, triples=False)
        yield "overlap", dict(adjacency=adj, triples=True)
        for t in (2.0 ** -12, 2.0 ** -30):
            yield "overlap", dict(adjacency=adj, triples=False, thin=t)
        yield "geomcol", dict(adjacency=adj)
        yield "invalid", dict(adjacency=adj)
        yield "files", dict(adjacency=adj)
    for lon in (-177, -111, -75, 3, 57, 177):
        yield "reproject", dict(lon=lon)
    for s in range(-80, 84, 8):
        yield "zones", dict(lat=s)
    for n in (7, 30, 120, 600):
        yield "majority", dict(n=n)
    yield "misuse", {}


# ------------------------------------------------------------------ exact lattice geometry
class Lattice:
    def __init__(self, m, n, cells, s=1):
        self.m, self.n, self.cells, self.s = m, n, cells, s
        self.w = [x * s for x in W[:n]]
        self.h = [x * s for x in H[:m]]
        self.k = max(cells) + 1

    def at(self, i, j):
        if 0 <= i < self.m and 0 <= j < self.n:
            return self.cells[i * self.n + j]
        return -1

    def geometry(self, r):
        x = [sum(self.w[:j]) for j in range(self.n + 1)]
        y = [sum(self.h[:i]) for i in range(self.m + 1)]
        return unary_union([box(x[j], y[i], x[j + 1], y[i + 1]) for i in range(self.m) for j in range(self.n) if self.at(i, j) == r])

    def oracle(self):
        k = self.k
        area = [0] * k
        shared = {}
        exposed = [0] * k
        touch = set()
        onb = set()
        for i in range(self.m):
            for j in range(self.n):
                r = self.at(i, j)
                if r >= 0:
                    area[r] += self.w[j] * self.h[i]
        # horizontal sides: between (i-1, j) and (i, j); vertical: between (i, j-1) and (i, j)
        sides = [(self.at(i - 1, j), self.at(i, j), self.w[j]) for i in range(self.m + 1) for j in range(self.n)]
        sides += [(self.at(i, j - 1), self.at(i, j), self.h[i]) for i in range(self.m) for j in range(self.n + 1)]
        for a, b, ln in sides:
            if a == b:
                continue
            if a >= 0 and b >= 0:
                key = frozenset((a, b))
                shared[key] = shared.get(key, 0) + ln
            else:
                exposed[max(a, b)] += ln
        for i in range(self.m + 1):
            for j in range(self.n + 1):
                four = [self.at(i - 1, j - 1), self.at(i - 1, j), self.at(i, j - 1), self.at(i, j)]
                present = {r for r in four if r >= 0}
                touch |= {frozenset(p) for p in itertools.combinations(present, 2)}
                if -1 in four:
                    onb |= present
        return area, shared, exposed, touch, onb


def close(a, b, tol=1e-9, unit=1.0):
    return abs(a - b) <= tol * max(unit, abs(a), abs(b))


def build(df, adjacency, **kw):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        g = Graph.from_geodataframe(df, adjacency=adjacency, **kw)
    return g, [str(w.message) for w in ws]


def verify(ctx, g, msgs, lat, ids, adjacency, cols=None, df=None, scale=None, **info):
    """ids[r]: node id of region r."""
    area, shared, exposed, touch, onb = lat.oracle()
    info.update(cells=list(lat.cells), lattice=[lat.m, lat.n], adjacency=adjacency, ids=[repr(i) for i in ids])
    ctx.check(list(g.nodes) is not None and set(g.nodes) == set(ids) and len(g) == len(ids), "the nodes are not the table's index", got=repr(list(g.nodes)), **info)
    want = {frozenset(ids[r] for r in e): shared.get(e, 0) for e in (shared if adjacency == "rook" else touch)}
    got = {frozenset(e): g.edges[e] for e in g.edges}
    if set(got) != set(want):
        raise Violation("wrong adjacency", missing=[sorted(map(repr, e)) for e in set(want) - set(got)], extra=[sorted(map(repr, e)) for e in set(got) - set(want)], **info)
    for e in want:
        ctx.check(close(got[e]["shared_perim"], want[e], unit=lat.s), "wrong shared border length", edge=sorted(map(repr, e)), got=got[e]["shared_perim"], want=want[e], **info)
    for r, v in enumerate(ids):
        d = g.nodes[v]
        ctx.check(close(d["area"], area[r], unit=lat.s ** 2), "wrong area", node=repr(v), got=d["area"], want=area[r], **info)
        ctx.check(d["boundary_node"] is (r in onb), "wrong boundary_node", node=repr(v), got=repr(d["boundary_node"]), **info)
        if r in onb:
            ctx.check(close(d.get("boundary_perim", -1), exposed[r], unit=lat.s), "wrong boundary_perim", node=repr(v), got=d.get("boundary_perim"), want=exposed[r], **info)
        else:
            ctx.check(not d.get("boundary_perim"), "an interior node has a boundary length", node=repr(v), **info)
    isl = {ids[r] for r in range(lat.k)} - {v for e in want for v in e}
    warned = [x for x in msgs if "island" in x.lower()]
    ctx.check(bool(warned) == bool(isl), "islands are not warned about exactly when there are some", islands=sorted(map(repr, isl)), warnings=warned, **info)
    for v in isl:
        ctx.check(repr(v) in warned[0], "an island is missing from the warning", island=repr(v), warning=warned[0], **info)
    ctx.check(not [x for x in msgs if "overlap" in x.lower()], "warning about overlaps on a map without any", **info)
    ctx.trans()


def table(lat, ids, order, extra=False):
    rows = [lat.geometry(r) for r in order]
    data = {"region": [r * 11 for r in order]}
    if extra:
        data.update(b=["n%d" % r for r in order], c=[r / 4 for r in order])
    return gp.GeoDataFrame(data, geometry=rows, index=[ids[r] for r in order], crs="EPSG:32618")


def case_maps(ctx, p, tier):
    for cells in p["maps"]:
        lat = Lattice(p["m"], p["n"], cells, p.get("scale", 1))
        ids = list(range(lat.k))
        df = table(lat, ids, ids)
        for adjacency in ("rook", "queen"):
            keep = df.copy(deep=True)
            g, msgs = build(df, adjacency)
            verify(ctx, g, msgs, lat, ids, adjacency)
            ctx.check(df.equals(keep) and df.crs == keep.crs, "building a graph changed the table", cells=cells)
            for r in ids:
                ctx.check(g.nodes[r]["region"] == r * 11, "a node has another row's data", node=r, cells=cells)
                ctx.check(g.geometry[r].equals(df.geometry[r]), "graph.geometry does not hold the polygons", cells=cells)
        # the default is rook adjacency
        ctx.trace()
        ctx.state(p["m"], p["n"], tuple(cells))
    g, msgs = build(df, "rook")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = Graph.from_geodataframe(df)
    ctx.check({frozenset(e) for e in d.edges} == {frozenset(e) for e in g.edges}, "rook is not the default adjacency")


IDX = {"rev": lambda r: 100 - r, "str": lambda r: "zxyw"[r] + "%d" % r, "mid": lambda r: (r * 3 + 1) % 4, "neg": lambda r: -r}


def case_orders(ctx, p, tier):
    for cells in p["maps"]:
        n = 2 if len(cells) == 4 else 3
        lat = Lattice(2, n, cells)
        for order in itertools.permutations(range(lat.k)):
            for name, f in IDX.items():
                ids = [f(r) for r in range(lat.k)]
                df = table(lat, ids, order)
                for adjacency in ("rook", "queen"):
                    g, msgs = build(df, adjacency)
                    verify(ctx, g, msgs, lat, ids, adjacency, order=order)
                    for r in range(lat.k):
                        ctx.check(g.nodes[ids[r]]["region"] == r * 11, "a node has another row's data", node=repr(ids[r]), order=order, cells=cells)
                ctx.state(tuple(cells), order, name)
        ctx.trace()


def case_columns(ctx, p, tier):
    lat = Lattice(2, 3, [0, 1, 1, 0, 2, 3])
    base = {"boundary_node", "area", "boundary_perim"}
    for order in ((0, 1, 2, 3), (2, 0, 3, 1)):
        ids = [10 * r + 5 for r in range(4)]
        df = table(lat, ids, order, extra=True)
        allc = list(df.columns)
        for cols in [None] + [list(x) for k in range(0, 4) for x in itertools.permutations(["region", "b", "c"], k)]:
            g, msgs = build(df, p["adjacency"], cols_to_add=cols)
            verify(ctx, g, msgs, lat, ids, p["adjacency"])
            for r, v in enumerate(ids):
                d = g.nodes[v]
                want = {c: df.loc[v, c] for c in (allc if cols is None else cols)}
                ctx.check(set(d) - base == set(want), "a node does not have exactly the requested columns", cols=cols, got=sorted(d))
                for c in want:
                    if c != "geometry":
                        ctx.check(d[c] == want[c], "a node has another row's data", node=v, column=c, cols=cols)
                    else:
                        ctx.check(d[c].equals(want[c]), "a node has another row's geometry", node=v)
            ctx.state(str(cols), order)
            ctx.trace()
        for crs in (4269, "EPSG:26917"):
            df2 = df.copy()
            df2.crs = None
            g, msgs = build(df2, p["adjacency"])
            ctx.check(g.graph["crs"] is None and any("CRS" in x for x in msgs), "a missing CRS is not warned about")
            g, msgs = build(df2, p["adjacency"], crs_override=crs)
            import pyproj
            ctx.check(pyproj.CRS.from_json(g.graph["crs"]) == pyproj.CRS.from_user_input(crs), "crs_override is not recorded")
        g, msgs = build(df, p["adjacency"])
        import pyproj
        ctx.check(pyproj.CRS.from_json(g.graph["crs"]) == df.crs, "the table's CRS is not recorded")


def case_overlap(ctx, p, tier):
    """Regions as arbitrary subsets of four cells: overlaps are warned about, with the right rows."""
    x1, y1 = p.get("thin", 1), 1          # how wide the left-hand cells are
    xs = [(0, 0, x1, y1), (x1, 0, 3, y1), (0, y1, x1, 4), (x1, y1, 3, 4)]
    subs = [s for k in range(1, 5) for s in itertools.combinations(range(4), k)]
    tuples = itertools.combinations_with_replacement(subs, 3) if p["triples"] else itertools.product(subs, repeat=2)
    for n, t in enumerate(tuples):
        if p["triples"] and tier != "thorough" and n % 4:
            continue
        ids = ["b", "a", "c"][: len(t)]
        df = gp.GeoDataFrame({"x": range(len(t))}, geometry=[unary_union([box(*xs[c]) for c in s]) for s in t], index=ids, crs="EPSG:32618")
        g, msgs = build(df, p["adjacency"])
        pairs = {tuple(sorted((ids[i], ids[j]))) for i, j in itertools.combinations(range(len(t)), 2) if set(t[i]) & set(t[j])}
        warned = [m for m in msgs if "overlap" in m.lower()]
        ctx.check(bool(warned) == bool(pairs), "overlaps are not warned about exactly when there are some", regions=t, warnings=msgs, adjacency=p["adjacency"])
        for a in pairs:
            ctx.check(repr(a) in warned[0], "an overlapping pair is missing from the warning", pair=a, warning=warned[0], regions=t)
        for a in itertools.combinations(sorted(ids), 2):
            ctx.check(a in pairs or not warned or repr(a) not in warned[0], "the overlap warning names a pair that does not overlap", pair=a, regions=t)
        ctx.check(set(g.nodes) == set(ids), "wrong nodes")
        if p["adjacency"] == "queen":
            touching = {frozenset((ids[i], ids[j])) for i, j in itertools.combinations(range(len(t)), 2)}   # all cells of the 2x2 lattice meet
            ctx.check({frozenset(e) for e in g.edges} == touching, "wrong queen adjacency of overlapping polygons", regions=t, got=repr(list(g.edges)))
        ctx.trans()
        ctx.trace()
        ctx.state(t)


def case_geomcol(ctx, p, tier):
    """The polygons are those of the table's geometry column, whatever it and the other columns are called."""
    from shapely.geometry import Point
    for cells in growth(4, 4):
        lat = Lattice(2, 2, cells)
        ids = ["u%d" % (9 - r) for r in range(lat.k)]
        for other in (None, "points", "invalid", "shifted"):
            df = table(lat, ids, range(lat.k)).rename_geometry("shape")
            if other == "points":
                df["geometry"] = gp.GeoSeries([Point(0, 0)] * lat.k, index=ids, crs=df.crs)
            elif other == "invalid":
                df["geometry"] = gp.GeoSeries([BAD["pinch"]] * lat.k, index=ids, crs=df.crs)
            elif other == "shifted":
                df["geometry"] = gp.GeoSeries([box(r, 0, r + 1, 1) for r in range(lat.k)], index=ids, crs=df.crs)
            ctx.check(df.geometry.name == "shape", "harness: active geometry")
            g, msgs = build(df, p["adjacency"], cols_to_add=["region"])
            verify(ctx, g, msgs, lat, ids, p["adjacency"], other=other)
            ctx.state(tuple(cells), other)
        ctx.trace()
    # refusing and reprojecting look at the same column
    good, bad = box(0, 0, 2, 1), BAD["pinch"]
    for shapes, decoys in itertools.product(((good, good), (good, bad), (bad, bad)), repeat=2):
        mk = [shifted(s, 2 * i, "EPSG:4326") for i, s in enumerate(shapes)]
        far = [shifted(s, 2 * i + 3000, "EPSG:4326") for i, s in enumerate(decoys)]
        df = gp.GeoDataFrame({"x": [0, 1]}, geometry=mk, index=["r0", "r1"], crs="EPSG:4326").rename_geometry("shape")
        df["geometry"] = gp.GeoSeries(far, index=df.index, crs=df.crs)
        for reproject in (False, True):
            try:
                g, _ = build(df, p["adjacency"], reproject=reproject, cols_to_add=["x"])
            except GeometryError as e:
                for i in (0, 1):
                    ctx.check(("r%d" % i in str(e)) == (shapes[i] is bad), "refused rows are not the invalid ones of the geometry column", error=str(e), reproject=reproject)
                ctx.check(bad in shapes, "a valid map was refused", reproject=reproject)
            else:
                ctx.check(bad not in shapes, "a map with invalid polygons was not refused", reproject=reproject)
                ref = df.geometry if not reproject else df.geometry.to_crs("+proj=utm +zone=18 +ellps=WGS84 +datum=WGS84 +units=m +no_defs")
                for v in df.index:
                    ctx.check(abs(g.nodes[v]["area"] - ref[v].area) <= 1e-7 * ref[v].area, "wrong area", node=v, got=g.nodes[v]["area"], want=ref[v].area, reproject=reproject)
            ctx.trans()


BAD = {
    "pinch": Polygon([(0, 0), (2, 0), (2, 1), (1, 0), (0, 1)]),                       # touches itself
    "hole": Polygon([(0, 0), (2, 0), (2, 2), (0, 2)], [[(0, 0), (0, 1), (1, 1), (1, 0)]]),       # hole shares sides with the shell
    "parts": MultiPolygon([box(0, 0, 1, 1), box(1, 0, 2, 1)]),                        # parts share a side
}


def shifted(poly, dx, crs):
    from shapely.affinity import affine_transform
    s = 0.01 if crs == "EPSG:4326" else 1
    ox, oy = (-75, 40) if crs == "EPSG:4326" else (0, 0)
    return affine_transform(poly, [s, 0, 0, s, ox + dx * s, oy])


def case_invalid(ctx, p, tier):
    good = box(0, 0, 2, 1)
    for n in (1, 2, 3):
        for pat in itertools.product([None] + sorted(BAD), repeat=n):
            for crs in ("EPSG:32618", "EPSG:4326"):
                for reproject in ((False, True) if crs == "EPSG:4326" else (False,)):
                    ids = ["r%d" % i for i in range(n)]
                    df = gp.GeoDataFrame({"x": range(n)}, geometry=[shifted(BAD.get(b, good), 2 * i, crs) for i, b in enumerate(pat)], index=ids, crs=crs)
                    bad = [ids[i] for i in range(n) if pat[i]]
                    info = dict(pattern=pat, crs=crs, reproject=reproject, adjacency=p["adjacency"])
                    try:
                        g, msgs = build(df, p["adjacency"], reproject=reproject)
                    except GeometryError as e:
                        ctx.check(bad, "a valid map was refused", error=str(e), **info)
                        for b in bad:
                            ctx.check(b in str(e), "the refusal does not name an invalid row", row=b, error=str(e), **info)
                        for b in set(ids) - set(bad):
                            ctx.check(b not in str(e), "the refusal names a valid row", row=b, error=str(e), **info)
                    else:
                        ctx.check(not bad, "a map with invalid polygons was not refused", **info)
                        plain = g
                    ctx.trans()
                    try:
                        g, msgs = build(df, p["adjacency"], reproject=reproject, ignore_errors=True)
                    except GeometryError as e:
                        raise Violation("invalid polygons were refused although told to ignore them", error=str(e), **info)
                    except Exception as e:
                        if not bad:
                            raise
                        g = None          # the geometry library could not cope with it
                    if g is not None:
                        ctx.check(set(g.nodes) == set(ids) and [g.nodes[v]["x"] for v in ids] == list(range(n)), "wrong nodes", **info)
                    if not bad:
                        ctx.check({frozenset(e): d for *e, d in g.edges(data="shared_perim")} == {frozenset(e): d for *e, d in plain.edges(data="shared_perim")}, "ignore_errors changes a valid map", **info)
                    ctx.trans()
                    ctx.state(pat, crs, reproject)
            ctx.trace()


def zone_rule(lat, lon):
    if 56 <= lat < 64 and 3 <= lon < 12:
        return 32
    if lat >= 72 and 0 <= lon < 42:
        return 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return math.floor((lon + 180) / 6) + 1


def case_zones(ctx, p, tier):
    from gerrychain.graph.geo import utm_of_point
    from shapely.geometry import Point
    for lat in range(p["lat"], min(84, p["lat"] + 8)):
        for lon in range(-180, 180):
            for d in (0, 0.5):
                got = utm_of_point(Point(lon + d, lat + d))
                if got != zone_rule(lat + d, lon + d):
                    raise Violation("wrong UTM zone", lat=lat + d, lon=lon + d, got=got, want=zone_rule(lat + d, lon + d))
                ctx.trans()
        ctx.state(lat)
        ctx.trace()


def case_majority(ctx, p, tier):
    """Maps of up to hundreds of units over two or three zones, in several row orders."""
    from gerrychain.graph.geo import identify_utm_zone
    n = p["n"]
    cell = lambda lon, i: box(lon + 0.004 * i, 40, lon + 0.004 * i + 0.004, 40.004)
    for west, mid, east in ((n // 2 + 1, n - n // 2 - 1, 0), (n // 2 - 1, n - n // 2 + 1, 0), (n // 3, n - n // 3 - n // 4, n // 4), (1, n - 1, 0), (n - 1, 1, 0), (n // 4, n // 4, n - 2 * (n // 4))):
        count = {31: west, 32: mid, 33: east}
        top = max(count.values())
        if list(count.values()).count(top) > 1:
            continue
        units = [cell(4.5, i) for i in range(west)] + [cell(10.5, i) for i in range(mid)] + [cell(16.5, i) for i in range(east)]
        for order in (list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 7 % n, i))):
            df = gp.GeoDataFrame({"x": order}, geometry=[units[i] for i in order], index=["u%d" % i for i in order], crs="EPSG:4326")
            for crs in ("EPSG:4326", "EPSG:3857"):
                got = identify_utm_zone(df.to_crs(crs))
                want = max(count, key=count.get)
                ctx.check(int(got) == want, "the UTM zone is not the one of most units", units=n, zones=count, got=got)
                ctx.trans()
        ctx.state(n, west, mid)
        ctx.trace()
    # many zones, the commonest of which holds only a few of the units, at the edge or in the middle
    for at in (0, 3, 7):
        counts = [max(1, n // 20)] * 8
        counts[at] += 1 + n // 10
        units = [box(-93 + 6 * z + 0.004 * i, -31, -93 + 6 * z + 0.004 * i + 0.004, -30.996) for z in range(8) for i in range(counts[z])]
        want = 15 + at
        for order in (list(range(len(units))), sorted(range(len(units)), key=lambda i: (i * 7 % len(units), i))):
            df = gp.GeoDataFrame({"x": order}, geometry=[units[i] for i in order], crs="EPSG:4326")
            got = identify_utm_zone(df)
            ctx.check(int(got) == want, "the UTM zone is not the one of most units", units=len(units), zones=counts, got=got, want=want)
            ctx.trans()


def case_reproject(ctx, p, tier):
    """Boxes around the border between two UTM zones: areas and lengths are those in the zone holding most polygons."""
    for lat0, counts, shape in itertools.product((47, 0.5, -33), ((1, 0), (0, 1), (1, 2), (2, 1), (3, 1), (0, 2)), ("row", "block")):
        mid = p["lon"] - (p["lon"] + 180) % 6 + 6          # a zone border east of lon
        if mid >= 180:
            mid -= 6
        west, east = counts
        boxes = []
        step = 0.125
        for i in range(-west, east):
            if shape == "row":
                boxes.append(box(mid + i * step, lat0, mid + (i + 1) * step, lat0 + step))
            else:
                boxes.append(box(mid + i * step, lat0, mid + (i + 1) * step, lat0 + step))
                boxes.append(box(mid + i * step, lat0 + step, mid + (i + 1) * step, lat0 + 2 * step))
        n = len(boxes)
        ids = ["u%d" % (n - i) for i in range(n)]
        for crs in ("EPSG:4326", "EPSG:3857"):
            df = gp.GeoDataFrame({"x": range(n)}, geometry=boxes, index=ids, crs="EPSG:4326")
            if crs != "EPSG:4326":
                df = df.to_crs(crs)
            zone = (mid + 180) // 6 + (1 if east > west else 0)
            ref = df.to_crs("+proj=utm +zone=%d +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % zone).geometry
            keep = df.copy(deep=True)
            for adjacency in ("rook", "queen"):
                g, msgs = build(df, adjacency, reproject=True)
                info = dict(lat=lat0, border=mid, counts=counts, shape=shape, crs=crs, adjacency=adjacency)
                want = {}
                rel = 1e-7
                for i, j in itertools.combinations(range(n), 2):
                    a, b = set(df.geometry.iloc[i].exterior.coords), set(df.geometry.iloc[j].exterior.coords)
                    c = len(a & b)
                    if c >= 2:
                        want[frozenset((ids[i], ids[j]))] = ref.iloc[i].intersection(ref.iloc[j]).length
                    elif c == 1 and adjacency == "queen":
                        want[frozenset((ids[i], ids[j]))] = 0
                got = {frozenset((a, b)): d for a, b, d in g.edges(data="shared_perim")}
                ctx.check(set(got) == set(want), "wrong adjacency after reprojection", got=repr(got), want=repr(want), **info)
                for e in want:
                    ctx.check(abs(got[e] - want[e]) <= rel * max(1, want[e]), "wrong shared length after reprojection", got=got[e], want=want[e], **info)
                for i, v in enumerate(ids):
                    d = g.nodes[v]
                    ctx.check(abs(d["area"] - ref.iloc[i].area) <= rel * ref.iloc[i].area, "wrong area after reprojection (not the zone of most polygons?)", got=d["area"], want=ref.iloc[i].area, **info)
                    ctx.check(d["x"] == i, "a node has another row's data", **info)
                    ex = ref.iloc[i].length - sum(want[e] for e in want if v in e)
                    if ex > 1:
                        ctx.check(d["boundary_node"] is True and abs(d["boundary_perim"] - ex) <= 1e-6 * ref.iloc[i].length, "wrong boundary length after reprojection", got=d.get("boundary_perim"), want=ex, **info)
                ctx.check(df.equals(keep) and df.crs == keep.crs, "reprojecting changed the caller's table", **info)
                g2, _ = build(df, adjacency, reproject=False)
                a0 = df.geometry.area
                for v in ids:
                    ctx.check(close(g2.nodes[v]["area"], a0[v]), "without reprojection the area is not in the table's own CRS", **info)
                ctx.trans()
            ctx.state(lat0, counts, shape, crs)
        ctx.trace()


def case_files(ctx, p, tier):
    d = tempfile.mkdtemp(prefix="mc20")
    try:
        for cells in ([0], [0, 1], [0, 1, 1, 2], [0, 1, 0, 2, -1, 3], [2, 0, 0, 1, 2, 0]):
            seen = {}
            cells = [seen.setdefault(c, len(seen)) if c >= 0 else -1 for c in cells]
            m, n = {1: (1, 1), 2: (1, 2), 4: (2, 2), 6: (2, 3)}[len(cells)]
            lat = Lattice(m, n, cells)
            for order in itertools.permutations(range(lat.k)):
                df = table(lat, list(range(lat.k)), order, extra=True).reset_index(drop=True)
                path = os.path.join(d, "m.geojson")
                df.to_file(path, driver="GeoJSON")
                for cols in (None, ["b"], ["c", "region"]):
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        g = Graph.from_file(path, adjacency=p["adjacency"], cols_to_add=cols)
                    msgs = [str(w.message) for w in ws if "island" in str(w.message) or "overlap" in str(w.message)]
                    ids = [order.index(r) for r in range(lat.k)]
                    verify(ctx, g, msgs, lat, ids, p["adjacency"], order=order)
                    use = ["region", "b", "c", "geometry"] if cols is None else cols
                    for r in range(lat.k):
                        nd = g.nodes[ids[r]]
                        ctx.check(set(nd) - {"area", "boundary_node", "boundary_perim"} == set(use), "wrong columns from a file", got=sorted(nd), cols=cols)
                        for c, v in (("region", r * 11), ("b", "n%d" % r), ("c", r / 4)):
                            ctx.check(c not in use or nd[c] == v, "a node has another row's data (file)", node=ids[r], column=c)
                    import pyproj
                    ctx.check(pyproj.CRS.from_json(g.graph["crs"]).to_epsg() == 32618, "the file's CRS is not recorded")
                ctx.trace()
                ctx.state(tuple(cells), order)
        # the recorded coordinate system is that of the graph's own geometries: reprojected, kept, or none
        import pyproj
        path = os.path.join(d, "m.shp")
        for crs in ("EPSG:4326", "EPSG:4269", "EPSG:32618", None):
            deg = crs is not None and crs != "EPSG:32618"
            bs = [box(-75 + i / 8, 40, -75 + (i + 1) / 8, 40.125) if deg else box(500000 + i, 4000000, 500001 + i, 4000001) for i in range(3)]
            gp.GeoDataFrame({"x": range(3)}, geometry=bs, crs=crs).to_file(path)
            for reproject in (False, True) if crs else (False,):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    g = Graph.from_file(path, adjacency=p["adjacency"], reproject=reproject)
                    h = Graph.from_geodataframe(gp.read_file(path), adjacency=p["adjacency"], reproject=reproject)
                want = None if crs is None else pyproj.CRS.from_user_input("+proj=utm +zone=18 +ellps=WGS84 +datum=WGS84 +units=m +no_defs" if reproject else crs)
                for x in (g, h):
                    got = x.graph["crs"] and pyproj.CRS.from_json(x.graph["crs"])
                    ctx.check((got is None) == (want is None) and (want is None or got.equals(want, ignore_axis_order=True)), "the recorded coordinate system is not that of the graph's geometries", crs=str(crs), reproject=reproject, got=str(got))
                ctx.check(dict(g.nodes(data="area")) == dict(h.nodes(data="area")), "from_file and from_geodataframe disagree")
                ctx.trans()
        ctx.trace()
    finally:
        shutil.rmtree(d)


def case_misuse(ctx, p, tier):
    lat = Lattice(2, 2, [0, 1, 2, 3])
    df = table(lat, [0, 1, 2, 3], [0, 1, 2, 3])
    for bad in ("bishop", "", "Rook", None, "king"):
        try:
            Graph.from_geodataframe(df, adjacency=bad)
        except ValueError:
            pass
        else:
            raise Violation("an unknown adjacency rule was accepted", rule=repr(bad))
        ctx.trans()
    ctx.trace()
    ctx.state(1)
