"""C26 Every export and plot of a plan shows exactly its districts."""
import itertools, warnings
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import geopandas as gp
import pandas as pd
from shapely.geometry import MultiPolygon, box
from gerrychain import Graph, Partition
from mc.core import gen, hist
from mc.core.explore import Violation

ID = "C26"
BOUNDS = {
    "quick": "exports: all flip histories of depth 2 on all connected graphs with <= 3 nodes (every flips dictionary) and of single flips with 4 nodes, 2-3 districts, emptied districts included, histories on grids to 8x8 and a 40-node path with up to 12 districts, paths with up to 90 districts, node labels int/str/reversed/tuple, four kinds of district labels; each export changed by the caller afterwards; plots: every plan with 1-3 districts of a 2x2 map and 2-district plans of a 2x3 map (one unit in two pieces), every row order of the 2x2 geometries, table / series / graph's own geometries / tables whose active geometry column has another name, initial and flipped plans, integer and text labels; every missing or foreign row refused",
    "thorough": "depth 3, all row orders of 5-unit maps, 4 districts",
}
ASSUMPTIONS = ["plots: the picture geopandas/matplotlib draw is read back from the axes (one shape per polygon, its colour); districts of one plan are told apart by colour, so the colour map must have enough colours for the labels"]


def cases(tier):
    th = tier == "thorough"
    for p in hist.configs(tier, 2):
        if p["mode"] == "tree" and p["n"] <= 4 and (p["depth"] <= 2 or p["n"] <= 2):
            yield "export", p
        elif p["mode"] == "cover" and p["n"] <= (4 if th else 3) or p["mode"] == "sweep":
            yield "export", p
    for n, k in ((40, 20), (60, 30), (90, 90), (150, 60)):
        for text in (False, True):
            yield "many", dict(n=n, k=k, text=text, nodes="rev" if text else "int")
    for k in (1, 2, 3) + ((4,) if th else ()):
        for a in gen.surjections(4, k):
            yield "plot", dict(m=2, n=2, a=list(a), k=k, perms="all")
    for a in gen.surjections(5, 2):
        yield "plot", dict(m=2, n=3, a=list(a), k=2, perms="all" if th else "some")


# ------------------------------------------------------------------ dictionaries and series
def look(ctx, w, part, a, h, again):
    want = w.assignment(a)
    asg = part.assignment
    info = dict(history=h, plan=a, read_again=again)
    out = {}
    d = asg.to_dict()
    ctx.eq(dict(d), want, "to_dict() does not show the plan", **info)
    s = asg.to_series()
    ctx.check(len(s) == w.n and s.index.is_unique, "to_series() does not list every node once", got=repr(s), **info)
    got = {(tuple(x) if w.kind == "tup" else x): y for x, y in s.items()}
    ctx.eq(got, want, "to_series() does not show the plan", **info)
    ctx.eq(dict(zip(list(asg.keys()), list(asg.values()))), want, "keys() and values() do not go together", **info)
    ctx.eq(dict(asg.items()), want, "items() does not show the plan", **info)
    ctx.eq(dict(zip(list(asg), [asg[v] for v in asg])), want, "iterating does not go over the nodes", **info)
    ctx.check(len(list(asg)) == w.n and len(asg) == w.n, "an assignment's length is not the number of nodes", **info)
    for v in w.lab:
        ctx.check(v in asg and asg.get(v) == want[v], "membership or get() of a node", node=repr(v), **info)
    ctx.check("no such node" not in asg and asg.get("no such node", "none") == "none", "a foreign node is in the assignment", **info)
    ctx.eq({d2: set(x) for d2, x in part.parts.items() if x}, {w.dl[i]: w.nodes_of(a, i) for i in range(w.k) if w.nodes_of(a, i)}, "parts do not show the plan", **info)
    n = len({x for x in a})
    ctx.check(n <= len(part) <= w.k, "len(plan) is not its number of districts", got=len(part), **info)
    ctx.check("%d part" % len(part) in repr(part), "repr of a plan", got=repr(part), **info)
    # the caller may do what it likes with what it was given
    d = asg.to_dict()
    for i, v in enumerate(w.lab):
        d[v] = w.dl[(a[i] + 1) % w.k]
    d["no such node"] = w.dl[0]
    s.iloc[:] = s.iloc[0]


def case_export(ctx, p, tier):
    w = hist.World(p)

    def root():
        return Partition(w.graph(), w.assignment())

    def check(part, a, pa, h):
        look(ctx, w, part, a, h, False)
        look(ctx, w, part, a, h, True)
        for i, j in w.edges:
            ctx.check(bool(part.crosses_parts((w.lab[i], w.lab[j]))) == (a[i] != a[j]), "crosses_parts after exporting", history=h)
    hist.drive(ctx, p, w, root, check)


def case_many(ctx, p, tier):
    """Plans with dozens of districts, single-unit ones among them, initially and after flips."""
    n, k = p["n"], p["k"]
    for a0 in ([i * k // n for i in range(n)], [min(i, k - 1) for i in range(n)], [max(0, i - (n - k)) for i in range(n)], [i * 7 % k for i in range(n)]):
        w = hist.World(dict(edges=gen.path(n), n=n, k=k, a0=a0, nodes=p["nodes"]))
        w.dl = ["d%d" % (i * 5 % k if k % 5 else i) for i in range(k)] if p["text"] else [3 * k - 2 * i for i in range(k)]
        part, a = Partition(w.graph(), w.assignment()), w.a0
        look(ctx, w, part, a, "initial", False)
        for f in (((0, k - 1),), tuple((i, 1) for i in range(n // 2)), ((n - 1, 0), (n - 2, 0), (1, k - 1)), tuple((i, i % k) for i in range(n))):
            part, a = part.flip(w.flips(f)), gen.apply(a, f)
            look(ctx, w, part, a, f[:5], False)
            look(ctx, w, part, a, f[:5], True)
            ctx.trans()
            ctx.state(a)
        ctx.trace()


# ------------------------------------------------------------------ plots
def units(m, n):
    cell = lambda i, j: box(2 * j, 3 * i, 2 * j + 2, 3 * i + 3)
    out = [cell(i, j) for i in range(m) for j in range(n)]
    if (m, n) == (2, 3):          # the first and last cells form one unit
        out = [MultiPolygon([out[0], out[5]])] + out[1:5]
    return out


def picture(ax):
    """{(x, y) of the lower left corner of a drawn rectangle: colour}"""
    ax.figure.canvas.draw()
    out = {}
    for c in ax.collections:
        cols = c.get_facecolors()
        for i, path in enumerate(c.get_paths()):
            v = path.vertices
            key = (round(float(v[:, 0].min()), 6), round(float(v[:, 1].min()), 6))
            if key in out:
                raise Violation("a unit was drawn twice", at=key)
            out[key] = tuple(cols[i % len(cols)])
    return out


def pieces(g):
    return [(q.bounds[0], q.bounds[1]) for q in getattr(g, "geoms", [g])]


def case_plot(ctx, p, tier):
    geoms = units(p["m"], p["n"])
    N = len(geoms)
    a = tuple(p["a"])
    perms = list(itertools.permutations(range(N)))
    if p["perms"] != "all":
        perms = perms[::17]
    flips = [f for f in gen.single_flips(N, p["k"])]
    for kind, dl in (("int", [3, 1, 2, 4]), ("str", ["north", "a", "b", "c"])):
        ids = [7, 2, 9, 4, 5] if kind == "int" else ["u3", "u1", "u4", "u0", "u2"]
        for pi, perm in enumerate(perms):
            frame = gp.GeoDataFrame({"name": ["x%d" % i for i in perm], "assignment": [0] * N}, geometry=[geoms[i] for i in perm], index=[ids[i] for i in perm], crs="EPSG:32618")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = Graph.from_geodataframe(frame.iloc[::-1] if pi % 2 else frame)
            part = Partition(g, {ids[i]: dl[a[i]] for i in range(N)}, updaters={}, use_default_updaters=True)
            b = a
            if pi % 3 and flips:
                f = flips[pi % len(flips)]
                part = part.flip({ids[i]: dl[x] for i, x in f})
                b = gen.apply(a, f)
            source = ("frame", "series", "own", "other geometry", "renamed geometry")[(pi + (kind == "int")) % 5]
            if source == "renamed geometry":
                frame = frame.rename_geometry("shape")
            elif source == "other geometry":          # the table's active geometries are not in the column called geometry
                frame = frame.assign(active=frame.geometry, geometry=frame.geometry.translate(100, 0)).set_geometry("active")
            arg = {"series": (frame.geometry,), "own": ()}.get(source, (frame,))
            keep = frame.copy(deep=True)
            fig, ax0 = plt.subplots()
            try:
                ax = part.plot(*arg, ax=ax0, cmap="tab10")
                pic = picture(ax)
            finally:
                plt.close(fig)
            ctx.trans()
            ctx.trace()
            ctx.state(a, kind, perm)
            info = dict(plan=b, order=perm, source=source, labels=kind)
            ctx.check(frame.equals(keep), "plotting changed the caller's table", **info)
            ctx.check(set(pic) == {x for q in geoms for x in pieces(q)}, "the plot does not show every unit", got=sorted(pic), **info)
            colour = {}
            for i in range(N):
                cs = {pic[x] for x in pieces(geoms[i])}
                ctx.check(len(cs) == 1, "one unit in two colours", **info)
                colour.setdefault(b[i], set()).update(cs)
            ctx.check(all(len(c) == 1 for c in colour.values()), "a district is drawn in two colours", colours=repr(colour), **info)
            ctx.check(len({next(iter(c)) for c in colour.values()}) == len(colour), "two districts are drawn in one colour", colours=repr(colour), **info)
            # geometries of other units are refused
            if pi == 0:
                extra = gp.GeoDataFrame({"name": ["more"], "assignment": [0]}, geometry=[box(50, 50, 51, 51)], index=[99 if kind == "int" else "zz"], crs=frame.crs)
                for bad in [pd.concat([frame, extra]), pd.concat([extra, frame]), pd.concat([frame, extra]).drop(frame.index[0])] + [frame.drop(v) for v in frame.index] + [frame.rename(index={v: 99 if kind == "int" else "zz"}) for v in frame.index]:
                    for q in (bad, bad.geometry):
                        try:
                            part.plot(q)
                        except TypeError:
                            ctx.trans()
                        else:
                            plt.close("all")
                            raise Violation("geometries that are not those of the nodes were plotted", index=repr(list(bad.index)))
