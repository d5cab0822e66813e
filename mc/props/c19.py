"""C19 Graph data survives import, joining and saving unchanged."""
import copy, itertools, json, math, os, shutil, tempfile
import networkx as nx
import numpy as np
import pandas as pd
from shapely.geometry import LineString, MultiPolygon, Point, Polygon, box, mapping
from gerrychain import Graph, Partition
from mc.core import gen
from mc.core.explore import Violation

ID = "C19"
BOUNDS = {
    "quick": "JSON: every pair of values of a 22-value alphabet (None, booleans, integers incl. numpy/pandas ones and > 2^53, floats, strings, nested lists/objects) as node, edge and graph attributes on 1-3-node graphs, node ids int/str/numpy int, every pattern of geometry attributes, both geometry options, overwriting an existing file; tabular data: every row order of 3-row frames x every ordered column subset, every pair of consecutive add_data calls (column subsets), extra and missing rows; join: every combination of left key, right key, column subset, row order and key order, units sharing a row of the table in every row order; frozen graphs: every query on all graphs with <= 4 nodes, every node subset, every mutator; stars, wheels, paths and complete graphs with up to 3000 nodes",
    "thorough": "all triples of attribute values, frames with 4 rows, sequences of three add_data/join operations",
}
ASSUMPTIONS = ["attribute values are JSON-representable or numpy/pandas integers; node ids are strings or integers; node attributes are not called 'id'", "key values are unique", "geometry objects occur only as node attributes"]

VALUES = [None, True, False, 0, 1, -7, 2 ** 60 + 1, 0.5, -1e300, float("inf"), "", "é\"\\", "1", [], [1, "a", None], {"k": [1, {"z": False}]}, {}, np.int64(5), np.int32(-3), np.uint8(200), np.int64(2 ** 62), [np.int64(4), 2], {"type": "Point", "coordinates": [1, 2]}, "nan", {"type": "rural", "id": 4}]


def cases(tier):
    for ids in ("int", "str"):
        yield "many", dict(ids=ids)
    th = tier == "thorough"
    for i in range(len(VALUES)):
        yield "json", dict(first=i, triples=th)
    for ids in ("int", "str", "npint"):
        yield "geo", dict(ids=ids)
    for ids in ("int", "str", "npint", "neg"):
        for perm in itertools.permutations(range(3)):
            yield "add", dict(ids=ids, perm=list(perm))
            yield "join", dict(ids=ids, perm=list(perm))
    for n in (40, 120, 1100):
        for ids in ("int", "str"):
            yield "tall", dict(n=n, ids=ids)
    for ids in ("int", "str"):
        for perm in itertools.permutations(range(3)):
            yield "seq", dict(ids=ids, perm=list(perm), depth=3 if th else 2)
    for n in (1, 2, 3, 4):
        for e in gen.connected(n):
            for kind in ("int", "str", "tup"):
                yield "frozen", dict(n=n, edges=[list(x) for x in e], kind=kind)
    for shape, n in (("star", 400), ("wheel", 300), ("path", 3000), ("complete", 60)):
        for nodes in ("int", "str"):
            yield "frozenbig", dict(shape=shape, n=n, nodes=nodes)


def ids_of(kind, n):
    return [{"int": lambda i: i, "str": lambda i: "n%d" % i, "npint": lambda i: np.int64(10 + i), "neg": lambda i: [5, -1, 0][i]}[kind](i) for i in range(n)]


def plain(x):
    """Value with numpy integers replaced by Python ones."""
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def nid(v):
    return int(v) if isinstance(v, np.integer) else v


def same(a, b):
    """Equality that tells 1, 1.0, True and "1" apart (as JSON does)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b


def content(g, drop=()):
    return ({nid(v): {k: plain(x) for k, x in g.nodes[v].items() if k not in drop} for v in g.nodes},
            {frozenset((nid(a), nid(b))): {k: plain(x) for k, x in d.items()} for a, b, d in g.edges(data=True)},
            {k: plain(x) for k, x in g.graph.items()})


def compare(ctx, got, want, what, **info):
    for part, name in ((0, "nodes"), (1, "edges"), (2, "graph attributes")):
        if set(got[part]) != set(want[part]) or not all(same(got[part][k], want[part][k]) for k in want[part]):
            bad = [(repr(k), repr(got[part].get(k)), repr(want[part].get(k))) for k in set(got[part]) | set(want[part]) if k not in got[part] or k not in want[part] or not same(got[part][k], want[part][k])]
            raise Violation(what + ": " + name + " differ", differences=bad[:3], **info)


class Raw:
    """Snapshot for 'not changed in memory': same objects in the same places."""

    def __init__(self, g):
        self.nodes = {v: dict(g.nodes[v]) for v in g.nodes}
        self.edges = {frozenset(e): dict(g.edges[e]) for e in g.edges}
        self.graph = dict(g.graph)
        self.deep = copy.deepcopy((self.nodes, self.edges, self.graph))

    def check(self, ctx, g, what):
        ok = set(g.nodes) == set(self.nodes) and {frozenset(e) for e in g.edges} == set(self.edges)
        ok = ok and all(set(g.nodes[v]) == set(d) and all(g.nodes[v][k] is d[k] for k in d) for v, d in self.nodes.items())
        ok = ok and all(set(g.edges[tuple(e) if len(e) == 2 else tuple(e) * 2]) == set(d) for e, d in self.edges.items())
        ok = ok and set(g.graph) == set(self.graph) and all(g.graph[k] is self.graph[k] for k in self.graph)
        ok = ok and repr((self.nodes, self.edges, self.graph)) == repr(self.deep)
        ctx.check(ok, what + " changed the graph in memory", got=repr(dict(g.nodes(data=True)))[:300], want=repr(self.deep[0])[:300])


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c19-")
        return os.path.join(self.d, "g.json")

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def roundtrip(ctx, g, path, drop=(), want=None, **kw):
    raw = Raw(g)
    g.to_json(path, **kw)
    raw.check(ctx, g, "to_json")
    h = Graph.from_json(path)
    ctx.check(isinstance(h, Graph), "from_json does not give a Graph")
    compare(ctx, content(h), want or content(g, drop), "after saving and loading")
    ctx.trans()
    return h


def case_json(ctx, p, tier):
    x = VALUES[p["first"]]
    with Scratch() as path:
        for j, y in enumerate(VALUES):
            for ids in ("int", "str", "npint"):
                v = ids_of(ids, 3)
                g = Graph()
                g.add_node(v[2], a=x, b=y)
                g.add_node(v[0], **({"a": y} if j % 2 else {"a": y, "c d": x}))
                g.add_node(v[1])
                g.add_edge(v[2], v[0], w=x, shared_perim=y)
                if j % 3:
                    g.add_edge(v[0], v[1], w=y)
                if j % 4 == 0:
                    g.graph["crs"] = y if isinstance(y, str) else "x"
                    g.graph["note"] = x
                with open(path, "w") as f:
                    f.write("x" * 5000)
                h = roundtrip(ctx, g, path)
                # a second trip changes nothing
                roundtrip(ctx, h, path)
                ctx.trace()
                ctx.state(p["first"], j, ids)
            if p["triples"]:
                for z in VALUES:
                    g = Graph()
                    g.add_edge(0, 1, w=z)
                    g.nodes[0].update(a=x, b=y)
                    g.nodes[1].update(a=z)
                    roundtrip(ctx, g, path)
                    ctx.trace()


GEOMS = [box(0, 0, 1, 2), Point(1, 2), LineString([(0, 0), (1, 1)]), MultiPolygon([box(0, 0, 1, 1), box(3, 3, 4, 5)]), Polygon([(0, 0), (4, 0), (4, 4)], [[(2, 1), (3, 1), (3, 2)]])]


def case_geo(ctx, p, tier):
    """Every pattern of which of two attributes of three nodes are geometries."""
    with Scratch() as path:
        for pat in itertools.product((0, 1), repeat=6):
            for incl in (False, True):
                v = ids_of(p["ids"], 3)
                g = Graph()
                geoms = {}
                for i in range(3):
                    d = {"pop": 3 + i}
                    for j, name in enumerate(("geometry", "shape")):
                        if pat[2 * i + j]:
                            d[name] = GEOMS[(i * 2 + j + sum(pat)) % len(GEOMS)]
                            geoms[i, name] = d[name]
                        elif (i + j) % 2:
                            d[name] = "text"
                    d["last"] = None
                    g.add_node(v[i], **d)
                g.add_edge(v[0], v[1], shared_perim=1.5)
                g.add_edge(v[1], v[2])
                want = content(g)
                for (i, name), s in geoms.items():
                    if incl:
                        want[0][nid(v[i])][name] = json.loads(json.dumps(mapping(s)))
                    else:
                        del want[0][nid(v[i])][name]
                kw = {"include_geometries_as_geojson": True} if incl else {}
                roundtrip(ctx, g, path, want=want, **kw)
                ctx.trace()
                ctx.state(pat, incl)


# ------------------------------------------------------------------ tabular data
COLS = {"a": [11, 12, 13, 14], "b": ["x", None, "z", "w"], "c": [0.5, float("nan"), 2.0, 3.0]}


def base(kind, n=3):
    v = ids_of(kind, n)
    g = Graph()
    for i, x in enumerate(v):
        g.add_node(x, b="old%d" % i, keep=i, key="k%d" % ((i + 1) % n), num=30 + (2 * i) % n)
    for i in range(n - 1):
        g.add_edge(v[i], v[i + 1], w=i)
    return g, v


def frame(v, rows, extra=False):
    """rows: positions of nodes in row order."""
    idx = [v[i] for i in rows]
    cols = {k: [COLS[k][i] for i in rows] for k in COLS}
    cols["rk"] = ["k%d" % ((i + 1) % len(v)) for i in rows]       # matches the node attribute 'key'
    cols["rn"] = [30 + (2 * i) % len(v) for i in rows]            # matches 'num'
    cols["rowno"] = list(range(len(rows)))
    if extra:
        idx = [("zz" if isinstance(v[0], str) else 999)] + idx
        for k in cols:
            cols[k] = [{"a": -1, "b": "extra", "c": -1.0, "rk": "none", "rn": -5, "rowno": -9}[k]] + cols[k]
    return pd.DataFrame(cols, index=idx)


def subsets(cols):
    yield None
    for r in range(0, len(cols) + 1):
        yield from (list(x) for x in itertools.permutations(cols, r))


def eqv(a, b):
    return (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)) or (a == b and isinstance(a, str) == isinstance(b, str))


def expect_nodes(ctx, g, want, what, **info):
    for v in want:
        got = dict(g.nodes[v])
        if set(got) != set(want[v]) or not all(eqv(got[k], want[v][k]) for k in got):
            raise Violation(what, node=repr(v), got=repr(got), want=repr(want[v]), **info)
    ctx.check(set(g.nodes) == set(want), "nodes were added or removed", **info)


def case_add(ctx, p, tier):
    for cols in subsets(["a", "b", "c"]):
        for extra, kind in ((False, list), (True, list), (False, tuple), (True, iter)):
            for missing in (False, True):
                g, v = base(p["ids"])
                rows = p["perm"][: 2 if missing else 3]
                df = frame(v, rows, extra)
                keepdf = df.copy(deep=True)
                edges = {frozenset(e): dict(g.edges[e]) for e in g.edges}
                want = {x: dict(g.nodes[x]) for x in v}
                use = list(df.columns) if cols is None else cols
                for x in v:
                    if x in df.index:
                        want[x].update({c: df.loc[x, c] for c in use})
                if cols is None:
                    g.add_data(df)
                else:
                    g.add_data(df, columns=kind(list(cols)))         # any iterable of names
                ctx.trans()
                info = dict(columns=cols, rows=[str(i) for i in df.index], extra=extra, missing=missing)
                expect_nodes(ctx, g, want, "add_data: a node does not have exactly the requested columns of its row", **info)
                ctx.check({frozenset(e): dict(g.edges[e]) for e in g.edges} == edges, "add_data changed edges", **info)
                ctx.check(df.equals(keepdf), "add_data changed the table", **info)
                ctx.trace()
                ctx.state(str(cols), tuple(p["perm"]), extra, missing)


def case_join(ctx, p, tier):
    for cols in subsets(["a", "b", "c"]):
        for left, right in itertools.product((None, "key", "num"), (None, "rk", "rn")):
            for extra in (False, True):
                g, v = base(p["ids"])
                df = frame(v, p["perm"], extra)
                # key values of nodes and rows
                lk = {x: (x if left is None else g.nodes[x][left]) for x in v}
                rows = {(df.index[i] if right is None else df[right].iloc[i]): i for i in range(len(df))}
                if not all(k in rows for k in lk.values()):
                    # make the table's index carry the keys instead
                    if right is None:
                        df.index = pd.Index([lk.get(x, x) if x in lk else "none" if left == "key" else -5 for x in df.index])
                        rows = {df.index[i]: i for i in range(len(df))}
                    else:
                        continue
                if not all(k in rows for k in lk.values()):
                    continue
                keepdf = df.copy(deep=True)
                edges = {frozenset(e): dict(g.edges[e]) for e in g.edges}
                use = [c for c in df.columns if c != right] if cols is None else cols
                want = {x: dict(g.nodes[x]) for x in v}
                for x in v:
                    want[x].update({c: df[c].iloc[rows[lk[x]]] for c in use})
                g.join(df, columns=None if cols is None else list(cols), left_index=left, right_index=right)
                ctx.trans()
                info = dict(columns=cols, left=left, right=right, rows=[str(i) for i in df.index], extra=extra)
                expect_nodes(ctx, g, want, "join: a node does not have exactly the requested columns of its matching row", **info)
                ctx.check({frozenset(e): dict(g.edges[e]) for e in g.edges} == edges, "join changed edges", **info)
                ctx.check(df.equals(keepdf), "join changed the table", **info)
                ctx.trace()
                ctx.state(str(cols), left, right, extra, tuple(p["perm"]))


def case_many(ctx, p, tier):
    """Tables of fewer rows than the graph has units: several units match one row."""
    n = 5
    for counties in ([0, 0, 1, 1, 0], [0, 0, 0, 0, 0], [2, 1, 0, 1, 2], [1, 0, 0, 2, 3]):
        for kind in ("str", "int", "bool"):
            name = {"str": lambda c: "c%d" % c, "int": lambda c: 10 * c, "bool": lambda c: c > 0}[kind]
            keys = sorted({name(c) for c in counties})
            for rows in itertools.permutations(keys):
                for right in (None, "rk"):
                    for cols in (None, ["rate"], ["seat", "rate"]):
                        v = ids_of(p["ids"], n)
                        g = Graph()
                        g.add_nodes_from(v)
                        g.add_edges_from(zip(v, v[1:]))
                        for i, x in enumerate(v):
                            g.nodes[x].update(key=name(counties[i]), keep=-i)
                        df = pd.DataFrame({"rate": [keys.index(r) + 0.5 for r in rows], "seat": ["s%s" % r for r in rows]})
                        if right is None:
                            df.index = pd.Index(list(rows))
                        else:
                            df["rk"] = list(rows)
                        keep = df.copy(deep=True)
                        want = {x: dict(g.nodes[x]) for x in v}
                        for i, x in enumerate(v):
                            r = name(counties[i])
                            want[x].update({c: {"rate": keys.index(r) + 0.5, "seat": "s%s" % r}[c] for c in cols or ["rate", "seat"]})
                        g.join(df, columns=cols, left_index="key", right_index=right)
                        ctx.trans()
                        expect_nodes(ctx, g, want, "join: units of one county do not all have their county's row", counties=counties, rows=[str(r) for r in rows], right=right, columns=cols, names=kind)
                        ctx.check(df.equals(keep), "join changed the table")
                        ctx.trace()
                        ctx.state(tuple(counties), kind, tuple(rows), right, str(cols), p["ids"])


def case_tall(ctx, p, tier):
    """Tables of hundreds of rows in several orders, added, joined by index and by column."""
    n, ids = p["n"], p["ids"]
    v = ids_of("int" if ids == "int" else "str", n)
    orders = {"sorted": list(range(n)), "reversed": list(range(n))[::-1], "odd first": list(range(1, n, 2)) + list(range(0, n, 2)), "by seven": sorted(range(n), key=lambda i: (i * 7 % n, i))}
    for oname, rows in orders.items():
        for how, extra in itertools.product(("add", "add some", "join", "join key", "join num", "join index key"), (0, 5)):
            g = Graph()
            g.add_nodes_from(v)
            g.add_edges_from(zip(v, v[1:]))
            for i, x in enumerate(v):
                g.nodes[x].update(key="k%d" % (i * 3 % n if n % 3 else i), num=5 * i, keep=-i)
            key = [g.nodes[x]["key"] for x in v]
            frame_ = pd.DataFrame({"val": [i * i - 7 for i in rows], "txt": ["t%d" % i for i in rows], "gone": [float(i) if i % 3 else float("nan") for i in rows], "rk": [key[i] for i in rows], "rn": [5 * i for i in rows]}, index=[v[i] for i in rows])
            if extra:
                more = pd.DataFrame({"val": [-1] * extra, "txt": ["zz"] * extra, "gone": [0.5] * extra, "rk": ["none%d" % j for j in range(extra)], "rn": [-1 - j for j in range(extra)]}, index=[10 ** 6 + j if ids == "int" else "zz%d" % j for j in range(extra)])
                frame_ = pd.concat([more.iloc[:2], frame_.iloc[: n // 2], more.iloc[2:], frame_.iloc[n // 2:]])
            keep = frame_.copy(deep=True)
            want = {x: dict(g.nodes[x]) for x in v}
            full = ["val", "txt", "gone", "rk", "rn"]
            vals = lambda i: {"val": i * i - 7, "txt": "t%d" % i, "gone": float(i) if i % 3 else float("nan"), "rk": key[i], "rn": 5 * i}
            cols = {"add": full, "add some": ["gone", "val"], "join": full, "join key": [c for c in full if c != "rk"], "join num": ["txt", "val"], "join index key": ["val", "gone"]}[how]
            if how == "add":
                g.add_data(frame_)
            elif how == "add some":
                g.add_data(frame_, columns=["gone", "val"])
            elif how == "join":
                g.join(frame_)
            elif how == "join key":
                g.join(frame_, left_index="key", right_index="rk")
            elif how == "join num":
                g.join(frame_, columns=["txt", "val"], left_index="num", right_index="rn")
            else:
                g.join(frame_.set_index("rk"), columns=["val", "gone"], left_index="key")
            for i, x in enumerate(v):
                want[x].update({c: vals(i)[c] for c in cols})
            expect_nodes(ctx, g, want, "a node of a tall table does not have exactly its row's data", how=how, order=oname, extra=extra)
            ctx.check(frame_.equals(keep), "the caller's table was changed", how=how)
            ctx.check(g.number_of_edges() == n - 1, "edges were changed", how=how)
            ctx.trans()
            ctx.trace()
            ctx.state(n, ids, oname, how, extra)


def case_seq(ctx, p, tier):
    """Sequences of add_data / join / save-and-load."""
    ops = [("add", s) for s in (None, ["a"], ["b"], ["c", "a"], ["a", "b", "c"])] + [("join", s) for s in (["a"], ["b", "c"])] + [("json", None)]
    with Scratch() as path:
        for word in itertools.product(range(len(ops)), repeat=p["depth"]):
            g, v = base(p["ids"])
            want = {x: dict(g.nodes[x]) for x in v}
            for k, o in enumerate(word):
                kind, cols = ops[o]
                perm = p["perm"] if k % 2 == 0 else p["perm"][::-1]
                df = frame(v, perm, extra=False)
                df["a"] = df["a"] + 100 * k
                if kind == "json":
                    g.to_json(path)
                    g = Graph.from_json(path)
                elif kind == "add":
                    g.add_data(df, columns=cols)
                    for x in v:
                        want[x].update({c: df.loc[x, c] for c in (cols or df.columns)})
                else:
                    g.join(df, columns=cols, left_index="key", right_index="rk")
                    for x in v:
                        i = list(df["rk"]).index(want[x]["key"])
                        want[x].update({c: df[c].iloc[i] for c in cols})
                ctx.trans()
                expect_nodes(ctx, g, want, "after a sequence of operations a node's data is wrong", word=[ops[i] for i in word[: k + 1]])
            ctx.trace()
            ctx.state(word)


# ------------------------------------------------------------------ frozen graphs
def case_frozenbig(ctx, p, tier):
    """Nodes with hundreds of neighbours, maps with thousands of nodes."""
    kind, n = p["shape"], p["n"]
    edges = {"star": gen.star, "path": gen.path, "complete": gen.complete, "wheel": lambda n: [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)]}[kind](n)
    lab = [(7 * i) % n + 1000 for i in range(n)] if p["nodes"] == "int" else ["v%d" % ((7 * i) % n) for i in range(n)]
    from gerrychain import Graph
    g = Graph()
    for i in range(n):
        g.add_node(lab[i], pop=3 * i, zero=0)
    for i, j in edges:
        g.add_edge(lab[i], lab[j], w=i * n + j)
    f = Partition(g, {l: i % 2 for i, l in enumerate(lab)}, updaters={}, use_default_updaters=False).graph
    ng = gen.adj(edges, n)
    for r in range(2):
        for name, keep in (("whole", range(n)), ("half", range(0, n, 2)), ("third", range(0, n, 3)), ("tail", range(n // 2, n))):
            sub = set(keep)
            s = f if name == "whole" else f.subgraph([lab[i] for i in keep])
            info = dict(shape=kind, n=n, part=name, round=r)
            ctx.check(len(s) == len(sub) and set(s.nodes) == {lab[i] for i in sub} == set(s.node_indices) == set(s), "wrong nodes", **info)
            es = {frozenset((lab[i], lab[j])): i * n + j for i, j in edges if i in sub and j in sub}
            ctx.check({frozenset(e) for e in s.edges} == set(es) == {frozenset(e) for e in s.edge_indices}, "wrong edges", **info)
            for i in sub:
                wn = {lab[j] for j in ng[i] if j in sub}
                got = list(s.neighbors(lab[i]))
                ctx.check(set(got) == wn and len(got) == len(wn), "wrong neighbours", node=lab[i], **info)
                ctx.check(s.degree(lab[i]) == len(wn) and set(s[lab[i]]) == wn, "wrong degree", node=lab[i], **info)
                ctx.check(s.lookup(lab[i], "pop") == 3 * i and s.lookup(lab[i], "zero") == 0 and s.nodes[lab[i]]["pop"] == 3 * i, "wrong attribute", node=lab[i], **info)
            ctx.check(all(s.edges[tuple(e)]["w"] == v for e, v in es.items()), "wrong edge attribute", **info)
            ctx.check(set(s.islands) == {lab[i] for i in sub if not (ng[i] & sub)}, "wrong islands", **info)
            ctx.trans(len(sub))
            ctx.state(kind, n, name)
    ctx.trace()


def case_frozen(ctx, p, tier):
    n = p["n"]
    edges = [tuple(e) for e in p["edges"]]
    lab = gen.labels(p["kind"], n)
    mk = lambda off: gen.build(edges, n, p["kind"], attrs={"pop": [off + i for i in range(n)], "zero": [0] * n}, eattrs={"w": lambda i, j: off + i * 10 + j})
    idx = {l: i for i, l in enumerate(lab)}
    ng = gen.adj(edges, n)
    fs = []
    for off in (1, 50):
        part = Partition(mk(off), {l: 0 if i == 0 else 1 for i, l in enumerate(lab)}, updaters={}, use_default_updaters=False)
        fs.append((off, part.graph))
    es = {frozenset((lab[i], lab[j])) for i, j in edges}

    def verify(f, off, nodes, what):
        sub = {i for i in range(n) if lab[i] in nodes}
        info = dict(what=what, graph=edges, nodes=sorted(sub))
        ctx.check(len(f) == len(sub), "wrong size", got=len(f), **info)
        ctx.check(set(f) == set(nodes) and set(f.nodes) == set(nodes) and set(f.node_indices) == set(nodes), "wrong nodes", **info)
        ctx.check(len(list(f)) == len(sub), "a node is listed twice", **info)
        we = {frozenset((lab[i], lab[j])) for i, j in edges if i in sub and j in sub}
        ctx.check({frozenset(e) for e in f.edges} == we and {frozenset(e) for e in f.edge_indices} == we and len(list(f.edges)) == len(we), "wrong edges", **info)
        for x in nodes:
            i = idx[x]
            wn = {lab[j] for j in ng[i] if j in sub}
            ctx.check(set(f.neighbors(x)) == wn and len(list(f.neighbors(x))) == len(wn), "wrong neighbours", node=repr(x), got=repr(f.neighbors(x)), **info)
            ctx.check(f.degree(x) == len(wn), "wrong degree", node=repr(x), **info)
            ctx.check(f.lookup(x, "pop") == off + i and f.lookup(x, "zero") == 0 and f.nodes[x]["pop"] == off + i, "wrong attribute", node=repr(x), got=f.lookup(x, "pop"), **info)
            ctx.check(x in f.nodes and set(f[x]) == wn, "wrong adjacency", node=repr(x), **info)
        for i, j in edges:
            if i in sub and j in sub:
                ctx.check(f.edges[lab[i], lab[j]]["w"] == off + i * 10 + j, "wrong edge attribute", **info)
        ctx.check(set(f.islands) == {lab[i] for i in sub if not (ng[i] & sub)}, "wrong islands", **info)
        ctx.trans()
    for r in range(2):          # twice: cached answers are the same
        for off, f in fs:
            verify(f, off, set(lab), "frozen graph")
            for k in range(0, n + 1):
                for sub in itertools.combinations(lab, k):
                    verify(f.subgraph(sub), off, set(sub), "subgraph")
                    verify(f.subgraph(frozenset(sub)), off, set(sub), "subgraph of subgraph") if k else None
                    if k >= 2:
                        verify(f.subgraph(sub).subgraph(sub[1:]), off, set(sub[1:]), "subgraph of subgraph")
    muts = {
        "add_node": lambda f: f.add_node("new"), "add_nodes_from": lambda f: f.add_nodes_from(["new"]), "remove_node": lambda f: f.remove_node(lab[0]),
        "remove_nodes_from": lambda f: f.remove_nodes_from([lab[0]]), "add_edge": lambda f: f.add_edge(lab[0], "new"), "add_edges_from": lambda f: f.add_edges_from([(lab[0], "new")]),
        "remove_edge": lambda f: f.remove_edge(*next(iter(f.edges))), "remove_edges_from": lambda f: f.remove_edges_from(list(f.edges)), "clear": lambda f: f.clear(),
        "add_data": lambda f: f.add_data(pd.DataFrame({"pop": [9] * n}, index=lab if p["kind"] != "tup" else list(range(n)))), "join": lambda f: f.join(pd.DataFrame({"pop": [9] * n}, index=list(range(n)))),
        "underlying add_node": lambda f: f.graph.add_node("new"), "underlying remove_node": lambda f: f.graph.remove_node(lab[0]),
        "underlying add_data": lambda f: f.graph.add_data(pd.DataFrame({"pop": [9] * n}, index=list(range(n)))),
    }
    for name, f in muts.items():
        for off, fr in fs:
            if "edge" in name and name.startswith("remove") and not edges:
                continue
            try:
                f(fr)
            except Exception:
                pass
            else:
                raise Violation("a graph used by a plan can be changed", mutator=name, graph=edges)
            verify(fr, off, set(lab), "after " + name)
    # plain networkx input: later changes to the original do not reach the plan
    h = nx.Graph()
    for i, l in enumerate(lab):
        h.add_node(l, pop=1 + i, zero=0)
    for i, j in edges:
        h.add_edge(lab[i], lab[j], w=1 + i * 10 + j)
    part = Partition(h, {l: 0 for l in lab}, updaters={}, use_default_updaters=False)
    gg = Graph.from_networkx(h)
    compare(ctx, content(gg), content(h), "from_networkx")
    gg.add_node("extra")
    gg.nodes[lab[0]]["pop"] = -1
    ctx.check("extra" not in h and h.nodes[lab[0]]["pop"] == 1, "changing the converted graph changes the original")
    verify(part.graph, 1, set(lab), "plan on a networkx graph")
    # nodes joined to themselves: every answer is that of the graph the plan was made with
    for loops in itertools.product((0, 1), repeat=n) if n <= 3 else [(1,) + (0,) * (n - 1)]:
        h = nx.Graph()
        h.add_nodes_from(lab)
        h.add_edges_from([(lab[i], lab[j]) for i, j in edges] + [(lab[i], lab[i]) for i in range(n) if loops[i]])
        f = Partition(h, {l: 0 for l in lab}, updaters={}, use_default_updaters=False).graph
        info = dict(graph=edges, loops=loops)
        ctx.check({frozenset(e) for e in f.edges} == {frozenset(e) for e in h.edges} == {frozenset(e) for e in f.edge_indices} and len(list(f.edges)) == h.number_of_edges(), "wrong edges (graph with loops)", **info)
        for x in lab:
            ctx.check(set(f.neighbors(x)) == set(h.neighbors(x)) and f.degree(x) == h.degree(x), "wrong neighbours or degree (graph with loops)", node=repr(x), got=repr((f.neighbors(x), f.degree(x))), **info)
        ctx.trans()
    ctx.trace()
    ctx.state(tuple(edges), p["kind"])
