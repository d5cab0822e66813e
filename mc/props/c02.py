"""C02 Plans and their districts stay consistent under every history of flips."""
import itertools, json, os, tempfile
import networkx as nx
import pandas
from gerrychain import Graph, Partition, GeographicPartition
from gerrychain.partition.assignment import Assignment
from mc.core import gen, hist, walk
from mc.core.explore import Violation

ID = "C02"
BOUNDS = hist.BOUNDS
ASSUMPTIONS = ["flips go to districts the plan already has", "an emptied district may be listed as empty or left out"]


def cases(tier):
    for n in (2, 3, 4):
        for e in gen.connected(n):
            for k in (1, 2, 3):
                for a in gen.set_partitions(n, k):
                    for kind in ("int", "str", "rev", "tup", "neg"):
                        yield "build", dict(edges=e, n=n, k=k, a0=a, nodes=kind, parts=["int", "str", "mix"][k - 1] if kind != "neg" else "neg")
    for p in hist.configs(tier):
        if tier == "thorough" or p["mode"] != "path" or p["n"] < 3:
            yield "walk", p


def check_plan(ctx, w, part, a, hist_, graph_edges=None):
    want = w.assignment(a)
    asg = part.assignment
    ctx.eq(dict(asg.items()), want, "assignment items differ from overwriting a dictionary", history=hist_)
    ctx.eq({v: asg[v] for v in w.lab}, want, "assignment[node] differs from overwriting a dictionary", history=hist_)
    ctx.eq(dict(asg), want, "dict(assignment) differs from overwriting a dictionary", history=hist_)
    ctx.eq(dict(asg.to_dict()), want, "assignment.to_dict() differs", history=hist_)
    ctx.eq(sorted(map(repr, asg.keys())), sorted(map(repr, w.lab)), "assignment keys are not the nodes", history=hist_)
    ctx.eq(len(asg), w.n, "assignment length", history=hist_)
    parts = {d: set(s) for d, s in part.parts.items()}
    ctx.eq({d: s for d, s in parts.items() if s},
           {w.dl[d]: w.nodes_of(a, d) for d in range(w.k) if w.nodes_of(a, d)},
           "parts are not the inverse of the assignment", history=hist_)
    ctx.check(sum(len(list(s)) for s in part.parts.values()) == w.n, "a node is listed in two districts", history=hist_)
    for d in range(w.k):
        ns = w.nodes_of(a, d)
        if not ns:
            continue
        sg = part.subgraphs[w.dl[d]]
        ctx.eq(set(sg.nodes), ns, "subgraph of a district has other nodes than the district", history=hist_)
        ctx.eq({frozenset(e) for e in sg.edges},
               {frozenset((w.lab[i], w.lab[j])) for i, j in w.edges if a[i] == d and a[j] == d},
               "subgraph of a district is not the induced subgraph", history=hist_)
    listed = {d: set(sg.nodes) for d, sg in part.subgraphs.items()}
    ctx.eq({d: s for d, s in listed.items() if s}, {d: s for d, s in parts.items() if s}, "subgraphs.items() disagrees with parts", history=hist_)
    for i, j in w.edges:
        ctx.eq(bool(part.crosses_parts((w.lab[i], w.lab[j]))), a[i] != a[j], "crosses_parts is wrong", history=hist_)


def case_walk(ctx, p, tier):
    w = hist.World(p)
    mine = w.assignment()
    g0 = w.graph()
    nodes0, edges0 = set(g0.nodes), {frozenset(e) for e in g0.edges}

    def root():
        return Partition(w.graph(), mine)

    def check(part, a, pa, h):
        check_plan(ctx, w, part, a, h)
        if pa is not None and isinstance(h[-1], tuple):
            ctx.eq({k: v for k, v in part.flips.items()}, w.flips(h[-1]), "flips of the plan differ from those given", history=h)
        ctx.check(mine == w.assignment(), "the caller's assignment dictionary was changed", history=h)
        ctx.check(set(part.graph.nodes) == nodes0 and {frozenset(e) for e in part.graph.edges} == edges0 and len(part.graph) == w.n,
                  "the graph was changed by flipping", history=h)
    hist.drive(ctx, p, w, root, check)


def case_build(ctx, p, tier):
    w = hist.World(p)
    want = w.assignment()
    attr = [want[v] for v in w.lab]
    w.attrs = {"district": attr, "id": ["id%d" % i for i in range(w.n)], "num": [1009 - i for i in range(w.n)]}

    def graphs():
        g = w.graph()
        yield "Graph", g
        h = nx.Graph()
        h.add_nodes_from(g.nodes(data=True))
        h.add_edges_from(g.edges(data=True))
        yield "networkx", h
        yield "frozen", Partition(w.graph(), dict(want)).graph

    for cls in (Partition, GeographicPartition):
        for gname, g in graphs():
            fwd = dict(want)
            rev = dict(reversed(list(want.items())))
            base = Partition(w.graph(), dict(want))
            flipped = base.flip(w.flips(((0, p["k"] - 1),)))
            back = flipped.flip(w.flips(((0, w.a0[0]),)))
            series = pandas.Series({k: v for k, v in want.items()}) if w.kind != "tup" else None
            sources = [("attribute", "district"), ("dict", fwd), ("dict reversed", rev),
                       ("Assignment", Assignment.from_dict(dict(want))),
                       ("plan assignment", base.assignment), ("flipped plan assignment", back.assignment)]
            if series is not None:
                sources.append(("Series", series))
            for sname, src in sources:
                part = cls(g, src)
                ctx.trans()
                check_plan(ctx, w, part, w.a0, (gname, sname))
                ctx.check(part.parent is None and not part.flips, "a new plan has no parent and no flips")
                # independence of the source and of a second plan built from it
                for f in gen.single_flips(w.n, w.k):
                    b = cls(g, src)
                    c = part.flip(w.flips(f))
                    ctx.trans()
                    check_plan(ctx, w, c, gen.apply(w.a0, f), (gname, sname, f))
                    check_plan(ctx, w, b, w.a0, (gname, sname, "sibling built from the same source"))
                    check_plan(ctx, w, part, w.a0, (gname, sname, "parent"))
                    if isinstance(src, (dict, pandas.Series, Assignment)):
                        ctx.eq({k: v for k, v in src.items()}, want, "building or flipping a plan changed the caller's assignment", source=sname)
                # later changes of the caller's dictionary or Assignment do not reach the plan
                if isinstance(src, (dict, pandas.Series)) or sname == "Assignment":
                    mine = src.copy()
                    keep = [cls(g, mine)]
                    keep.append(keep[0].flip(w.flips(((0, p["k"] - 1),))))
                    if sname == "Assignment":
                        mine.update_parts({w.dl[0]: set(w.lab)})
                    else:
                        for v in w.lab:
                            mine[v] = w.dl[(w.dl.index(mine[v]) + 1) % w.k]
                    check_plan(ctx, w, keep[0], w.a0, (gname, sname, "caller's copy changed afterwards"))
                    check_plan(ctx, w, keep[1], gen.apply(w.a0, ((0, p["k"] - 1),)), (gname, sname, "caller's copy changed afterwards"))
                    check_plan(ctx, w, keep[0].flip(w.flips(((0, p["k"] - 1),))), gen.apply(w.a0, ((0, p["k"] - 1),)), (gname, sname, "flipped after the caller's copy changed"))
                ctx.state(gname, sname, cls.__name__)
                ctx.trace()
            # refused: missing and foreign nodes
            for bad in bad_assignments(w, want):
                try:
                    cls(g, bad)
                except Exception:
                    ctx.trans()
                    continue
                raise Violation("an assignment that does not cover exactly the graph's nodes was accepted", assignment=repr(bad), nodes=repr(w.lab))
        # a column of the graph that some node lacks is no assignment
        for skip in w.lab:
            for gname, g in list(graphs()):
                if gname == "frozen":
                    continue
                del g.nodes[skip]["district"]
                try:
                    cls(g, "district")
                except Exception:
                    ctx.trans()
                    continue
                raise Violation("a column that one node lacks was accepted as an assignment", node=repr(skip), graph=gname)
    # Assignment validation and conversions
    asg = Assignment.from_dict(dict(want))
    ser = None
    if w.kind != "tup":
        part = Partition(w.graph(), dict(want))
        ser = part.assignment.to_series()
        ctx.eq({k: v for k, v in ser.items()}, want, "assignment.to_series() differs")
    cp = asg.copy()
    ctx.eq(dict(cp.items()), want, "copy of an assignment differs")
    # Districtr files name the district of each id
    tmp = tempfile.mkdtemp(prefix="mc02")
    path = os.path.join(tmp, "plan.json")
    try:
        with open(path, "w") as f:
            json.dump({"idColumn": {"key": "id"}, "assignment": {"id%d" % i: want[w.lab[i]] for i in range(w.n)}}, f)
        check_plan(ctx, w, Partition.from_districtr_file(w.graph(), path), w.a0, ("districtr",))
        # numeric ids are text in the file; ids of places outside the graph do no harm
        with open(path, "w") as f:
            json.dump({"idColumn": {"key": "num"}, "assignment": dict({str(1009 - i): want[w.lab[i]] for i in range(w.n)}, **{"77": w.dl[0]})}, f)
        check_plan(ctx, w, Partition.from_districtr_file(w.graph(), path), w.a0, ("districtr, numeric ids",))
        # a unit that the file leaves out (or lists without a district's name) makes the plan unusable
        for skip in range(w.n):
            with open(path, "w") as f:
                json.dump({"idColumn": {"key": "id"}, "assignment": {"id%d" % i: want[w.lab[i]] for i in range(w.n) if i != skip}}, f)
            try:
                Partition.from_districtr_file(w.graph(), path)
            except Exception:
                ctx.trans()
                continue
            raise Violation("a Districtr plan that leaves out a unit was accepted", node=repr(w.lab[skip]))
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(tmp)


def bad_assignments(w, want):
    for v in w.lab:
        d = dict(want)
        del d[v]
        yield d                       # node missing
        d2 = dict(d)
        d2["no such node" if w.kind == "str" else 987] = want[v]
        yield d2                      # one missing, one foreign
    d = dict(want)
    d["no such node" if w.kind == "str" else 987] = w.dl[0]
    yield d
    yield None
    if w.kind != "tup":
        for v in w.lab:               # a node in two districts
            for x in w.dl:
                if x != want[v]:
                    yield pandas.Series(list(want.values()) + [x], index=list(want) + [v])
                    yield pandas.Series([x] + list(want.values()), index=[v] + list(want))
