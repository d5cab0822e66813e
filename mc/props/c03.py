"""C03 Cut-edge data always equals a from-scratch recomputation."""
from gerrychain import GeographicPartition, Partition
from gerrychain.updaters import cut_edges, cut_edges_by_part
from mc.core import gen, hist

ID = "C03"
BOUNDS = hist.BOUNDS
ASSUMPTIONS = ["districts without cut edges may be listed with an empty set or left out",
               "flows of a district that did not change may be listed as empty or left out"]


def cases(tier):
    for i, p in enumerate(hist.configs(tier)):
        p["which"] = ["both", "cut_edges", "by_part"][i % 3] if p["mode"] != "tree" else "both"
        yield "walk", p


def flows_model(w, a, b):
    out = {}
    for i in range(w.n):
        if a[i] != b[i]:
            out.setdefault(w.dl[b[i]], {"in": set(), "out": set()})["in"].add(w.lab[i])
            out.setdefault(w.dl[a[i]], {"in": set(), "out": set()})["out"].add(w.lab[i])
    return out


def edge_flows_model(w, a, b):
    old, new = w.cut_by_part(a), w.cut_by_part(b)
    out = {}
    for d in w.dl:
        i, o = new.get(d, set()) - old.get(d, set()), old.get(d, set()) - new.get(d, set())
        if i or o:
            out[d] = {"in": i, "out": o}
    return out


def norm(fl):
    return {d: {"in": set(f["in"]), "out": set(f["out"])} for d, f in fl.items() if f["in"] or f["out"]}


def case_walk(ctx, p, tier):
    w = hist.World(p)
    ups = {"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part}
    which = p["which"]

    def root():
        return Partition(w.graph(), w.assignment(), updaters=dict(ups), use_default_updaters=False)

    def check(part, a, pa, h):
        if pa is not None:
            ctx.eq(norm(part.flows), flows_model(w, pa, a), "node flows are not the difference to the parent", history=h)
            ctx.eq(norm(part.edge_flows), edge_flows_model(w, pa, a), "edge flows are not the difference to the parent", history=h)
        if which != "by_part":
            ce = part["cut_edges"]
            ctx.eq(set(ce), w.cut(a), "cut_edges differ from recomputation", history=h, plan=a)
            ctx.check(len(list(ce)) == len(w.cut(a)), "a cut edge is listed twice", history=h)
        if which != "cut_edges":
            bp = part["cut_edges_by_part"]
            ctx.eq({d: set(s) for d, s in bp.items() if s}, w.cut_by_part(a), "cut_edges_by_part differ from recomputation", history=h, plan=a)
    hist.drive(ctx, p, w, root, check)
