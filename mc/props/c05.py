"""C05 Areas, boundary lengths and compactness always match the current map."""
import math
import numpy
from gerrychain import GeographicPartition, Partition
from gerrychain.constraints import (L1_polsby_popper, L1_reciprocal_polsby_popper, L2_polsby_popper,
                                    L_minus_1_polsby_popper)
from gerrychain.metrics import polsby_popper
from gerrychain.updaters import (Tally, boundary_nodes, cut_edges, cut_edges_by_part, exterior_boundaries,
                                 exterior_boundaries_as_a_set, interior_boundaries, perimeter)
from mc.core import gen, hist, walk

ID = "C05"
BOUNDS = {t: b + "; boundary-node patterns: all subsets for n<=3, rotating subsets for larger graphs; boundary flags as booleans, 0/1 and numpy booleans; areas and lengths distinct dyadic values (zero lengths included); one 4-node map in units from 2^-60 to 2^60"
          for t, b in hist.BOUNDS.items()}
ASSUMPTIONS = ["lengths and areas are dyadic so that incremental sums are exact; comparison tolerance 1e-9",
               "Polsby-Popper of an empty or zero-perimeter district is undefined (NaN)"]


def cases(tier):
    for i, p in enumerate(hist.configs(tier, scale=2)):
        n = p["n"]
        pats = range(1 << n) if n <= 3 and p["mode"] == "tree" and p["depth"] <= 2 else [(i * 5 + 3) % (1 << n)]
        if n > 9:
            pats = [sum(1 << j for j in range(n) if (j * j + j // 3 + i) % 3)]
        for bp in pats:
            yield "walk", dict(p, boundary=bp)
    for log in range(-60, 61, 4 if tier != "thorough" else 1):
        yield "scale", dict(edges=[[0, 1], [0, 2], [1, 2], [2, 3]], n=4, k=2, a0=[0, 0, 1, 1], nodes="str", parts="int", log=log)


def case_walk(ctx, p, tier):
    w = hist.World(p)
    n = w.n
    bset = [bool(p["boundary"] >> i & 1) for i in range(n)]
    area = [1.5 * 2 ** (i % 25) for i in range(n)]
    perim = [0.25 * 3 ** (i % 17) if i % 3 else 0.5 * 3 ** (i % 17) for i in range(n)]
    if n > 9:                           # keep the sums exactly representable on the big grids
        perim = [0.25 * (1 + (7 * i) % 31) for i in range(n)]
    if n > 2:
        perim[1] = 0.0                  # touches the outside in a point only
    es = {e: 0.125 * 5 ** j if j != 2 else 0.0 for j, e in enumerate(w.edges)}
    if len(w.edges) > 12:
        es = {e: 0.125 * (1 + (11 * j) % 61) if j != 2 else 0.0 for j, e in enumerate(w.edges)}
    shared = lambda i, j: es[(i, j)]
    w.eattrs = {"shared_perim": shared}

    form = (n + p["boundary"] + len(w.edges)) % 3         # the flag as a boolean, a number, a numpy boolean
    flags = bset if form == 0 else [int(b) for b in bset] if form == 1 else [numpy.bool_(b) for b in bset]

    def build():
        g = gen.build(w.edges, n, w.kind, {"area": area, "boundary_node": flags}, w.eattrs)
        for i in range(n):
            if bset[i] or (p["boundary"] + n) % 2:      # some interior nodes carry a (meaningless) length too
                g.nodes[w.lab[i]]["boundary_perim"] = perim[i]
        return g
    extra = {"polsby_popper": polsby_popper, "exterior_boundaries_as_a_set": exterior_boundaries_as_a_set}
    geo = p["mode"] != "path"

    def root():
        if geo:
            return GeographicPartition(build(), w.assignment(), updaters=extra)
        ups = {"perimeter": perimeter, "exterior_boundaries": exterior_boundaries, "interior_boundaries": interior_boundaries,
               "boundary_nodes": boundary_nodes, "cut_edges": cut_edges, "area": Tally("area", alias="area"),
               "cut_edges_by_part": cut_edges_by_part}
        ups.update(extra)
        return Partition(build(), w.assignment(), updaters=ups, use_default_updaters=False)

    def val(m, d):
        try:
            return m[d]
        except KeyError:
            return 0

    def check(part, a, pa, h):
        bn = {w.lab[i] for i in range(n) if bset[i]}
        ctx.eq(set(part["boundary_nodes"]), bn, "boundary nodes of the map changed", history=h)
        looked = (sum(a) + n + (len(h) if h else 0)) % (w.k + 1)        # some district subgraphs are looked at first
        for d in range(looked):
            if d in a:
                part.subgraphs[w.dl[d]]
        pp = part["polsby_popper"]
        scores = []
        for d in range(w.k):
            ns = [i for i in range(n) if a[i] == d]
            ext = sum(perim[i] for i in ns if bset[i])
            inter = sum(v for (i, j), v in es.items() if a[i] != a[j] and d in (a[i], a[j]))
            ar = sum(area[i] for i in ns)
            lab = w.dl[d]
            for name, got, want in (("area", val(part["area"], lab), ar), ("exterior_boundaries", val(part["exterior_boundaries"], lab), ext),
                                    ("interior_boundaries", val(part["interior_boundaries"], lab), inter),
                                    ("perimeter", val(part["perimeter"], lab), ext + inter)):
                ctx.check(abs(got - want) <= 1e-9 * max(1, abs(want)), name + " of a district differs from recomputation", got=got, want=want, district=repr(lab), history=h, plan=a)
            s = part["exterior_boundaries_as_a_set"]
            ctx.eq(set(s[lab]) if lab in s else set(), {w.lab[i] for i in ns if bset[i]}, "exterior boundary nodes of a district differ", history=h)
            if ext + inter > 0:
                want = 4 * math.pi * ar / (ext + inter) ** 2
                scores.append(want)
                ctx.check(abs(pp[lab] - want) <= 1e-9 * want, "Polsby-Popper score differs from 4 pi A / P^2", got=pp[lab], want=want, history=h)
            else:
                ctx.check(lab not in pp or math.isnan(pp[lab]) or pp[lab] == 0, "Polsby-Popper score without perimeter is not undefined", got=repr(pp[lab]), history=h)
        if len(scores) == w.k and all(s > 0 for s in scores):
            for f, want in ((L1_polsby_popper, sum(scores)), (L1_reciprocal_polsby_popper, sum(1 / s for s in scores)),
                            (L2_polsby_popper, math.sqrt(sum(s * s for s in scores))), (L_minus_1_polsby_popper, w.k / sum(1 / s for s in scores))):
                ctx.check(abs(f(part) - want) <= 1e-9 * max(1, abs(want)), f.__name__ + " differs from its norm", got=f(part), want=want, history=h)
    hist.drive(ctx, p, w, root, check)


def case_scale(ctx, p, tier):
    """The same little map measured in other units: scores follow 4 pi A / P^2 at every size."""
    w = hist.World(p)
    n, sc = w.n, 2.0 ** p["log"]
    area = [1.5 * (i + 1) * sc * sc for i in range(n)]
    perim = [0.25 * (3 * i + 1) * sc for i in range(n)]
    es = {e: 0.125 * (2 * j + 1) * sc for j, e in enumerate(w.edges)}

    def root():
        g = gen.build(w.edges, n, w.kind, {"area": area, "boundary_node": [True] * n, "boundary_perim": perim}, {"shared_perim": lambda i, j: es[(i, j)]})
        return GeographicPartition(g, w.assignment(), updaters={"polsby_popper": polsby_popper})

    def check(part, a, pa, h):
        for d in range(w.k):
            ns = [i for i in range(n) if a[i] == d]
            if not ns:
                continue
            inter = sum(v for (i, j), v in es.items() if a[i] != a[j] and d in (a[i], a[j]))
            per, ar, lab = sum(perim[i] for i in ns) + inter, sum(area[i] for i in ns), w.dl[d]
            for name, got, want in (("area", part["area"][lab], ar), ("perimeter", part["perimeter"][lab], per),
                                    ("Polsby-Popper score", part["polsby_popper"][lab], 4 * math.pi * ar / per ** 2)):
                ctx.check(abs(got - want) <= 1e-9 * abs(want), name + " of a district differs from recomputation", got=got, want=want, scale=sc, history=h, plan=a)
    walk.tree(ctx, root(), w.a0, hist.moves_of("single", n, w.k), 2, w.flips, check)
