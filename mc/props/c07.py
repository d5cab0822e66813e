"""C07 Derived values of a plan never depend on when or where else they are read."""
import itertools
from gerrychain import Election, GeographicPartition, MarkovChain, Partition
from gerrychain.accept import always_accept
from gerrychain.metrics import polsby_popper
from gerrychain.updaters import (DataTally, Tally, boundary_nodes, cut_edges, cut_edges_by_part, exterior_boundaries,
                                 exterior_boundaries_as_a_set, interior_boundaries, num_spanning_trees, perimeter, tally_region_splits)
from gerrychain.updaters.flows import on_edge_flow, on_flow
from gerrychain.updaters.locality_split_scores import LocalitySplits
from mc.core import gen, hist

ID = "C07"
BOUNDS = {
    "quick": "root, two children and a grandchild: all 1344 orders of creating, reading (all ~20 updaters) and dropping the parent, for a set of flip triples on path/triangle/diamond graphs; two chains stepped in every interleaving (3+3 steps) with 3 reading policies, sharing updater objects, on equal or different graphs; every subset of updaters read first; plans with 10 to 200 updaters; histories of 150 block flips (up to 64 nodes at once) on 8x8 grids and a 60-node path; updaters that read the parent plan: all histories of 3 flips over {none, no-op, single, double} x every subset of plans read early x two read orders",
    "thorough": "as quick with all flip triples of the small graphs and 4+4 step interleavings",
}
ASSUMPTIONS = ["values that refer to the parent plan (county_splits, step counters, flips) are compared with their own definition, not with a fresh plan",
               "missing entries of per-district dictionaries count as 0 / empty"]


def make_updaters():
    def init_size(partition):
        return {d: len(s) for d, s in partition.parts.items()}

    @on_flow(init_size, alias="size")
    def size(partition, previous, new_nodes, old_nodes):
        return previous + len(new_nodes) - len(old_nodes)

    def init_cut(partition):
        return {d: len([e for e in partition["cut_edges"] if d in (partition.assignment[e[0]], partition.assignment[e[1]])]) for d in partition.parts}

    @on_edge_flow(init_cut, alias="ncut")
    def ncut(partition, previous, new_edges, old_edges):
        return previous + len(new_edges) - len(old_edges)
    return {
        "cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part, "pop": Tally("pop"), "multi": Tally(["pop", "area"], alias="multi", dtype=float),
        "dt": DataTally("pop", "dt"), "E": Election("E", {"D": "dem", "R": "rep"}), "area": Tally("area", alias="area"),
        "perimeter": perimeter, "exterior_boundaries": exterior_boundaries, "interior_boundaries": interior_boundaries,
        "boundary_nodes": boundary_nodes, "exterior_boundaries_as_a_set": exterior_boundaries_as_a_set, "pp": None,
        "ls": LocalitySplits("ls", "COUNTY", "pop", ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "num_split_localities"]),
        "rs": tally_region_splits(["COUNTY"]), "size": size, "ncut": ncut,
        "user": lambda part: sorted(x for x in part["pop"].items() if x[1]),
    }


def world(p, shift=0):
    w = hist.World(p)
    n = w.n
    w.attrs = {"pop": [2 ** i + shift for i in range(n)], "area": [1.5 + i for i in range(n)], "dem": [3 + i * i + shift for i in range(n)],
               "rep": [7 - i for i in range(n)], "COUNTY": ["AB"[(i + shift) % 2] for i in range(n)], "boundary_node": [i != 1 or bool(shift) for i in range(n)],
               "boundary_perim": [0.5 + i for i in range(n)]}
    if n > 9:            # keep the sums exact
        w.attrs["pop"] = [2 ** (i * 3 % 20) + shift for i in range(n)]
        w.attrs["rep"] = [7 + i for i in range(n)]
        w.attrs["COUNTY"] = ["ABCDE"[i * 5 // n] for i in range(n)]
    w.eattrs = {"shared_perim": lambda i, j: 1.0 + i + 4 * j + shift}
    return w


def norm(name, v, w):
    """Comparable snapshot of a derived value."""
    if name == "E":
        ds = [d for d in w.dl if d in v.totals and v.totals[d]]
        return tuple((q, tuple((d, v.totals_for_party[q][d], v.percents_for_party[q][d]) for d in ds)) for q in ("D", "R")) + \
            tuple((d, v.totals[d]) for d in ds)
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            if isinstance(x, (set, frozenset)):
                x = tuple(sorted(map(repr, x)))
                if not x:
                    continue
            elif isinstance(x, float):
                x = round(x, 9)
            if x == 0:
                continue
            out.append((repr(k), x))
        return tuple(sorted(out, key=repr))
    if isinstance(v, (set, frozenset)):
        return tuple(sorted(map(repr, v)))
    return repr(v)


def counted(ups, counts):
    out = {}

    def wrap(name, f):
        def run(part):
            key = (id(part), name)
            counts[key] = counts.get(key, 0) + 1
            return f(part)
        return run
    for name, f in ups.items():
        if f is not None:
            out[name] = wrap(name, f)
    return out


def read_all(part, names, w):
    return {nm: norm(nm, part[nm], w) for nm in names}


class Scratch:
    """Values of a plan computed afresh: a new plan object, fresh updaters, read in a fixed order."""

    def __init__(self, w, names):
        self.w, self.names, self.memo = w, names, {}

    def __call__(self, a):
        if a not in self.memo:
            ups = {k: v for k, v in make_updaters().items() if v is not None}
            self.memo[a] = read_all(Partition(self.w.graph(), self.w.assignment(a), updaters=ups, use_default_updaters=False), self.names, self.w)
        return self.memo[a]


def names_ok(a, k):
    nm = [x for x, f in make_updaters().items() if f is not None]
    return nm


def cases(tier):
    th = tier == "thorough"
    gs = [(gen.path(3), 3), (gen.cycle(3), 3), (gen.grid(2, 2), 4)] + ([(gen.star(4), 4), (gen.complete(4), 4)] if th else [])
    for e, n in gs:
        for k in (2, 3) if th or n == 3 else (2,):
            starts = list(gen.set_partitions(n, k))
            for a in (starts if th else starts[-2:]):
                fl = [f for f in gen.all_flips(range(n), k, 2) if f and any(a[i] != d for i, d in f)]
                f1s = fl if th else fl[::max(1, len(fl) // 3)]
                for f1 in f1s:
                    for f2 in fl[1::max(1, len(fl) // 2)]:
                        yield "sched", dict(edges=e, n=n, k=k, a0=a, f1=f1, f2=f2, nodes=["int", "str", "rev"][k % 3])
    for e, n in gs[:3]:
        for a in list(gen.set_partitions(n, 2))[:3]:
            for same in (True, False):
                yield "chains", dict(edges=e, n=n, k=2, a0=a, same=same, steps=4 if th else 3)
            yield "first", dict(edges=e, n=n, k=2, a0=a)
        for a in list(gen.set_partitions(n, 2))[:2]:
            yield "steps", dict(edges=e, n=n, k=2, a0=a, depth=3)
    yield "own", dict()
    for m in (10, 40, 200) + ((1000,) if th else ()):
        yield "crowd", dict(m=m)
    for m, n, k in ((8, 8, 12), (1, 60, 3), (8, 8, 2)):
        yield "sweep", dict(edges=[list(x) for x in (gen.grid(m, n) if m > 1 else gen.path(n))], n=m * n, k=k, a0=[i * k // (m * n) for i in range(m * n)], nodes=("neg", "rev", "str")[k % 3], parts=("neg", "str", "mix")[k % 3],
                            dims=[m, n], steps=600 if th else 150)


EVENTS = ["Ca", "Cb", "Cc", "Rr", "Ra", "Rb", "Rc", "Da"]
AFTER = {"Cc": "Ca", "Da": "Cc", "Ra": "Ca", "Rb": "Cb", "Rc": "Cc"}


def extensions(done=()):
    if len(done) == len(EVENTS):
        yield done
        return
    for ev in EVENTS:
        if ev not in done and (ev not in AFTER or AFTER[ev] in done):
            yield from extensions(done + (ev,))


ORDERS = None


def case_sched(ctx, p, tier):
    global ORDERS
    if ORDERS is None:
        ORDERS = list(extensions())
    w = world(p)
    names = names_ok(None, w.k)
    scratch = Scratch(w, names)
    f1, f2 = tuple(map(tuple, p["f1"])), tuple(map(tuple, p["f2"]))
    a = {"r": w.a0}
    a["a"], a["b"] = gen.apply(w.a0, f1), gen.apply(w.a0, f2)
    f3s = [((0, 1),), tuple((i, w.a0[i]) for i in range(w.n))[:2]]
    g = Partition(w.graph(), w.assignment(), updaters={"cut_edges": cut_edges}, use_default_updaters=False).graph
    for f3 in f3s if tier == "thorough" else f3s[:1] if sum(w.a0) % 2 else f3s[1:]:
        a["c"] = gen.apply(a["a"], f3)
        for order in ORDERS:
            counts = {}
            ups = counted(make_updaters(), counts)
            o = {"r": Partition(g, w.assignment(), updaters=ups, use_default_updaters=False)}
            for ev in order:
                x = ev[1]
                if ev[0] == "C":
                    par, f = {"a": ("r", f1), "b": ("r", f2), "c": ("a", f3)}[x]
                    o[x] = o[par].flip(w.flips(f))
                    ctx.trans()
                elif ev[0] == "D":
                    o[x].parent = None
                else:
                    got = read_all(o[x], names, w)
                    if got != scratch(a[x]):
                        diff(ctx, got, scratch(a[x]), order, x)
            for x in "abcr":
                got = read_all(o[x], names, w)
                if got != scratch(a[x]):
                    diff(ctx, got, scratch(a[x]), order, x + " (read again at the end)")
            ctx.check(max(counts.values()) == 1, "a derived value was computed more than once for one plan",
                      which=[k[1] for k, v in counts.items() if v > 1][:3], order=order)
            ctx.state(order)
            ctx.trace()


def diff(ctx, got, want, order, x):
    for k in want:
        if got[k] != want[k]:
            ctx.eq(got[k], want[k], "value of %s depends on the order of events" % k, order=order, plan=x)


def case_chains(ctx, p, tier):
    """Two chains sharing updater objects, stepped in every interleaving."""
    w1, w2 = world(p), world(p, shift=0 if p["same"] else 1)
    names = names_ok(None, 2)
    steps = p["steps"]
    sc = {1: Scratch(w1, names), 2: Scratch(w2, names)}
    scripts = {1: [((i % w1.n, 1),) for i in range(steps)], 2: [((w1.n - 1 - i % w1.n, i % 2),) for i in range(steps)]}
    g1, g2 = w1.graph(), w2.graph()
    for pos in itertools.combinations(range(2 * steps), steps):
        word = [1 if i in pos else 2 for i in range(2 * steps)]
        for policy in ("each", "late", "retained"):
            counts = {}
            ups = counted(make_updaters(), counts)
            it, model, states = {}, {}, {1: [], 2: []}
            for c, w, g in ((1, w1, g1), (2, w2, g1 if p["same"] else g2)):
                init = Partition(g, w.assignment(), updaters=ups, use_default_updaters=False)
                script = iter(scripts[c])

                def prop(part, script=script, w=w):
                    return part.flip(w.flips(next(script)))
                it[c] = iter(MarkovChain(prop, [lambda part: True], always_accept, init, steps + 1))
                model[c] = w.a0
            pos_i = {1: -1, 2: -1}
            for c in word:
                w = w1 if c == 1 else w2
                s = next(it[c])
                ctx.trans()
                if pos_i[c] >= 0:
                    model[c] = gen.apply(model[c], scripts[c][pos_i[c]])
                pos_i[c] += 1
                states[c].append((s, model[c]))
                if policy == "each":
                    got = read_all(s, names, w)
                    if got != sc[c](model[c]):
                        diff(ctx, got, sc[c](model[c]), word, (c, policy))
            for c in (2, 1):
                w = w1 if c == 1 else w2
                seq = states[c] if policy != "late" else states[c][::-1]
                for s, a in seq:
                    got = read_all(s, names, w)
                    if got != sc[c](a):
                        diff(ctx, got, sc[c](a), word, (c, policy, "at the end"))
            ctx.check(max(counts.values()) == 1, "a derived value was computed more than once for one plan", which=[k[1] for k, v in counts.items() if v > 1][:3])
            ctx.state(tuple(word), policy)
            ctx.trace()


def case_first(ctx, p, tier):
    """Whichever updater is read first (and second), all values come out the same."""
    w = world(p)
    names = names_ok(None, 2)
    scratch = Scratch(w, names)
    g = w.graph()
    for f in gen.single_flips(w.n, w.k):
        a = gen.apply(w.a0, f)
        for x, y in itertools.permutations(names, 2):
            for erase in (False, True):
                root = Partition(g, w.assignment(), updaters={k: v for k, v in make_updaters().items() if v}, use_default_updaters=False)
                child = root.flip(w.flips(f))
                grand = child.flip(w.flips(((0, 1),)))
                if erase:
                    child.parent = None
                a2 = gen.apply(a, ((0, 1),))
                ctx.trans(2)
                ctx.eq(norm(x, grand[x], w), scratch(a2)[x], "value of %s differs when read first" % x, flip=f)
                ctx.eq(norm(y, child[y], w), scratch(a)[y], "value of %s differs when read after %s of the child plan" % (y, x), flip=f)
                ctx.eq(norm(y, grand[y], w), scratch(a2)[y], "value of %s differs when read after %s" % (y, x), flip=f)
                ctx.eq(norm(x, root[x], w), scratch(w.a0)[x], "value of %s differs at the root, read last" % x, flip=f)
                ctx.trace()
        ctx.state(f)


def case_steps(ctx, p, tier):
    """Updaters reading the parent plan (step counters): every history of flips, empty and no-op ones included, every read set."""
    w = world(p)
    names = ["cut_edges", "pop", "E", "size"]
    scratch = Scratch(w, names)
    depth = p["depth"]
    moves = [(), ((0, w.a0[0]),), ((0, 1 - w.a0[0]),), ((w.n - 1, 0), (1, 1))]
    g = Partition(w.graph(), w.assignment(), updaters={"cut_edges": cut_edges}, use_default_updaters=False).graph
    for h in itertools.product(moves, repeat=depth):
        for mask in range(1 << (depth + 1)):
            for late in (False, True):
                counts = {}
                ups = {k: v for k, v in make_updaters().items() if k in names}
                ups["step"] = lambda q: 0 if q.parent is None else q.parent["step"] + 1
                ups["seen"] = lambda q: (dict(q.assignment), dict(q.flips) if q.flips is not None else None)
                ups = counted(ups, counts)
                plans, a = [(Partition(g, w.assignment(), updaters=ups, use_default_updaters=False), w.a0)], w.a0

                def look(i):
                    q, m = plans[i]
                    want_flips = w.flips(h[i - 1]) if i else None
                    ctx.eq(q["step"], i, "a counter of the parent plans is wrong", history=h, plan=i, mask=mask)
                    ctx.eq(q["seen"][0], w.assignment(m), "an updater saw another plan's assignment", history=h, plan=i, mask=mask)
                    ctx.eq(q["seen"][1], want_flips, "an updater saw another plan's flips", history=h, plan=i, mask=mask)
                    got = read_all(q, names, w)
                    if got != scratch(m):
                        diff(ctx, got, scratch(m), h, (i, mask))
                for i in range(depth + 1):
                    if i:
                        a = gen.apply(a, h[i - 1])
                        plans.append((plans[-1][0].flip(w.flips(h[i - 1])), a))
                        ctx.trans()
                    if mask >> i & 1 and not late:
                        look(i)
                for i in reversed(range(depth + 1)):
                    if mask >> i & 1 or not late:
                        look(i)
                for i in range(depth + 1):
                    look(i)
                ctx.check(max(counts.values()) == 1, "a derived value was computed more than once for one plan",
                          which=[k[1] for k, v in counts.items() if v > 1][:3], history=h, mask=mask)
                ctx.trace()
            ctx.state(h, mask)


def case_own(ctx, p, tier):
    """A plan sees exactly its own updaters."""
    w = world(dict(edges=gen.path(3), n=3, k=2, a0=(0, 0, 1)))
    mk = lambda ups, **kw: Partition(w.graph(), w.assignment(), updaters=ups, **kw)
    sets = [{}, {"x": lambda q: 1}, {"y": lambda q: 2}, {"x": lambda q: 3, "y": lambda q: 4}]
    for order in itertools.permutations(range(4)):
        made = []
        for i in order:
            given = dict(sets[i])
            part = mk(given, use_default_updaters=False)
            ctx.eq(set(part.keys()), set(sets[i]), "a plan's updaters are not exactly its own", order=order)
            made.append((i, part, part.flip({w.lab[0]: w.dl[1]})))
            ctx.eq(set(given), set(sets[i]), "building a plan changed the caller's updaters")
            ctx.trans(2)
        for i, part, child in made:
            for q in (part, child):
                ctx.eq(set(q.keys()), set(sets[i]), "a plan's updaters changed when other plans were made", order=order)
                ctx.eq({k: q[k] for k in q.keys()}, {k: f(q) for k, f in sets[i].items()}, "a plan's updater was replaced by another plan's", order=order)
        ctx.state(order)
        ctx.trace()
    # with the default updaters: every plan has the defaults and its own ones ...
    base = set(Partition.default_updaters)
    gbase = set(GeographicPartition.default_updaters)
    one = mk({"mine_one": lambda q: 1})
    two = mk({"mine_two": lambda q: 2})
    geo = GeographicPartition(w.graph(), w.assignment(), updaters={"mine_geo": lambda q: 3})
    three = mk(None)
    ctx.check({"cut_edges", "mine_one"} <= set(one.keys()) and {"cut_edges", "mine_two"} <= set(two.keys()) and one["mine_one"] == 1 and two["mine_two"] == 2
              and {"cut_edges", "mine_geo", "perimeter"} <= set(geo.keys()), "a plan lacks the default updaters or its own")
    ctx.check("mine_geo" not in one.keys() and "mine_geo" not in three.keys() and "perimeter" not in three.keys(), "updaters of a GeographicPartition appear on a Partition")
    # ... and no others (known finding: they leak through the class-level dictionary)
    leak = set(three.keys()) - base
    ctx.check(leak <= {"mine_one", "mine_two"}, "a plan has updaters nobody gave it", extra=sorted(leak))
    if leak:
        ctx.known_finding("C07-default-updaters-shared", "updaters given to one plan appear on every other plan made with the default updaters: %s" % sorted(leak))
    ctx.trace()


def case_crowd(ctx, p, tier):
    """Plans with very many updaters, some of which read others: each is computed once per plan."""
    m = p["m"]
    w = world(dict(edges=gen.path(4), n=4, k=2, a0=(0, 0, 1, 1)))
    for stride in (1, 3, 7):
        counts = {}
        ups = {}
        for i in range(m):
            ups["u%d" % i] = (lambda q, i=i: q["u%d" % (i - stride)] + 1) if i >= stride and i % 4 == 3 else (lambda q, i=i: i + q.assignment[w.lab[1]])
        ups = counted(ups, counts)
        plan = Partition(w.graph(), w.assignment(), updaters=ups, use_default_updaters=False)
        plans = [(plan, w.a0), (plan.flip(w.flips(((1, 1),))), gen.apply(w.a0, ((1, 1),)))]

        def model(i, a):
            return model(i - stride, a) + 1 if i >= stride and i % 4 == 3 else i + w.dl[a[1]]
        for seq in (range(m), reversed(range(m)), range(0, m, 2), range(m)):
            for i in seq:
                for q, a in plans:
                    ctx.eq(q["u%d" % i], model(i, a), "an updater of a plan with many updaters has the wrong value", updater=i, updaters=m)
                    ctx.trans()
        ctx.check(max(counts.values()) == 1, "a derived value was computed more than once for one plan", updaters=m, which=[k[1] for k, v in counts.items() if v > 1][:3])
        ctx.state(m, stride)
    ctx.trace()


def case_sweep(ctx, p, tier):
    """Flips of many nodes at once on larger maps: every value equals that of a plan built afresh."""
    w = world(p)
    names = [nm for nm, f in make_updaters().items() if f is not None and nm not in ("user",)]
    scratch = Scratch(w, names)
    for early in (True, False):
        ups = {k: v for k, v in make_updaters().items() if v is not None}
        part = Partition(w.graph(), w.assignment(), updaters=ups, use_default_updaters=False)
        a = w.a0
        fl = hist.blocks(p["dims"][0], p["dims"][1], w.k)
        for i, f in enumerate(fl[: p["steps"]]):
            part, a = part.flip(w.flips(f)), gen.apply(a, f)
            if early or i % 3 == 2:
                got, want = read_all(part, names, w), scratch(a)
                for nm in names:
                    ctx.check(got[nm] == want[nm], "value %s of a plan depends on its history" % nm, step=i, flips=f[:5], plan=a, got=got[nm], want=want[nm])
            part.parent = None
            ctx.trans()
            ctx.state(a)
        ctx.trace()
