"""C06 County, region and locality split reports match the current plan."""
import functools, math
from gerrychain import Partition
from gerrychain.constraints import refuse_new_splits
from gerrychain.updaters import CountySplit, county_splits, cut_edges, tally_region_splits
from gerrychain.updaters.locality_split_scores import LocalitySplits
from mc.core import gen, hist, walk

ID = "C06"
BOUNDS = {t: b + "; county patterns: every grouping of the nodes for n<=3 (and n=4 with depth 2), labels int/str/with zero/differing in white space and case only, one county of all but one of 25 units; seven values of pent_alpha" for t, b in hist.BOUNDS.items()}
ASSUMPTIONS = ["a county is OLD_SPLIT in an initial plan that splits it",
               "a region counts as split when a cut edge has both ends inside it",
               "symmetric entropy is read only for plans without an empty district"]
COUNTY = {"int": [1000, 2000, 3000, 4000, 5000, 6000], "str": ["Ada", "Bern", "Cole", "Dade", "Erie", "Ford"], "zero": [0, 1, 2, 3, 4, 5], "alike": ["Ada", "ada", " Ada", "Ada ", "ADA", "Ad a"]}
for _k in range(6, 400):
    COUNTY["int"].append(1000 + 1000 * _k)
    COUNTY["str"].append("County %d" % _k)
    COUNTY["zero"].append(_k)
    COUNTY["alike"].append(("1", "01", 1, "1.0", 1.5, "1 ")[_k % 6] if _k < 12 else "Ada" + " " * _k)
ALPHAS = [None, 0.5, 0.8, 0.0, 0.3, 1.0, 2.0]
ALL = ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "num_split_localities"]


@functools.lru_cache(None)
def groupings(n):
    return [a for k in range(1, n + 1) for a in gen.set_partitions(n, k)]


def cases(tier):
    for i, p in enumerate(hist.configs(tier, scale=2)):
        n = p["n"]
        if "dims" in p:             # vertical stripes, and counties in several pieces
            r, c = p["dims"]
            for j, g in enumerate(([(x % c) // 2 for x in range(n)], [(x % c + 2 * (x // c)) % 5 for x in range(n)], [int(x == n // 2) for x in range(n)], [x // c // 2 * ((c + 1) // 2) + x % c // 2 for x in range(n)])):
                yield "walk", dict(p, county=g, names=["int", "str", "alike", "zero"][(i + j) % 4], alpha=ALPHAS[(i + j) % len(ALPHAS)])
            continue
        gs = groupings(n)
        if n <= 3:
            pick = gs if p["mode"] == "tree" or tier == "thorough" else [gs[i % len(gs)], gs[1]]
        elif n == 4 and p["depth"] <= 2:
            pick = gs if tier == "thorough" else [gs[(i + 7 * j) % len(gs)] for j in range(2)]
        else:
            pick = [gs[(i * 7 + 1) % len(gs)], gs[(i * 3 + 2) % len(gs)]][: 2 if n > 4 or tier == "thorough" else 1]
        for j, g in enumerate(pick):
            yield "walk", dict(p, county=g, names=["int", "str", "alike", "zero"][(i + j) % 4], alpha=ALPHAS[(i + j) % len(ALPHAS)])
    for e in gen.connected(3) + gen.connected(4)[:4]:
        n = max(max(x) for x in e) + 1
        for g1 in groupings(n):
            for g2 in groupings(n)[::2]:
                yield "shared", dict(edges=e, n=n, k=2, a0=[0] * (n - 1) + [1], g1=g1, g2=g2)


def locality_scores(w, a, county, pop, alpha):
    """Definitions, from scratch."""
    n = w.n
    out = {}
    pairs = {}
    for i in range(n):
        pairs[county[i], a[i]] = pairs.get((county[i], a[i]), 0) + 1
    out["num_parts"] = len(pairs)
    out["num_pieces"] = sum(len(gen.components([i for i in range(n) if (county[i], a[i]) == key], w.neigh)) for key in pairs)
    out["naked_boundary"] = sum(1 for i, j in w.edges if a[i] != a[j] and county[i] == county[j])
    out["num_split_localities"] = sum(1 for c in set(county) if len({a[i] for i in range(n) if county[i] == c}) > 1)
    sh = pw = 0.0
    for c in set(county):
        tot = sum(v for (x, d), v in pairs.items() if x == c)
        ps = [v / tot for (x, d), v in pairs.items() if x == c]
        sh += tot / n * sum(q * math.log(1 / q) for q in ps)
        pw += n / tot * (sum(q ** (1 - alpha) for q in ps) - 1)
    out["shannon_entropy"], out["power_entropy"] = sh, pw
    ds = set(a)
    sym = 0.0
    for d in ds:
        tot = sum(pop[i] for i in range(n) if a[i] == d)
        sym += tot * sum(math.sqrt(sum(pop[i] for i in range(n) if a[i] == d and county[i] == c) / tot) for c in set(county))
    for c in set(county):
        tot = sum(pop[i] for i in range(n) if county[i] == c)
        sym += tot * sum(math.sqrt(sum(pop[i] for i in range(n) if a[i] == d and county[i] == c) / tot) for d in ds)
    out["symmetric_entropy"] = sym
    return out


def check_scores(ctx, got, want, names, h):
    ctx.eq(set(got), set(names), "locality scores reported are not those asked for", history=h)
    for s in names:
        ctx.check(got[s] is not None and abs(got[s] - want[s]) <= 1e-9 * (1 + abs(want[s])), "locality score %s differs from its definition" % s,
                  got=repr(got[s]), want=want[s], history=h)


def split_model(w, county, a, pa):
    out = {}
    for c in set(county):
        seen = {w.dl[a[i]] for i in range(w.n) if county[i] == c}
        if len(seen) == 1:
            st = CountySplit.NOT_SPLIT
        elif pa is None or len({pa[i] for i in range(w.n) if county[i] == c}) > 1:
            st = CountySplit.OLD_SPLIT
        else:
            st = CountySplit.NEW_SPLIT
        out[c] = (st, {w.lab[i] for i in range(w.n) if county[i] == c}, seen)
    return out


def case_walk(ctx, p, tier):
    w = hist.World(p)
    names = COUNTY[p["names"]]
    county = [names[c] for c in p["county"]]
    region = [names[(c + i) % 2] for i, c in enumerate(p["county"])]
    pop = [2 ** i + 1 for i in range(w.n)]
    w.attrs = {"COUNTY": county, "REGION": region, "pop": pop}
    alpha = 0.05 if p["alpha"] is None else p["alpha"]
    kw = {} if p["alpha"] is None else dict(pent_alpha=alpha)
    refuse = refuse_new_splits("counties")

    def root():
        return Partition(w.graph(), w.assignment(), use_default_updaters=False, updaters={
            "cut_edges": cut_edges, "counties": county_splits("counties", "COUNTY"), "rs": tally_region_splits(["COUNTY", "REGION"]),
            "ls": LocalitySplits("ls", "COUNTY", "pop", list(ALL), **kw),
            "sym": LocalitySplits("sym", "COUNTY", "pop", ["symmetric_entropy", "num_parts"], **kw)})
    memo = {}
    reg = lambda a, col: len({col[i] for i, j in w.edges if a[i] != a[j] and col[i] == col[j]})

    def check(part, a, pa, h):
        got = part["counties"]
        want = split_model(w, county, a, pa)
        ctx.eq({c: (v.split, set(v.nodes), set(v.contains)) for c, v in got.items()}, want, "county report differs", history=h, plan=a, parent=pa)
        ctx.check(all(len(list(v.nodes)) == len(want[c][1]) for c, v in got.items()), "a county lists a node twice", history=h)
        if pa is None or isinstance(h[-1], tuple) or True:
            ctx.eq(refuse(part), not any(v[0] == CountySplit.NEW_SPLIT for v in want.values()), "refuse_new_splits decided wrongly", history=h)
        ctx.eq(dict(part["rs"]), {"COUNTY": reg(a, county), "REGION": reg(a, region)}, "region split tally differs", history=h)
        if a not in memo:
            memo[a] = locality_scores(w, a, county, pop, alpha)
        sc = memo[a]
        check_scores(ctx, part["ls"], sc, ALL, h)
        if len(set(a)) == w.k:
            check_scores(ctx, part["sym"], sc, ["symmetric_entropy", "num_parts"], h)
    hist.drive(ctx, p, w, root, check)


def case_shared(ctx, p, tier):
    """One LocalitySplits object, two graphs with different localities, any order of scoring."""
    ws = []
    for key in ("g1", "g2"):
        w = hist.World(p)
        w.county = [COUNTY["str"][c] for c in p[key]]
        w.pop = [1 + i for i in range(w.n)]
        w.attrs = {"COUNTY": w.county, "pop": w.pop}
        ws.append(w)
    for order in ((0, 1, 0), (1, 0, 1), (0, 0, 1)):
        ls = LocalitySplits("ls", "COUNTY", "pop", list(ALL))
        parts = [Partition(w.graph(), w.assignment(), use_default_updaters=False, updaters={"cut_edges": cut_edges, "ls": ls}) for w in ws]
        models = [ws[0].a0, ws[1].a0]
        seen = []
        for o in order:
            w = ws[o]
            got = parts[o]["ls"]
            want = locality_scores(w, models[o], w.county, w.pop, 0.05)
            check_scores(ctx, got, want, ALL, ("graph", o, order))
            seen.append((got, want))
            f = ((0, 1),) if models[o][0] == 0 else ((0, 0),)
            parts[o], models[o] = parts[o].flip(w.flips(f)), gen.apply(models[o], f)
            ctx.trans()
        for got, want in seen:
            check_scores(ctx, got, want, ALL, ("reported earlier", order))
        ctx.state(order, p["g1"], p["g2"])
        ctx.trace()
