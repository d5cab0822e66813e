"""C17 Gingleator scores equal their definitions for every district profile."""
import itertools
from fractions import Fraction
from gerrychain import Partition
from gerrychain.optimization import Gingleator
from gerrychain.updaters import Tally
from mc.core import gen, hist
from mc.core.explore import Violation

ID = "C17"
BOUNDS = {
    "quick": "every vector of 1-4 district shares over {0, 0.25, 0.375, 0.4375, 0.5, 0.625, 1} plus values exactly at / next to the threshold and at threshold-0.1, thresholds 0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.55, 0.6, 0.75, 0.95; share updater: all flip histories of depth 2-3 on small graphs (every read-point subset, chain-style parent dropping), zero minority populations included; all constructor argument combinations; optimizer runs over every proposal word of length 4; 6-300 districts with shares from every two-value pattern with one odd district, ramps and cycles",
    "thorough": "5 districts and a finer grid of shares, deeper histories",
}
ASSUMPTIONS = ["float results compared with tolerance 1e-9", "every district keeps at least one node (a share of an empty district is undefined)", "threshold < 1"]
THRESH = [0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.55, 0.6, 0.75, 0.95]


def cases(tier):
    th = tier == "thorough"
    for t in THRESH:
        for n in range(1, 6 if th else 5):
            for lab in ("int", "str"):
                yield "scores", dict(t=t, n=n, parts=lab, fine=th)
    for prm in hist.configs(tier, 2):
        if prm["n"] > 4 or (prm["n"] == 4 and prm["k"] == 3 and prm["mode"] != "tree"):
            continue
        yield "share", dict(prm, moves="single" if prm["n"] > 3 else prm["moves"], alt=(sum(prm["a0"]) + prm["a0"][0]) % 2)
    for n in (6, 10, 25, 60, 130, 300):
        yield "many", dict(n=n)
    yield "construct", {}
    for a, b in itertools.product(range(len(COLS)), repeat=2):
        yield "two", dict(a=a, b=b)
    for t in (0.25, 0.5):
        for name in SCORES:
            yield "run", dict(t=t, score=name)


def grid(t, fine):
    import numpy as np
    v = [0.0, 0.25, 0.375, 0.4375, 0.5, 0.625, 1.0, t, t - 0.1, t - 0.05, t - 0.1 + 0.01, t - 0.1 - 0.01, float(np.nextafter(t, 0)), float(np.nextafter(t, 1))]
    if fine:
        v += [0.1 * i for i in range(1, 10)]
    return sorted({x for x in v if 0 <= x <= 1})


# oracles (exact rationals of the given floats)
def num(v, t):
    return sum(1 for x in v if x >= t)


def partial_(v, t):
    return num(v, t) + max([Fraction(x) for x in v if x < t] or [Fraction(0)])


def close_(v, t):
    below = [Fraction(x) for x in v if x < t]
    if not below:
        return num(v, t)
    m = max(below)
    d = m - (Fraction(t) - Fraction(1, 10))
    return num(v, t) + (10 * d if d >= 0 else 0)


def maxover(v, t):
    n = num(v, t)
    return 0 if n == 0 else n + (1 - Fraction(max(v))) / (1 - Fraction(t))


def avgover(v, t):
    op = [Fraction(x) for x in v if x >= t]
    return 0 if not op else len(op) + (1 - sum(op) / len(op)) / (1 - Fraction(t))


SCORES = {"num_opportunity_dists": num, "reward_partial_dist": partial_, "reward_next_highest_close": close_,
          "penalize_maximum_over": maxover, "penalize_avg_over": avgover}


class Fake:
    """A plan as the score functions see it: a mapping from updater names to values."""

    def __init__(self, d, real):
        self.d, self.real = d, real

    def __getitem__(self, k):
        return self.d[k]

    def __getattr__(self, k):
        return getattr(self.real, k)


def case_scores(ctx, p, tier):
    t, n = p["t"], p["n"]
    dl = hist.PARTLABELS[p["parts"]] + (["E"] if p["parts"] == "str" else [9])
    lab = list(range(n))
    g = gen.build(gen.path(n), n)
    cell = {}
    part = Partition(g, {i: dl[i] for i in lab}, updaters={"share": lambda q: dict(cell["v"])}, use_default_updaters=False)
    vals = grid(t, p["fine"])
    if n >= 4:
        vals = [v for v in vals if v in (0.0, 0.375, 0.5, 0.625, 1.0, t, t - 0.1, t - 0.05, t - 0.1 - 0.01)][: 9]
    if n == 5:
        vals = vals[::2]
    for v in itertools.product(vals, repeat=n):
        cell["v"] = {dl[i]: v[i] for i in range(n)}
        if ctx.traces < 200:
            q = Partition(part.graph, dict(part.assignment.items()), updaters=dict(part.updaters), use_default_updaters=False)
        else:
            q = Fake({"share": dict(cell["v"])}, part)
        for name, f in SCORES.items():
            ctx.trans()
            got = getattr(Gingleator, name)(q, minority_perc_col="share", threshold=t)
            want = f(v, t)
            if name == "reward_next_highest_close" and abs(max([x for x in v if x < t] or [0]) - (t - 0.1)) < 1e-9:
                pass          # continuous there: both branches give the same value up to rounding
            ctx.check(abs(float(got) - float(want)) < 1e-8, "score is not its documented formula", score=name, shares=v, threshold=t, got=float(got), want=float(want))
        ctx.check(q["share"] == cell["v"], "a score changed the shares")
        ctx.trace()
        ctx.state(v, t)


def case_many(ctx, p, tier):
    """Plans with many districts: shares from every two- and three-value pattern, every threshold."""
    n = p["n"]
    g = gen.build(gen.path(n), n)
    for kind in ("int", "str"):
        dl = [3 * n - 2 * i for i in range(n)] if kind == "int" else ["D%d" % (n - i) for i in range(n)]
        part = Partition(g, dict(zip(range(n), dl)), use_default_updaters=False)
        for t in THRESH:
            vals = grid(t, False)
            cyc = [vals[i % len(vals)] for i in range(n)]
            ramp = [i / n for i in range(n)]
            vecs = [cyc, cyc[::-1], ramp, ramp[::-1], [t] * n, [t - 0.1] * n, [0.0] * n, [1.0] * n]
            for x, y in itertools.product(vals, repeat=2):          # one odd district: first, last or middle
                for at in {0, n // 2, n - 1}:
                    vecs.append([x if i == at else y for i in range(n)])
            for x, y, z in itertools.combinations(vals[:: 3], 3):
                vecs.append([(x, y, z)[i * 7 % 3] for i in range(n)])
            for v in vecs:
                q = Fake({"share": dict(zip(dl, v))}, part)
                for name, f in SCORES.items():
                    ctx.trans()
                    got = getattr(Gingleator, name)(q, minority_perc_col="share", threshold=t)
                    want = f(v, t)
                    ctx.check(abs(float(got) - float(want)) < 1e-7, "score is not its documented formula", score=name, districts=n, shares=v[:12], threshold=t, got=float(got), want=float(want))
                ctx.trace()
                ctx.state(kind, t, tuple(v))
        # shares of the minority column computed by the optimizer itself, on plans and flipped plans
        pops = [(2 + i % 3) * 4 for i in range(2 * n)]
        mino = [(i * 7 + i // 5) % (x + 1) for i, x in enumerate(pops)]
        g2 = gen.build(gen.path(2 * n), 2 * n, attrs={"TOTPOP": pops, "M": mino})
        a = [dl[i // 2] for i in range(2 * n)]
        q = Partition(g2, dict(enumerate(a)), updaters={"TOTPOP": Tally("TOTPOP"), "M": Tally("M")}, use_default_updaters=False)
        for t in (0.3, 0.5) if kind == "str" and n > 60 else THRESH:
            opts = [(name, Gingleator(lambda x: x, [], q, minority_pop_col="M", min_perc_column_name="m%s" % t, threshold=t, score_function=getattr(Gingleator, name))) for name in SCORES]
            for step in range(6):
                cur, b = q, list(a)
                for s in range(step):
                    i = (2 * s * 13 + 1) % (2 * n - 1)
                    b[i] = b[i + 1]
                    cur = cur.flip({i: b[i]})
                v = [Fraction(sum(mino[i] for i in range(2 * n) if b[i] == d), sum(pops[i] for i in range(2 * n) if b[i] == d)) for d in dl if d in b]
                if len(v) < n:
                    break
                for name, o in opts:
                    got, want = o.score(cur), SCORES[name]([float(x) for x in v], t)
                    ctx.check(abs(float(got) - float(want)) < 1e-7, "score of a plan is not the formula applied to its shares", score=name, districts=n, flips=step, threshold=t, got=float(got), want=float(want))
                    ctx.trans()


def case_share(ctx, p, tier):
    w = hist.World(p)
    pops = [3, 5, 8, 2][: w.n]
    mino = ([0, 4, 1, 2] if p["alt"] else [3, 0, 2, 1])[: w.n]
    w.attrs = {"TOTPOP": pops, "BVAP": mino, "VAP": [x + 1 for x in pops]}
    confs = [dict(), dict(total_pop_col="VAP"), dict(min_perc_column_name="my_share")]

    def mk(conf):
        def make():
            part = Partition(w.graph(), w.assignment(), updaters={"TOTPOP": Tally("TOTPOP"), "BVAP": Tally("BVAP"), "VAP": Tally("VAP")}, use_default_updaters=False)
            make.opt = Gingleator(lambda q: q, [], part, minority_pop_col="BVAP", score_function=Gingleator.reward_partial_dist, threshold=0.5, **conf)
            return part
        return make

    from mc.core.gen import single_flips, all_flips, apply
    allm = tuple(all_flips(range(w.n), w.k)) if p["moves"] == "all" else tuple(single_flips(w.n, w.k))

    def moves(a):
        for f in allm:
            if len(set(apply(a, f))) == w.k:
                yield f
    for ci, conf in enumerate(confs if p["n"] <= 3 else confs[:1] if p["alt"] else confs[1:2]):
        make = mk(conf)
        col = conf.get("min_perc_column_name")
        den = [x + 1 for x in pops] if conf.get("total_pop_col") == "VAP" else pops

        def check(part, a, pa, h):
            want = {}
            for d in range(w.k):
                want[w.dl[d]] = Fraction(sum(mino[i] for i in range(w.n) if a[i] == d), sum(den[i] for i in range(w.n) if a[i] == d))
            got = part[col] if "min_perc_column_name" in conf else want
            ctx.check(set(got) == set(want) and all(abs(got[d] - float(want[d])) < 1e-12 for d in want), "share is not minority population / total population of the district", plan=a, history=h, got=repr(got), want=repr(want))
            sc = make.opt.score(part)
            wsc = partial_([float(x) for x in want.values()], 0.5)
            ctx.check(abs(sc - float(wsc)) < 1e-9, "score of a plan is not the formula applied to its shares", plan=a, history=h, got=float(sc), want=float(wsc))
        hist.drive(ctx, p, w, make, check, moves=moves)


COLS = [("BVAP", "TOTPOP"), ("HVAP", "TOTPOP"), ("BVAP", "VAP"), ("HVAP", "VAP")]


def case_two(ctx, p, tier):
    """Two optimizers on one initial plan: each scores its own columns, whatever was read before."""
    n = 3
    data = {"BVAP": [3, 1, 0], "HVAP": [0, 2, 4], "TOTPOP": [6, 6, 6], "VAP": [4, 4, 4]}
    plans = list(gen.surjections(n, 2))

    def want(a, c, t):
        return partial_([float(Fraction(sum(data[c[0]][i] for i in range(n) if a[i] == d), sum(data[c[1]][i] for i in range(n) if a[i] == d))) for d in (0, 1)], t)
    ca, cb = COLS[p["a"]], COLS[p["b"]]
    for a0, t, early in itertools.product(plans, (0.3, 0.5), (False, True)):
        g = gen.build(gen.path(n), n, attrs=data)
        part = Partition(g, dict(enumerate(a0)), updaters={c: Tally(c) for c in data}, use_default_updaters=False)

        def mk(c, t):
            return Gingleator(lambda q: q, [], part, minority_pop_col=c[0], total_pop_col=c[1], threshold=t, score_function=Gingleator.reward_partial_dist)
        one = mk(ca, t)
        if early:
            one.score(part)
        two = mk(cb, 0.5)
        for a1 in plans:
            q = part.flip(dict(enumerate(a1)))
            for x, a in ((part, a0), (q, a1), (part, a0)):
                for opt, c, tt in ((one, ca, t), (two, cb, 0.5)):
                    got = opt.score(x)
                    ctx.check(abs(got - want(a, c, tt)) < 1e-9, "an optimizer scores another one's columns", columns=c, plan=a, got=float(got), want=float(want(a, c, tt)), first=ca, second=cb)
            ctx.trans()
        ctx.state(a0, t, early)
        ctx.trace()


def case_construct(ctx, p, tier):
    """Which column, threshold and score function are used, for every combination of arguments."""
    import warnings
    n = 3
    mino, tot = [3, 1, 0], [4, 4, 4]
    for share, pop, thr, sf in itertools.product((None, "sh"), (None, "BVAP"), (None, 0.25, 0.75, 0.9), (None,) + tuple(SCORES)):
        g = gen.build(gen.path(n), n, attrs={"BVAP": mino, "TOTPOP": tot})
        part = Partition(g, {i: i + 1 for i in range(n)}, updaters={"BVAP": Tally("BVAP"), "TOTPOP": Tally("TOTPOP"), "sh": lambda q: {1: 0.1, 2: 0.95, 3: 0.8}}, use_default_updaters=False)
        kw = {}
        if share:
            kw["minority_perc_col"] = share
        if pop:
            kw["minority_pop_col"] = pop
        if thr:
            kw["threshold"] = thr
        if sf:
            kw["score_function"] = getattr(Gingleator, sf)
        ctx.trans()
        ctx.trace()
        ctx.state(share, pop, thr, sf)
        if share is None and pop is None:
            try:
                Gingleator(lambda q: q, [], part, **kw)
            except ValueError:
                continue
            raise Violation("neither column given but no error")
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            opt = Gingleator(lambda q: q, [], part, **kw)
        ctx.check(bool(ws) == bool(share and pop), "warning iff both columns are given", warned=len(ws))
        v = [0.1, 0.95, 0.8] if share else [0.75, 0.25, 0.0]
        want = SCORES[sf or "num_opportunity_dists"](v, thr or 0.5)
        ctx.check(abs(float(opt.score(part)) - float(want)) < 1e-8, "score uses the wrong column, threshold or formula", args=repr(kw), got=float(opt.score(part)), want=float(want))


def case_run(ctx, p, tier):
    """Bursts of the real optimizer: the best plan maximizes the documented score."""
    n = 4
    tot, mino = [4, 4, 4, 4], [4, 1, 2, 0]
    plans = [(0, 0, 1, 1), (0, 1, 1, 1), (0, 0, 0, 1), (0, 1, 0, 1)]
    f = SCORES[p["score"]]

    def val(a):
        return f([float(Fraction(sum(mino[i] for i in range(n) if a[i] == d), sum(tot[i] for i in range(n) if a[i] == d))) for d in (0, 1)], p["t"])
    g = gen.build(gen.path(n), n, attrs={"BVAP": mino, "TOTPOP": tot})
    for w in itertools.product(range(4), repeat=4):
        it = itertools.cycle(w)
        part = Partition(g, dict(enumerate(plans[0])), updaters={"BVAP": Tally("BVAP"), "TOTPOP": Tally("TOTPOP")}, use_default_updaters=False)
        opt = Gingleator(lambda q: q.flip(dict(enumerate(plans[next(it)]))), [], part, minority_pop_col="BVAP", threshold=p["t"], score_function=getattr(Gingleator, p["score"]))
        best = val(plans[0])
        k = 0
        for q in opt.short_bursts(3, 2):
            k += 1
            a = tuple(q.assignment[i] for i in range(n))
            best = max(best, val(a))
            ctx.trans()
            ctx.check(abs(float(opt.best_score) - float(best)) < 1e-8, "best score is not the maximum of the documented score over the plans so far", word=w, got=float(opt.best_score), want=float(best))
            bp = tuple(opt.best_part.assignment[i] for i in range(n))
            ctx.check(abs(float(val(bp)) - float(best)) < 1e-8, "best plan does not have the best score", word=w)
        ctx.check(k == 6, "wrong number of plans", got=k)
        ctx.trace()
        ctx.state(w)
