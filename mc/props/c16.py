"""C16 Optimization runs report the best plan seen and follow their acceptance rules."""
import contextlib, io, itertools, math
from fractions import Fraction
from gerrychain import Partition
from gerrychain.optimization import SingleMetricOptimizer
from mc.core import gen
from mc.core.explore import explore, Violation
from mc.core.rng import ORACLE

ID = "C16"
BOUNDS = {
    "quick": "3 plans + an invalid one: every assignment of scores in {-1,0,1} (and halves and thirds), both directions, every proposal word of length 4 (5 with acceptance words), burst shapes 1x4..4x1; variable-length bursts: every word over {improve, tie, worse} of length 9 and {improve, worse} of length 14 with buffer 1-3, the same with proposals refused by the acceptance rule; tilted and annealing: complete distributions over proposals and acceptance draws for 3-4 steps; every pair of consecutive runs on one optimizer, the first cut after any number of plans; schedules: all durations in {0..4, 7} (and logit 200, 900) over 3 cycles; runs of up to 300 steps, with and without progress bars, buffers to 7",
    "thorough": "words of length 6 (7 with acceptance words), 4 plans, variable-length words of length 11/17, distributions over 5 steps",
}
ASSUMPTIONS = ["an improvement that resets the variable-length counter is a strict one, as in the code", "annealing time is the step number of the proposed plan (accepted moves so far + 1)", "probabilities compared with tolerance 1e-9"]
TOL = Fraction(1, 10 ** 9)
NP = 4          # plans used by the short cases (the last one is 'invalid' when constrained)


class Bench:
    def __init__(self, m, kind="int"):
        self.n = m + 1
        self.lab = gen.labels(kind, self.n)
        g = gen.build(gen.path(self.n), self.n, kind)
        self.frozen = Partition(g, self.assign(0), updaters={}, use_default_updaters=False).graph

    def assign(self, i):
        return {self.lab[j]: (1 if j <= i else 2) for j in range(self.n)}

    def initial(self, updaters=None):
        return Partition(self.frozen, self.assign(0), updaters=dict(updaters or {}), use_default_updaters=False)

    def plan(self, part):
        return sum(1 for v in self.lab if part.assignment[v] == 1) - 1

    def move(self, part, i):
        j = self.plan(part)
        return part.flip({self.lab[x]: (1 if x <= i else 2) for x in range(min(i, j) + 1, max(i, j) + 1)})


def better(x, y, maximize):
    """x at least as good as y"""
    return x >= y if maximize else x <= y


def watch(ctx, b, opt, gen_, init, score, maximize, limit=None, info=None):
    """Consume a run, checking best plan/score at every yield.  Returns list of plan indices."""
    out = []
    best, bs = init, score[0]
    for part in gen_:
        i = b.plan(part)
        out.append(i)
        ctx.trans()
        if better(score[i], bs, maximize):
            best, bs = part, score[i]
        if opt.best_score != bs or opt.best_part is not best:
            got = opt.best_part
            if opt.best_score != bs or got is None or b.plan(got) != b.plan(best) or got is not best:
                raise Violation("best plan/score is not the best of the plans so far (ties to the later)", yielded=out, best=None if got is None else b.plan(got),
                                best_score=repr(opt.best_score), want=b.plan(best), want_score=repr(bs), same_object=got is best, **(info or {}))
        if limit is not None and len(out) >= limit:
            gen_.close()
            break
    return out


def model_bursts(lengths, nxt, score, maximize, ok=None):
    """Yielded plan indices of bursts of the given lengths; nxt() gives proposals, ok() acceptance."""
    best, bs = 0, score[0]
    out = []
    for L in lengths:
        cur = best
        for s in range(L):
            if s:
                q = nxt()
                if ok is None or ok():
                    cur = q
            out.append(cur)
            if better(score[cur], bs, maximize):
                best, bs = cur, score[cur]
    return out


# ------------------------------------------------------------------ cases
def cases(tier):
    th = tier == "thorough"
    for name in ("jump", "linear", "linear_jump", "logit", "logit_jump"):
        yield "beta", dict(name=name)
    for sc in itertools.product((-1, 0, 1), repeat=3):
        for mx in (True, False):
            yield "words", dict(scores=list(sc), maximize=mx, len=6 if th else 4, alen=7 if th else 5)
    for mx in (True, False):
        for buf in (1, 2, 3):
            for alpha, L in (("itw", 11 if th else 9), ("iw", 17 if th else 14), ("wri", 10 if th else 9), ("rw", 17 if th else 14)):
                for first in itertools.product(alpha, repeat=2):
                    yield "variable", dict(maximize=mx, buffer=buf, alpha=alpha, len=L, first="".join(first))
    for sc in itertools.product((-1, 0, 2), repeat=3):
        for mx in (True, False):
            for meth in ("tilted_run", "tilted_short_bursts", "annealing"):
                yield "accept", dict(scores=list(sc), maximize=mx, method=meth, steps=5 if th else 4)
    for mx in (True, False):
        yield "again", dict(maximize=mx)
        yield "bar", dict(maximize=mx)
        yield "long", dict(maximize=mx, steps=2000 if th else 300)


# ------------------------------------------------------------------ schedules
def want_beta(name, t, hot, cool, cold):
    if name == "jump":
        return 0.0 if t % (hot + cold) < hot else 1.0
    up = name in ("linear", "logit")
    L = hot + cool * (2 if up else 1) + cold
    t %= L

    def ramp(x):          # x in [0, 1]
        if name.startswith("linear"):
            return x
        if x <= 0:
            return 0.0
        return min(1.0, max(0.0, (math.log(x / (1 - x)) + 5) / 10))
    if t < hot:
        return 0.0
    if t < hot + cool:
        return ramp((t - hot) / cool)
    if t < hot + cool + cold or not up:
        return 1.0
    return 1.0 - ramp((t - hot - cool - cold) / cool)


def case_beta(ctx, p, tier):
    name = p["name"]
    f = dict(jump=SingleMetricOptimizer.jumpcycle_beta_function, linear=SingleMetricOptimizer.linearcycle_beta_function,
             linear_jump=SingleMetricOptimizer.linear_jumpcycle_beta_function, logit=SingleMetricOptimizer.logitcycle_beta_function,
             logit_jump=SingleMetricOptimizer.logit_jumpcycle_beta_function)[name]
    D = [0, 1, 2, 3, 4, 7]
    triples = list(itertools.product(D, [0] if name == "jump" else D, D))
    if name.startswith("log"):
        triples = [t for t in triples if t[1] > 0] + [(3, 200, 2), (0, 900, 5)]
    if tier == "thorough":
        triples += list(itertools.product([0, 10, 23], [0] if name == "jump" else [5, 31, 160], [0, 11, 40]))
    for hot, cool, cold in triples:
        if hot + cool + cold == 0:
            continue
        beta = f(hot, cold) if name == "jump" else f(hot, cool, cold)
        L = hot + 2 * cool + cold
        for t in list(range(3 * L + 2)) + [1000 * L + j for j in range(L)]:
            ctx.trans()
            ctx.state(name, hot, cool, cold, t)
            got, want = beta(t), want_beta(name, t, hot, cool, cold)
            ctx.check(abs(got - want) < 1e-9 and 0 <= got <= 1, "beta schedule value is not as described", schedule=name, durations=(hot, cool, cold), t=t, got=got, want=want)
        ctx.trace()


# ------------------------------------------------------------------ deterministic words
def scores_of(p):
    s = p["scores"]
    return [list(s), [Fraction(x, 3) for x in s], [float(x) / 2 for x in s]]


def case_words(ctx, p, tier):
    m = 3
    b = Bench(m)
    mx = p["maximize"]
    for si, sc in enumerate(scores_of(p)):
        # plan 3 is invalid (constraint), scored best: must never appear
        score = sc + [max(sc) if mx else min(sc)]
        if si == 0:
            score[3] = 99 if mx else -99
        shapes = [(1, 4), (2, 2), (2, 3), (3, 2), (4, 1)] if si == 0 else [(2, 3), (3, 2)]
        for w in itertools.product(range(4), repeat=p["len"]):
            if set(w) == {3}:
                continue
            for bl, nb in shapes:
                run_words(ctx, b, mx, score, w, bl, nb, None)
        if si == 0:
            for w in itertools.product((0, 1, 2), repeat=3):
                for acc in itertools.product((True, False), repeat=p["alen"] - 2):
                    for bl, nb in ((3, 2), (2, 3), (5, 1)):
                        run_words(ctx, b, mx, score, w, bl, nb, acc)


def run_words(ctx, b, mx, score, w, bl, nb, acc, bar=False):
    def proposals():
        for i in itertools.cycle(w):
            yield i

    it = proposals()
    init = b.initial()
    valid = lambda q: b.plan(q) != 3
    cons = ([valid], (valid,), valid, (c for c in (valid,)))[(sum(w) + bl) % 4]
    opt = SingleMetricOptimizer(lambda q: b.move(q, next(it)), cons, init, lambda q: score[b.plan(q)], maximize=mx)
    if acc is None:
        got = watch(ctx, b, opt, opt.short_bursts(bl, nb, **bar_kw(bar)), init, score, mx, info=dict(scores=score, word=w, bursts=(bl, nb)))
    else:
        ai = itertools.cycle(acc)
        got = watch(ctx, b, opt, opt.short_bursts(bl, nb, accept=lambda q: next(ai), **bar_kw(bar)), init, score, mx, info=dict(scores=score, word=w, acceptance=acc, bursts=(bl, nb)))
    mi = proposals()

    def nxt():
        while True:
            q = next(mi)
            if q != 3:
                return q
    ok = None
    if acc is not None:
        ma = itertools.cycle(acc)
        ok = lambda: next(ma)
    want = model_bursts([bl] * nb, nxt, score, mx, ok)
    ctx.trace()
    ctx.state(w, bl, nb, acc, tuple(score))
    ctx.check(got == want, "yielded plans are not those of bursts each starting from the best plan so far", scores=score, maximize=mx, word=w, acceptance=acc, burst_length=bl, num_bursts=nb, got=got, want=want)


def case_variable(ctx, p, tier):
    mx, buf, L = p["maximize"], p["buffer"], p["len"]
    m = 20
    b = Bench(m)
    score = [(i if mx else -i) for i in range(m + 1)]
    start = 1
    # plan 0 is the initial one; shift so that 'worse' is possible: scores[0] is middling
    lvl = [1, 0] + list(range(2, m + 1))     # plan index -> level; initial plan 0 has level 1, plan 1 level 0
    score = [(lvl[i] if mx else -lvl[i]) for i in range(m + 1)]
    first = tuple(p["first"])
    for rest in itertools.product(p["alpha"], repeat=L - 2 - 4):
        for tail in itertools.product(p["alpha"], repeat=4):
            w = first + rest + tail
            steps = L
            got, want = variable(ctx, b, mx, score, lvl, w, steps, buf)
            ctx.trace()
            ctx.state(w, buf, mx)
            ctx.check(got == want, "variable-length bursts: yielded plans are not those of the described burst lengths", word="".join(w), stuck_buffer=buf, num_steps=steps, maximize=mx, got=got, want=want)
            if mx and buf == 1:
                break_ = [L - 1]
                for s in break_:
                    got, want = variable(ctx, b, mx, score, lvl, w, s, buf)
                    ctx.check(got == want, "variable-length bursts: wrong number of plans or wrong plans", word="".join(w), stuck_buffer=buf, num_steps=s, got=got, want=want)


def letter(c, best, lvl):
    if c in "ir":          # r: an improvement that the acceptance rule refuses
        return next(i for i, l in enumerate(lvl) if l == lvl[best] + 1)
    if c == "t":
        return best
    return 1 if lvl[best] > 0 else best


def bar_kw(bar):
    return dict(with_progress_bar=True) if bar else {}


def case_long(ctx, p, tier):
    """Hundreds of steps, with and without progress bars."""
    mx = p["maximize"]
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        b = Bench(20)
        lvl = [1, 0] + list(range(2, 21))
        score = [(x if mx else -x) for x in lvl]
        top = p["steps"]
        for pat in ("w", "t", "wt", "wwwwi", "w" * 30 + "i", "itw", "w" * 61 + "it", "wri", "r", "wwr"):
            for buf in (1, 2, 3, 7):
                for steps in (1, 2, 3, 10, top):
                    w = "".join(pat if pat.count("i") == 0 or (j + 1) * pat.count("i") <= 18 else pat.replace("i", "w") for j in range(steps // len(pat) + 1))
                    for bar in (False, True):
                        got, want = variable(ctx, b, mx, score, lvl, w, steps, buf, bar)
                        ctx.check(got == want, "variable-length bursts: yielded plans are not those of the described burst lengths", word=pat, stuck_buffer=buf, num_steps=steps, maximize=mx, progress_bar=bar, got=got[:40], want=want[:40])
                    ctx.state(pat, buf, steps)
                    ctx.trace()
        b = Bench(3)
        for sc in ([0, 1, -1], [0, 0, 1], [1, 0, 0], [0, 1, 2]):
            sc = [x if mx else -x for x in sc] + [99 if mx else -99]
            for w in ((1,), (2, 1), (0, 2, 1, 3), (1, 1, 2, 0, 0), (3, 2, 0, 1, 0, 1, 1)):
                for bl, nb in ((1, top), (top, 1), (10, top // 10), (2, 2), (3, 2), (7, 11)):
                    for acc in (None, (True, False), (False, False, True), (False,)):
                        for bar in (False, True):
                            run_words(ctx, b, mx, sc, w, bl, nb, acc, bar)
        b = Bench(3)
        score = [0, 1, -1, 1]
        # nothing here is left to chance: tilt 0 or 1, annealing at beta 0 or infinitely strict
        ORACLE.reset((), None, 10 ** 9)
        strict = lambda part: False
        for w in ((1,), (2, 1), (0, 2, 1, 3), (1, 1, 2, 0, 0), (3, 2, 0, 1, 0, 1, 1)):
            for name, kw, keepw in (("tilted_run", dict(num_steps=top, p=0), False), ("tilted_run", dict(num_steps=top, p=1), True), ("tilted_run", dict(num_steps=1, p=1), True),
                                    ("simulated_annealing", dict(num_steps=top, beta_function=lambda t: 0.0), True), ("simulated_annealing", dict(num_steps=top, beta_function=lambda t: 1e6), False)):
                for bar in (False, True):
                    it = itertools.cycle(w)
                    init = b.initial()
                    opt = SingleMetricOptimizer(lambda q: b.move(q, next(it)), [], init, lambda q: score[b.plan(q)], maximize=mx)
                    got = watch(ctx, b, opt, getattr(opt, name)(**kw, **bar_kw(bar)), init, score, mx, info=dict(method=name, word=w, progress_bar=bar))
                    mi, want = itertools.cycle(w), [0]
                    while len(want) < kw["num_steps"]:
                        q = next(mi)
                        want.append(q if keepw or better(score[q], score[want[-1]], mx) else want[-1])
                    ctx.check(got == want, "a run that leaves nothing to chance yields other plans than its rule says", method=name, word=w, progress_bar=bar, got=got[:40], want=want[:40])
                    ctx.state(name, w, keepw, kw["num_steps"])
            for bl, nb, pr in ((5, top // 5, 0), (5, top // 5, 1), (1, 7, 1), (7, 1, 0)):
                for bar in (False, True):
                    it = itertools.cycle(w)
                    init = b.initial()
                    opt = SingleMetricOptimizer(lambda q: b.move(q, next(it)), [], init, lambda q: score[b.plan(q)], maximize=mx)
                    got = watch(ctx, b, opt, opt.tilted_short_bursts(bl, nb, pr, **bar_kw(bar)), init, score, mx, info=dict(method="tilted_short_bursts", word=w, progress_bar=bar))
                    mi = itertools.cycle(w)
                    want, best = [], 0
                    for _ in range(nb):
                        cur = best
                        for s in range(bl):
                            if s:
                                q = next(mi)
                                cur = q if pr == 1 or better(score[q], score[cur], mx) else cur
                            want.append(cur)
                            if better(score[cur], score[best], mx):
                                best = cur
                    ctx.check(got == want, "tilted bursts that leave nothing to chance yield other plans than their rule says", word=w, bursts=(bl, nb), p=pr, progress_bar=bar, got=got[:40], want=want[:40])
                    ctx.state("tsb", w, bl, nb, pr)
            ctx.trace()


def variable(ctx, b, mx, score, lvl, w, steps, buf, bar=False):
    it = iter(w)
    seen = [0]
    refused = [False]

    def proposal(q):
        bp = max(seen, key=lambda i: lvl[i])
        c = next(it)
        refused[0] = c == "r"
        r = letter(c, bp, lvl)
        if c != "r":
            seen.append(r)
        return b.move(q, r)
    init = b.initial()
    opt = SingleMetricOptimizer(proposal, [], init, lambda q: score[b.plan(q)], maximize=mx)
    kw = dict(accept=lambda q: not refused[0]) if "r" in w else {}
    got = watch(ctx, b, opt, opt.variable_length_short_bursts(steps, buf, **kw, **bar_kw(bar)), init, score, mx, limit=steps + 3, info=dict(word="".join(w), stuck_buffer=buf))
    mi = iter(w)
    out, best, length, dry = [], 0, 2, 0
    while len(out) < steps:
        at_start = lvl[best]
        cur = best
        for s in range(length):
            if s:
                c = next(mi)
                cur = cur if c == "r" else letter(c, best, lvl)
            out.append(cur)
            if lvl[cur] >= lvl[best]:
                best = cur
            if len(out) == steps:
                break
        dry = dry + 1 if lvl[best] == at_start else 0
        if dry == buf:
            length, dry = 2 * length, 0
    return got, out


# ------------------------------------------------------------------ exact acceptance probabilities
def accept_model(m, steps, alpha, bursts=None, score=None, mx=True):
    """Exact distribution of yielded sequences; alpha(cur, q, t): acceptance probability."""
    dist = {}

    def rec(seq, cur, best, t, pr):
        if len(seq) == steps:
            dist[seq] = dist.get(seq, 0) + pr
            return
        if bursts and len(seq) % bursts == 0:
            b2 = best
            rec(seq + (b2,), b2, b2, 0, pr)
            return
        for q in range(m):
            al = alpha(cur, q, t + 1)
            for hit, x in ((True, al), (False, 1 - al)):
                if x:
                    c = q if hit else cur
                    nb = c if bursts and better(score[c], score[best], mx) else best
                    rec(seq + (c,), c, nb, t + 1 if hit else t, pr * x / m)
    rec((0,), 0, 0, 0, Fraction(1))
    return dist


def case_accept(ctx, p, tier):
    m, steps, mx, meth = 3, p["steps"], p["maximize"], p["method"]
    b = Bench(m)
    for score in ([p["scores"]] if meth == "annealing" else [p["scores"], [Fraction(x, 3) for x in p["scores"]]]):
        if meth == "annealing":
            tables = [([0.0, 0.25, 1.0, 0.5, 0.0, 0.75], 1, "step"), ([1.0] * 9, 400.0, "step"), ([1.0, 1.0, 0.5, 0.0, 1.0, 0.25], 1.5, "step"), ([0.0, 1.0, 0.0, 1.0, 0.5, 0.0], 0.5, "counter")]
            confs = [dict(beta=t, mag=g, ix=ix) for t, g, ix in tables]
        else:
            confs = [dict(p=x) for x in (0, 0.25, 1)]
        for cf in confs:
            def alpha(cur, q, t):
                if meth != "annealing":
                    return Fraction(1) if better(score[q], score[cur], mx) else Fraction(cf["p"])
                worse = (score[cur] - score[q]) if mx else (score[q] - score[cur])
                if worse <= 0:
                    return Fraction(1)
                return Fraction(min(1.0, math.exp(-cf["beta"][t] * cf["mag"] * worse)))
            bl = 2 if steps == 4 else 3
            total = steps if meth != "tilted_short_bursts" else bl * 2
            want = accept_model(m, total, alpha, bl if meth == "tilted_short_bursts" else None, score, mx)
            dist = {}

            def run():
                init = b.initial()
                asked = []

                def beta(t):
                    asked.append(t)
                    return cf["beta"][t]
                kw = {}
                if cf.get("ix", "step") != "step":
                    kw["step_indexer"] = cf["ix"]
                opt = SingleMetricOptimizer(lambda q: b.move(q, ORACLE.uniform(m, "p")), [], init, lambda q: score[b.plan(q)], maximize=mx, **kw)
                if meth == "annealing":
                    g = opt.simulated_annealing(steps, beta, beta_magnitude=cf["mag"])
                elif meth == "tilted_run":
                    g = opt.tilted_run(steps, cf["p"])
                else:
                    g = opt.tilted_short_bursts(bl, 2, cf["p"])
                return tuple(watch(ctx, b, opt, g, init, score, mx, limit=total + 2, info=dict(method=meth, scores=score, conf=cf)))

            def on(seq, pr, ch):
                dist[seq] = dist.get(seq, Fraction(0)) + pr
                ctx.state(meth, seq, tuple(score), str(cf))
            st = explore(run, on, horizon=2000)
            ctx.absorb(st)
            ctx.trace(st.executions)
            for s in set(dist) | set(want):
                ctx.check(abs(dist.get(s, 0) - want.get(s, 0)) <= TOL, "the run's plans do not have the probabilities of the stated acceptance rule", method=meth, maximize=mx, scores=score, conf=cf,
                          plans=s, got=float(dist.get(s, 0)), want=float(want.get(s, 0)))
            ctx.outcome((meth, len(dist)))


# ------------------------------------------------------------------ runs start afresh; progress bars
def methods(opt, steps=4, bar=False):
    return {
        "short_bursts": lambda: opt.short_bursts(2, steps // 2, with_progress_bar=bar),
        "tilted_short_bursts": lambda: opt.tilted_short_bursts(2, steps // 2, 0.5, with_progress_bar=bar),
        "variable": lambda: opt.variable_length_short_bursts(steps, 1, with_progress_bar=bar),
        "annealing": lambda: opt.simulated_annealing(steps, lambda t: 1.0, with_progress_bar=bar),
        "tilted_run": lambda: opt.tilted_run(steps, 0.5, with_progress_bar=bar),
    }


def case_again(ctx, p, tier):
    """Every pair of runs on one optimizer; the first abandoned after any number of plans."""
    mx = p["maximize"]
    b = Bench(3)
    steps = 4
    for score in ([0, 1, -1], [1, 0, 2], [0, 0, 0]):
        score = [x if mx else -x for x in score]
        fresh = {}

        def dist_of(first, cut, second):
            d = {}

            def run():
                init = b.initial()
                opt = SingleMetricOptimizer(lambda q: b.move(q, it[0]()), [], init, lambda q: score[b.plan(q)], maximize=mx)
                ms = methods(opt)
                it = [None]
                if first:
                    cyc = itertools.cycle((1, 2, 0, 2))
                    it[0] = lambda: next(cyc)
                    # the first run uses a fixed continuation of draws (all first options)
                    watch(ctx, b, opt, ms[first](), init, score, mx, limit=cut, info=dict(first=first, cut=cut))
                mark = len(ORACLE.trace)
                it[0] = lambda: ORACLE.uniform(3, "p")
                return tuple(watch(ctx, b, opt, ms[second](), init, score, mx, info=dict(first=first, cut=cut, second=second))), mark

            def on(r, pr, ch):
                seq, mark = r
                ctx.trans()
                d[seq] = d.get(seq, Fraction(0)) + pr
            st = explore(run, on, horizon=500)
            ctx.absorb(st)
            ctx.trace(st.executions)
            return d
        names = list(methods(None).keys())
        for second in names:
            fresh[second] = dist_of(None, None, second)
            ctx.check(all(len(s) == steps for s in fresh[second]), "a run does not yield exactly the requested number of plans", method=second, lengths=sorted({len(s) for s in fresh[second]}))
            ctx.check(all(s[0] == 0 for s in fresh[second]), "a run does not start at the initial plan", method=second)
        for first in names:
            for cut in range(1, steps + 1):
                for second in names:
                    d = dist_of(first, cut, second)
                    f = fresh[second]
                    for s in set(d) | set(f):
                        ctx.check(abs(d.get(s, 0) - f.get(s, 0)) <= TOL, "a second run on the same optimizer is not distributed like a fresh one", first=first, cut=cut, second=second, scores=score, plans=s,
                                  got=float(d.get(s, 0)), want=float(f.get(s, 0)))
                    ctx.state(first, cut, second)


def case_bar(ctx, p, tier):
    """Progress bars change nothing."""
    mx = p["maximize"]
    b = Bench(3)
    score = [0, 1, -1]
    for name in methods(None):
        ds = []
        for bar in (False, True):
            d = {}

            def run():
                init = b.initial()
                opt = SingleMetricOptimizer(lambda q: b.move(q, ORACLE.uniform(3, "p")), [], init, lambda q: score[b.plan(q)], maximize=mx)
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    return tuple(watch(ctx, b, opt, methods(opt, 4, bar)[name](), init, score, mx, info=dict(method=name, bar=bar)))

            def on(seq, pr, ch):
                d[seq] = d.get(seq, Fraction(0)) + pr
            st = explore(run, on, horizon=500)
            ctx.absorb(st)
            ctx.trace(st.executions)
            ds.append(d)
        for s in set(ds[0]) | set(ds[1]):
            ctx.check(abs(ds[0].get(s, 0) - ds[1].get(s, 0)) <= TOL, "showing a progress bar changes the run", method=name, plans=s)
        ctx.state(name)
