"""C09 Bound, population and validity constraints decide exactly what they state."""
import copy, itertools
from fractions import Fraction
import numpy
from gerrychain import GeographicPartition, Partition
from gerrychain.constraints import (Bounds, LowerBound, SelfConfiguringLowerBound, SelfConfiguringUpperBound, UpperBound, Validator,
                                    WithinPercentRangeOfBounds, deviation_from_ideal, districts_within_tolerance,
                                    no_vanishing_districts, no_worse_L1_reciprocal_polsby_popper, no_worse_L_minus_1_polsby_popper,
                                    within_percent_of_ideal_population)
from gerrychain.constraints.compactness import L1_reciprocal_polsby_popper, L_minus_1_polsby_popper
from gerrychain.metrics import polsby_popper
from gerrychain.updaters import Tally
from mc.core import gen, hist

ID = "C09"
BOUNDS = {
    "quick": "all value vectors of length <=3 over {-2,-1,0,1,2} with all bounds; all sequences of <=4 values over {-2,-1,-1/2,0,1/2,1,2} per self-configuring bound, epsilons and percentages; all plans and flips (<=2 nodes) on 3-5 node graphs with 5 population patterns (unpopulated districts included) x 6 percentages; all answer words of length <=3 over 9 kinds of answer; bounds on up to 3000 values; values from 1e-6 to 30 limits away from limits of six magnitudes; the default percentages and five others on populations of 10^3 to 10^6; plans of 5 to 150 districts with the deviation in any one district",
    "thorough": "sequences of <=5 values; 6-node graphs; words of length 4",
}
ASSUMPTIONS = ["values exactly on a limit that is not representable in binary are not decided",
               "districts_within_tolerance takes numbers of 1 and above as percents, as its code does", "population plans with an emptied district are judged by no_vanishing_districts"]
VALS = [-2, -1, -0.5, 0, 0.5, 1, 2]


class Val:
    """Stands for a plan; the bounded function reads its value."""
    def __init__(self, v):
        self.v = v


def value(q):
    return q.v


def values(q):
    return q.v


def cases(tier):
    th = tier == "thorough"
    yield "fixed", {}
    for first in VALS:
        for t in ("int", "float", "numpy"):
            yield "selfconf", dict(first=first, type=t, length=5 if th else 4)
    for n in (3, 4, 5) + ((6,) if th else ()):
        for e in gen.connected(n):
            if n > 4 and len(e) not in ((4, 5, 6) if n == 5 else (5, 6)):
                continue
            for k in (2, 3):
                for pops in ("equal", "ramp", "skew", "zeros", "gone"):
                    yield "pop", dict(edges=[list(x) for x in e], n=n, k=k, pops=pops, size=2 if n <= 4 else 1)
    for n in (2, 3, 4):
        for e in gen.connected(n):
            for k in (2, 3):
                if k <= n:
                    yield "vanish", dict(edges=[list(x) for x in e], n=n, k=k)
    for L in range(0, 5 if th else 4):
        for head in (range(9) if L else (0,)):
            yield "validator", dict(length=L, head=head)
    yield "compact", dict(k=2)
    yield "fine", {}
    yield "wide", {}
    yield "defaults", {}
    for k in (5, 13, 17, 26, 60, 150):
        yield "manypop", dict(k=k)


def case_fixed(ctx, p, tier):
    small = [-2, -1, 0, 1, 2]
    for r in (1, 2, 3):
        for vs in itertools.product(small, repeat=r):
            for lo in small + [-0.5]:
                for hi in small + [0.5]:
                    for box in (list, tuple, lambda x: dict(enumerate(x)).values()):
                        b = Bounds(lambda q, box=box: box(q.v), (lo, hi))
                        ctx.check(bool(b(Val(vs))) == all(lo <= v <= hi for v in vs), "Bounds is not the inclusive two-sided bound", values=vs, bounds=(lo, hi))
                    ctx.trans()
            ctx.state(vs)
            ctx.trace()
    for v in VALS:
        for b in VALS:
            for conv in (lambda x: x, float, numpy.float64):
                u, l = UpperBound(value, conv(b)), LowerBound(value, conv(b))
                for _ in range(2):
                    ctx.check(bool(u(Val(conv(v)))) == (v <= b), "UpperBound is not the inclusive upper bound", value=v, bound=b)
                    ctx.check(bool(l(Val(conv(v)))) == (v >= b), "LowerBound is not the inclusive lower bound", value=v, bound=b)
            ctx.state("ul", v, b)
            ctx.trace()


def case_selfconf(ctx, p, tier):
    conv = {"int": lambda x: x, "float": float, "numpy": numpy.float64}[p["type"]]
    first = p["first"]
    L = p["length"]
    vals = VALS if L <= 4 else [-2, -1, 0, 1, 2]
    rules = [("upper", lambda: SelfConfiguringUpperBound(value), lambda f, v: v <= f)]
    for eps in (0, 0.5, 1, 0.25):
        rules.append(("lower eps %s" % eps, lambda eps=eps: SelfConfiguringLowerBound(value, eps) if eps != 0.5 else SelfConfiguringLowerBound(value, epsilon=eps), lambda f, v, eps=eps: v >= f - eps))
    rules.append(("lower default", lambda: SelfConfiguringLowerBound(value), lambda f, v: v >= f - 0.05))
    for pc in (0, 50, 100, 25):
        rules.append(("percent %s" % pc, lambda pc=pc: WithinPercentRangeOfBounds(value, pc), lambda f, v, pc=pc: min(f * (1 - pc / 100), f * (1 + pc / 100)) <= v <= max(f * (1 - pc / 100), f * (1 + pc / 100))))
    for name, mk, want in rules:
        for rest in itertools.product(vals, repeat=L - 1):
            rule = mk()
            for i, v in enumerate((first,) + rest):
                got = rule(Val(conv(v)))
                ctx.check(bool(got) == bool(want(first, v)), "self-configuring bound (%s) gave %s" % (name, got), first=first, sequence=(first,) + rest[:i], value=v)
                ctx.trans()
            ctx.state(name, first, rest)
            ctx.trace()
        # two independent rules do not share their limits
        for v in vals:
            r1, r2 = mk(), mk()
            r1(Val(conv(first)))
            r2(Val(conv(v)))
            for x in vals:
                ctx.check(bool(r1(Val(x))) == bool(want(first, x)) and bool(r2(Val(x))) == bool(want(v, x)), "two bounds share their limit", first=(first, v), value=x)
                ctx.trans()


def case_fine(ctx, p, tier):
    """Values just inside and just outside the limits, for limits of every size."""
    for scale in (1e-6, 1e-3, 1, 40, 1000, 10 ** 9):
        for f in (-2, -1, 0, 1, 2, 0.5):
            f = f * scale
            rules = [(lambda: SelfConfiguringUpperBound(value), None, f)]
            rules += [(lambda e=e: SelfConfiguringLowerBound(value, e), f - e, None) for e in (0, 1e-9, 0.001, 0.01, 0.05, 0.3, 3, 100)]
            rules += [(lambda: SelfConfiguringLowerBound(value), f - 0.05, None)]
            for pc in (0, 0.5, 1, 5, 30, 99, 150, 250):
                x, y = f * (1 - pc / 100), f * (1 + pc / 100)
                rules.append((lambda pc=pc: WithinPercentRangeOfBounds(value, pc), min(x, y), max(x, y)))
            rules += [(lambda lo=f - g, hi=f + g: Bounds(lambda q: [q.v, f], (lo, hi)), f - g, f + g) for g in (0, 0.01, 5)]
            rules += [(lambda: UpperBound(value, f), None, f), (lambda: LowerBound(value, f), f, None)]
            for mk, lo, hi in rules:
                for delta in (1e-6, 0.001, 0.004, 0.01, 0.03, 0.2, 1, 30):
                    size = delta * max(abs(lo or 0), abs(hi or 0), scale)
                    for lim in (lo, hi):
                        if lim is None:
                            continue
                        for v in (lim - size, lim + size):
                            rule = mk()
                            if not isinstance(rule, (UpperBound, LowerBound, Bounds)):
                                ctx.check(rule(Val(f)), "the first plan is refused by its own bound", first=f)
                            want = (lo is None or v >= lo) and (hi is None or v <= hi)
                            ctx.check(bool(rule(Val(v))) == want, "a bound decides a value near its limit wrongly", rule=type(rule).__name__, first=f, limits=(lo, hi), value=v)
                            ctx.trans()
            ctx.state(scale, f)
            ctx.trace()


def case_wide(ctx, p, tier):
    """Bounded functions with many values, the deciding one anywhere."""
    for n in (10, 100, 999, 3000):
        for at in (0, 1, n // 2, n - 2, n - 1):
            for x in (-2, -1, 0, n, n + 1, n + 2):
                vs = list(range(n))
                vs[at] = x
                for lo, hi in ((-1, n + 1), (0, n), (-1, n), (0, n + 1)):
                    for box in (list, lambda q: dict(enumerate(q)).values(), lambda q: {v: None for v in q}):
                        b = Bounds(lambda q, box=box: box(q.v), (lo, hi))
                        ctx.check(bool(b(Val(vs))) == (lo <= min(vs) and max(vs) <= hi), "Bounds is not the inclusive two-sided bound", values=n, odd=(at, x), bounds=(lo, hi))
                    ctx.trans()
                ctx.state(n, at, x)
        ctx.trace()


def case_manypop(ctx, p, tier):
    """Plans with many districts, one of which decides."""
    k = p["k"]
    n = 4 * k
    lab = list(range(n))
    for names in ([i for i in range(k)], ["D%d" % (k - i) for i in range(k)], [-1 - 3 * i for i in range(k)]):
        a = [names[i // 4] for i in lab]
        g = gen.build(gen.path(n), n, "int", {"pop": [25] * n})
        part = Partition(g, dict(zip(lab, a)), updaters={"population": Tally("pop", alias="population")}, use_default_updaters=False)
        cons = [(within_percent_of_ideal_population(part, pc), Fraction(pc)) for pc in (0.125, 0.25, 0.375, 0.5)]
        for d in sorted({0, 1, k // 3, k // 2, k - 2, k - 1}):
            for size in (1, 2):
                for to in sorted({(d + 1) % k, (d - 1) % k, 0, k - 1} - {d}):
                    f = {4 * d + j: names[to] for j in range(size)}
                    q = part.flip(dict(f))
                    s = [100] * k
                    s[d] -= 25 * size
                    s[to] += 25 * size
                    for c, pc in cons:
                        want = all(abs(v - 100) <= pc * 100 for v in s)
                        ctx.check(bool(c(q)) == want, "within_percent_of_ideal_population decides wrongly", districts=k, from_=d, to=to, size=size, percent=float(pc))
                        ctx.check(bool(c(part)), "the initial plan is refused", districts=k)
                        ctx.trans()
                    dev = deviation_from_ideal(q)
                    ctx.check(set(dev) == set(names) and all(abs(dev[names[i]] - (s[i] - 100) / 100) < 1e-12 for i in range(k)), "deviation_from_ideal is not (value - ideal)/ideal", districts=k, got=dev)
                    for pct in (0.25, 0.5, 0.75, 0.999, 50, 99):
                        fr = Fraction(pct) if pct < 1 else Fraction(pct, 100)
                        ctx.check(bool(districts_within_tolerance(q, "population", pct)) == (max(s) - min(s) <= fr * min(s)), "districts_within_tolerance decides wrongly", sums=(max(s), min(s)), percentage=pct)
                    ctx.state(k, d, size, to)
            # the odd district reported by the plan itself
            for v in (0, 60, 87, 88, 112, 113, 400):
                vals = {x: 100 for x in names}
                vals[names[d]] = v
                for c, pc in cons:
                    ctx.check(bool(c({"population": vals})) == (abs(v - 100) <= pc * 100), "within_percent_of_ideal_population decides wrongly", districts=k, odd=d, value=v, percent=float(pc))
                    ctx.trans()
        # several districts emptied: still refused
        q = part
        for d in (0, k // 2, k - 1):
            q = part.flip({4 * d + j: names[(d + 1) % k] for j in range(4)})
            ctx.check(no_vanishing_districts(q) is False or not no_vanishing_districts(q), "an emptied district is not noticed", districts=k, emptied=d)
            q2 = part.flip({4 * d: names[(d + 1) % k]})
            ctx.check(bool(no_vanishing_districts(q2)), "a plan without an empty district is refused", districts=k)
    ctx.trace()


def case_defaults(ctx, p, tier):
    """Population limits near their default percentages, and other percentages on populations of thousands."""
    for base in (1000, 20000, 700000):
        step = base // 1000
        g = gen.build(gen.path(4), 4, "int", {"pop": [base, 0, base, 0]})
        lab = gen.labels("int", 4)
        for d in list(range(0, 30)) + list(range(90, 111)) + [300, 500, 900, 999]:
            for sign in (1, -1):
                x, y = base + sign * d * step, base - sign * d * step
                up = {"population": lambda q, x=x, y=y: {1: x, 2: y}, "other": lambda q, x=x: {1: base, 2: x}}
                start = Partition(g, {v: 1 + i // 2 for i, v in enumerate(lab)}, updaters={"population": lambda q: {1: base, 2: base}}, use_default_updaters=False)
                plan = Partition(g, {v: 1 + i // 2 for i, v in enumerate(lab)}, updaters=up, use_default_updaters=False)
                for pc, c in [(Fraction(1, 100), within_percent_of_ideal_population(start))] + [(Fraction(k, 1000), within_percent_of_ideal_population(start, k / 1000)) for k in (1, 5, 20, 50, 100)]:
                    dev = Fraction(d * step, base)
                    if dev != pc:
                        ctx.check(bool(c(plan)) == (dev <= pc), "within_percent_of_ideal_population decides wrongly", sums=(x, y), percent=float(pc))
                        ctx.trans()
                for key, (u, v) in (("population", (x, y)), ("other", (base, x))):
                    u, v = min(u, v), max(u, v)
                    for pc, got in [(Fraction(1, 10), lambda: districts_within_tolerance(plan, key)), (Fraction(1, 10), lambda: districts_within_tolerance(plan, attribute_name=key))] + [(Fraction(k, 1000), lambda k=k: districts_within_tolerance(plan, key, percentage=k / 1000)) for k in (1, 5, 10, 50, 200)]:
                        if u > 0 and v - u != pc * u:
                            ctx.check(bool(got()) == (v - u <= pc * u), "districts_within_tolerance decides wrongly", sums=(u, v), percent=float(pc))
                            ctx.trans()
                ctx.state(base, d, sign)
        ctx.trace()


POPS = {"zeros": [4, 0, 2, 0, 2, 4], "gone": [6, 6, 0, 0, 0, 0], "equal": [4] * 6, "ramp": [1, 2, 3, 4, 5, 6], "skew": [8, 1, 1, 2, 4, 1]}


def case_pop(ctx, p, tier):
    w = hist.World(dict(p, a0=[0] * p["n"], parts="str"))
    pop = POPS[p["pops"]][: w.n]
    w.attrs = {"pop": pop, "other": pop[::-1]}
    g = w.graph()
    total = sum(pop)
    ideal = Fraction(total, w.k)
    pcs = [0.0, 0.01, 0.125, 0.25, 0.5, 1.0]
    starts = list(gen.set_partitions(w.n, w.k))
    for a in starts:
        part = Partition(g, w.assignment(a), updaters={"population": Tally("pop", alias="population"), "alt": Tally("other", alias="alt")}, use_default_updaters=False)
        cons = []
        for pc in pcs:
            cons.append((within_percent_of_ideal_population(part, pc), pc, pop))
            cons.append((within_percent_of_ideal_population(part, percent=pc, pop_key="alt"), pc, pop[::-1]))
        cons.append((within_percent_of_ideal_population(part), 0.01, pop))
        for f in gen.all_flips(range(w.n), w.k, p["size"]):
            b = gen.apply(a, f)
            if len(set(b)) < w.k:
                continue
            child = part.flip(w.flips(f)) if f else part
            for c, pc, pp in cons:
                s = [sum(pp[i] for i in range(w.n) if b[i] == d) for d in range(w.k)]
                lo, hi = (1 - Fraction(pc)) * ideal, (1 + Fraction(pc)) * ideal
                if pc in (0.01,) or w.k == 3:
                    if any(v != ideal and min(abs(v - lo), abs(v - hi)) < Fraction(1, 10 ** 6) for v in s) or (w.k == 3 and pc == 0.0 and ideal.denominator != 1):
                        continue
                want = all(lo <= v <= hi for v in s)
                ctx.check(bool(c(child)) == want, "within_percent_of_ideal_population decides wrongly", initial=a, plan=b, sums=s, percent=pc)
                ctx.trans()
            s = [sum(pop[i] for i in range(w.n) if b[i] == d) for d in range(w.k)]
            dev = deviation_from_ideal(child, "population") if f else deviation_from_ideal(child)
            ctx.check(set(dev) == set(w.dl) and all(abs(dev[w.dl[d]] - float((s[d] - ideal) / ideal)) < 1e-12 for d in range(w.k)), "deviation_from_ideal is not (value - ideal)/ideal", sums=s, got=dev)
            s2 = [sum(pop[w.n - 1 - i] for i in range(w.n) if b[i] == d) for d in range(w.k)]
            dev = deviation_from_ideal(child, attribute="alt")
            ctx.check(all(abs(dev[w.dl[d]] - float((s2[d] - ideal) / ideal)) < 1e-12 for d in range(w.k)), "deviation_from_ideal ignores the attribute", sums=s2, got=dev)
            for arg, frac in ((0.125, Fraction(1, 8)), (0.5, Fraction(1, 2)), (0.25, Fraction(1, 4)), (1, Fraction(1, 100)), (1.0, Fraction(1, 100)), (2, Fraction(1, 50)), (25, Fraction(1, 4)), (100, Fraction(1)), (50, Fraction(1, 2)), (75, Fraction(3, 4)), (0.999, Fraction(999, 1000))):
                for at, sm in (("population", s), ("alt", s2)):
                    if arg == 0.999 and max(sm) - min(sm) == frac * min(sm):
                        continue
                    ctx.check(bool(districts_within_tolerance(child, at, arg)) == (max(sm) - min(sm) <= frac * min(sm)), "districts_within_tolerance decides wrongly", sums=sm, percentage=arg)
            if 10 * (max(s) - min(s)) != min(s):
                ctx.check(bool(districts_within_tolerance(child)) == (max(s) - min(s) <= 0.1 * min(s)), "districts_within_tolerance default decides wrongly", sums=s)
            ctx.state(a, b)
            ctx.trace()


def case_vanish(ctx, p, tier):
    w = hist.World(dict(p, a0=[0] * p["n"], nodes="str", parts="mix"))
    g = w.graph()
    for a in gen.set_partitions(w.n, w.k):
        part = Partition(g, w.assignment(a), updaters={}, use_default_updaters=False)
        ctx.check(no_vanishing_districts(part) is True, "an initial plan is refused", plan=a)
        for f in gen.all_flips(range(w.n), w.k):
            b = gen.apply(a, f)
            child = part.flip(w.flips(f))
            ctx.check(bool(no_vanishing_districts(child)) == (len(set(b)) == w.k), "no_vanishing_districts decides wrongly", plan=a, flips=f)
            ctx.trans()
            for f2 in gen.single_flips(w.n, w.k):
                c = gen.apply(b, f2)
                ctx.check(bool(no_vanishing_districts(child.flip(w.flips(f2)))) == (len(set(c)) == w.k), "no_vanishing_districts decides wrongly after two flips", plan=a, flips=(f, f2))
                ctx.trans()
            ctx.state(a, f)
            ctx.trace()


ANS = [True, False, numpy.bool_(True), numpy.bool_(False), 1, 0, None, "yes", numpy.int64(1)]


def case_validator(ctx, p, tier):
    q = Val(1)
    for rest in itertools.product(range(len(ANS)), repeat=max(0, p["length"] - 1)):
        word = ((p["head"],) + rest) if p["length"] else ()
        calls = []

        def mk(i, x):
            def c(part):
                ctx.check(part is q, "a constraint was given something other than the plan")
                calls.append(i)
                return ANS[x]
            return c
        box = (list, tuple, iter, lambda cs: (c for c in cs), lambda cs: dict(enumerate(cs)).values())[(len(word) + sum(word)) % 5]
        v = Validator(box([mk(i, x) for i, x in enumerate(word)]))
        want, stop = True, len(word)
        for i, x in enumerate(word):
            if x in (1, 3):
                want, stop = False, i + 1
                break
            if x > 3:
                want, stop = TypeError, i + 1
                break
        for again in range(2):
            calls.clear()
            try:
                got = v(q)
            except TypeError:
                got = TypeError
            ctx.check(got is want, "a validator is not the conjunction of its constraints", answers=[repr(ANS[x]) for x in word], got=repr(got))
            ctx.eq(calls, list(range(stop)), "a validator did not ask its constraints in order up to the first failure", answers=[repr(ANS[x]) for x in word])
            ctx.trans()
        ctx.state(word)
        ctx.trace()


def case_compact(ctx, p, tier):
    e = gen.grid(2, 3)
    w = hist.World(dict(edges=e, n=6, k=2, a0=[0] * 6))
    w.attrs = {"area": [1] * 6, "boundary_node": [True] * 6, "boundary_perim": [2, 1, 2, 2, 1, 2]}
    w.eattrs = {"shared_perim": lambda i, j: 1}
    g = w.graph()
    plans = list(gen.contiguous_plans(e, 6, 2, unlabelled=True))
    obj = {a: GeographicPartition(g, w.assignment(a), updaters={"polsby_popper": polsby_popper}) for a in plans}
    for fn, inst, sign in ((L1_reciprocal_polsby_popper, no_worse_L1_reciprocal_polsby_popper, 1), (L_minus_1_polsby_popper, no_worse_L_minus_1_polsby_popper, -1)):
        for a in plans:
            rule = copy.deepcopy(inst)
            ctx.check(bool(rule(obj[a])), "the first plan is refused by its own bound", first=a)
            va = fn(obj[a])
            for b in plans:
                vb = fn(obj[b])
                lim = va if sign == 1 else va - 0.05
                want = vb <= lim if sign == 1 else vb >= lim
                if abs(vb - lim) < 1e-9 and vb != lim:
                    continue
                ctx.check(bool(rule(obj[b])) == want, "no-worse compactness rule decides wrongly", first=a, plan=b)
                ctx.trans()
            ctx.state(fn.__name__, a)
            ctx.trace()
