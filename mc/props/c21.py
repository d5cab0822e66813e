"""C21 Election queries and partisan metrics equal their definitions."""
import itertools, math
from fractions import Fraction
from gerrychain import Partition
from gerrychain.updaters import Election
from gerrychain.metrics import efficiency_gap, mean_median, partisan_bias, partisan_gini, wasted_votes
import gerrychain.metrics.partisan as pm
from mc.core import gen
from mc.core.hist import PARTLABELS

ID = "C21"
BOUNDS = {
    "quick": "every vote table: 2 parties with 1-2 districts over {0..4}, 3 districts over {0..3}, 4 districts over {0,1,3}, 5-6 districts over {1,3} x {1,2}; 3 parties with 1 district over {0..4}, 2 districts over {0..3}, 3 districts over {0,1,2}; large and fractional vote counts (near ties included); both/all party orders; columns given as a list, attribute names and per-node tables; one- and two-node districts; four kinds of district labels; 42 tables with 7-101 districts, all party orders",
    "thorough": "3 districts over {0..5}, 4 districts over {0..3}, 3 parties over {0..3} on 3 districts",
}
ASSUMPTIONS = ["scores built on shares are undefined when some district has no votes (only counts are then checked, and that the shares are NaN)", "tied districts count as won by nobody for seats, and as won by the second party for wasted votes (the code's convention)",
               "a share within 1e-9 of the mean is judged in partisan bias only when all shares are exactly representable in binary", "float results compared with tolerance 1e-9"]


def tables(tier):
    th = tier == "thorough"
    yield 2, 1, range(0, 5)
    yield 2, 2, range(0, 5)
    yield 2, 3, range(0, 6 if th else 4)
    yield 2, 4, range(0, 4) if th else (0, 1, 3)
    yield 2, 3, (1, 2, 5)
    yield 2, 2, (0, 1, 10 ** 6, 10 ** 9 + 7)
    yield 2, 2, (5000000, 5000001, 2 ** 40, 2 ** 40 + 1)
    yield 2, 2, (0, 0.25, 10.25, 10.75, 11.5)           # fractional votes
    yield 2, 3, (0.25, 10.25, 10.75)
    yield 3, 1, (0.25, 10.25, 10.75)
    yield 2, 5, (1, 3)
    yield 2, 6, (1, 2)
    yield 3, 1, range(0, 5)
    yield 3, 2, range(0, 4)
    yield 3, 3, range(0, 4 if th else 3)


def cases(tier):
    for np_, nd, al in tables(tier):
        al = list(al)
        for first in itertools.product(al, repeat=min(np_, 2)):
            for order in range(math.factorial(np_)):
                yield "table", dict(parties=np_, districts=nd, alphabet=al, first=list(first), order=order)
    yield "waste", {}
    for D in (7, 9, 13, 20, 33, 50, 101):
        for P in (2, 3):
            for pat in range(6):
                yield "many", dict(D=D, P=P, pat=pat)


def med(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def dyadic(f):
    return f.denominator & (f.denominator - 1) == 0 and f.denominator <= 2 ** 20


def waste(x, y):
    x, y = Fraction(x), Fraction(y)
    t = x + y
    return (x - t / 2, y) if x > y else (x, y - t / 2)


def gini(shares, overall):
    sv = [overall - r + Fraction(1, 2) for r in sorted(shares, reverse=True)]
    rf = [1 - s for s in sv][::-1]
    return sum(abs(s - r) for s, r in zip(sv, rf)) / len(sv)


FORMS = ("list", "attr", "table")


def case_table(ctx, p, tier):
    P, D = p["parties"], p["districts"]
    names = ["Dem", "Rep", "Ind"][:P]
    order = list(itertools.permutations(range(P)))[p["order"]]
    parties = [names[i] for i in order]
    cnt = 0
    for rest in itertools.product(p["alphabet"], repeat=P * D - len(p["first"])):
        flat = list(p["first"]) + list(rest)
        T = [flat[i * P:(i + 1) * P] for i in range(D)]        # T[district][canonical party]
        cnt += 1
        form = FORMS[cnt % 3]
        dl = (PARTLABELS[["int", "str", "mix", "one"][cnt % 4]] + [20, 21] if cnt % 4 != 1 else PARTLABELS["str"] + ["E", "F"])[:D]
        two = cnt % 5 == 0                  # split each district's votes over two nodes
        nodes, val, asg = [], {}, {}
        for d in range(D):
            for s in range(2 if two else 1):
                v = 2 * d + s if two else d
                nodes.append(v)
                asg[v] = dl[d]
                val[v] = [(x // 2 if s else x - x // 2) if two else x for x in T[d]]
        N = len(nodes)
        if form == "list":
            cols, attrs = parties, {names[j]: [val[v][j] for v in nodes] for j in range(P)}
        elif form == "attr":
            cols, attrs = {names[j]: "votes_" + names[j] for j in order}, {"votes_" + names[j]: [val[v][j] for v in nodes] for j in range(P)}
        else:
            cols, attrs = {names[j]: {v: val[v][j] for v in nodes} for j in order}, {}
        g = gen.build(gen.path(N), N, attrs=attrs)
        el = Election("E", cols) if cnt % 2 else Election("Some Election", cols, alias="E")
        part = Partition(g, asg, updaters={"E": el}, use_default_updaters=False)
        judge(ctx, part, part["E"], T, dl, names, parties, D, P)
        ctx.trace()
        ctx.state(tuple(flat), p["order"], P)


def near(x, y):
    return abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(y)))


def judge(ctx, part, r, T, dl, names, parties, D, P):
    info = dict(votes=T, parties=parties)
    pos = {n: i for i, n in enumerate(names)}
    regs = list(part.parts)
    ctx.check(sorted(map(str, regs)) == sorted(map(str, dl)), "districts missing", **info)
    dd = {l: i for i, l in enumerate(dl)}
    tot = {l: sum(T[dd[l]]) for l in dl}
    allv = sum(tot.values())
    ctx.trans()
    ctx.check(r.total_votes() == allv, "total votes are wrong", got=r.total_votes(), want=allv, **info)
    for q in parties:
        v = {l: T[dd[l]][pos[q]] for l in dl}
        ctx.check(tuple(r.counts(q)) == tuple(v[l] for l in regs) and tuple(r.votes(q)) == tuple(v[l] for l in regs), "vote counts are wrong", party=q, got=list(r.counts(q)), **info)
        ctx.check(r.count(q) == sum(v.values()), "overall count is wrong", party=q, got=r.count(q), **info)
        seats = 0
        for l in dl:
            win = all(v[l] > T[dd[l]][j] for j in range(P) if j != pos[q])
            seats += win
            ctx.check(bool(r.won(q, l)) == win, "a party wins iff it has strictly more votes than every other", party=q, district=l, got=bool(r.won(q, l)), **info)
            ctx.check(r.count(q, l) == v[l], "district count is wrong", party=q, district=l, **info)
            x = r.percent(q, l)
            if tot[l] == 0:
                ctx.check(math.isnan(x), "share of a district without votes is defined", party=q, district=l, got=x, **info)
            else:
                ctx.check(near(x, Fraction(v[l]) / Fraction(tot[l])), "district share is wrong", party=q, district=l, got=float(x), **info)
        ctx.check(r.seats(q) == seats and r.wins(q) == seats, "seats are not the number of districts won", party=q, got=(int(r.seats(q)), int(r.wins(q))), want=seats, **info)
        pc = r.percents(q)
        ctx.check(len(pc) == D and all((math.isnan(x) and tot[l] == 0) or (tot[l] and near(x, Fraction(v[l]) / Fraction(tot[l]))) for x, l in zip(pc, regs)), "shares are wrong", party=q, got=list(map(float, pc)), **info)
        if allv:
            ctx.check(near(r.percent(q), Fraction(sum(v.values())) / Fraction(allv)), "overall share is wrong", party=q, got=float(r.percent(q)), **info)
    if allv and P == 2:
        a, b = pos[parties[0]], pos[parties[1]]
        eg = sum(waste(t[a], t[b])[1] - waste(t[a], t[b])[0] for t in T) / Fraction(allv)
        for f in (r.efficiency_gap, lambda: efficiency_gap(r)):
            ctx.check(near(f(), eg), "efficiency gap is not (wasted votes of second - first party) / votes", got=float(f()), want=float(eg), **info)
    if all(tot.values()):
        sh = [Fraction(T[dd[l]][pos[parties[0]]]) / Fraction(tot[l]) for l in dl]
        mean = sum(sh) / D
        over = Fraction(sum(T[i][pos[parties[0]]] for i in range(D))) / Fraction(allv)
        mm = med(sh) - mean
        mt = sorted(sh)[round(D / 3)] - mean
        gi = gini(sh, over)
        for f, want, what in ((r.mean_median, mm, "mean-median"), (lambda: mean_median(r), mm, "mean-median"), (r.mean_thirdian, mt, "mean-thirdian"), (lambda: pm.mean_thirdian(r), mt, "mean-thirdian"),
                              (r.partisan_gini, gi, "partisan Gini"), (lambda: partisan_gini(r), gi, "partisan Gini")):
            ctx.check(near(f(), want), what + " is not its definition", got=float(f()), want=float(want), **info)
        if all(abs(s - mean) > Fraction(1, 10 ** 9) for s in sh) or all(dyadic(s) for s in sh) and dyadic(mean):
            pb = Fraction(sum(s > mean for s in sh), D) - Fraction(1, 2)
            for f in (r.partisan_bias, lambda: partisan_bias(r)):
                ctx.check(near(f(), pb), "partisan bias is not (districts above the mean share) / districts - 1/2", got=float(f()), want=float(pb), **info)
        ctx.outcome((float(mm), float(gi)))


def case_many(ctx, p, tier):
    """Many districts, systematic vote tables."""
    D, P, pat = p["D"], p["P"], p["pat"]
    names = ["Dem", "Rep", "Ind"][:P]
    T = [[{0: (i * (7 + 4 * j) + j) % 23 + 1, 1: 100 + (i if j == 0 else D - i), 2: 50 + (i + j) % 2, 3: (i * i + 3 * j) % 11 + 1, 4: 10 ** (i % 5) + j * (i % 3), 5: 1000 if (i + j) % P == 0 else i + 1}[pat] for j in range(P)] for i in range(D)]
    dl = list(range(1, D + 1)) if pat % 2 else ["D%d" % i for i in range(D)]
    for order in itertools.permutations(range(P)):
        parties = [names[i] for i in order]
        g = gen.build(gen.path(D), D, attrs={names[j]: [T[i][j] for i in range(D)] for j in range(P)})
        asg = {i: dl[i] for i in range(D)} if pat % 3 else {i: dl[i] for i in reversed(range(D))}
        part = Partition(g, asg, updaters={"E": Election("E", parties)}, use_default_updaters=False)
        judge(ctx, part, part["E"], T, dl, names, parties, D, P)
        ctx.trace()
        ctx.state(D, P, pat, order)


def case_waste(ctx, p, tier):
    for x, y in itertools.product(list(range(0, 12)) + [0.25, 10.25, 10.75, 11.5, 100, 10 ** 9], repeat=2):
        a, b = wasted_votes(x, y)
        wa, wb = waste(x, y)
        ctx.trans()
        ctx.trace()
        ctx.state(x, y)
        ctx.check(near(a, wa) and near(b, wb), "wasted votes: winner's votes beyond half the total, all of the loser's", votes=(x, y), got=(float(a), float(b)), want=(float(wa), float(wb)))
