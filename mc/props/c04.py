"""C04 Tallies and election vote totals always equal a from-scratch sum."""
import itertools, math
import pandas
from gerrychain import Election, Partition
from gerrychain.updaters import DataTally, Tally
from mc.core import gen, hist

ID = "C04"
BOUNDS = {t: b + "; columns: distinct powers of two up to 2^80, quarters (floats), zeros, negative values, every single node NaN; two graphs with different data sharing the same updater objects; elections and tallies over 2-60 units whose data differ in one unit only"
          for t, b in hist.BOUNDS.items()}
ASSUMPTIONS = ["column values are dyadic so that sums are exact; comparison tolerance 1e-9",
               "a node contributes to a tally of several columns only if all of them are present (not NaN)"]

NAN = float("nan")


def cases(tier):
    for i, p in enumerate(hist.configs(tier, scale=2)):
        p["nan"] = [None, 0, p["n"] - 1, "all"][i % 4]
        yield "walk", p
    for data in ("dict", "series", "rev"):
        for n, nodes in ((2, "obj"), (3, "int"), (5, "neg"), (40, "int"), (60, "str")):
            if data != "series" or nodes != "obj":
                yield "alike", dict(n=n, nodes=nodes, data=data, units=list(range(n)) if n < 10 else [0, 1, n // 2, n - 2, n - 1])
    for e in gen.connected(3) + gen.connected(4)[:3]:
        n = max(max(x) for x in e) + 1
        for a in gen.set_partitions(n, 2):
            for b in gen.set_partitions(n, 2):
                yield "shared", dict(edges=e, n=n, k=2, a0=a, b0=b)


def case_alike(ctx, p, tier):
    """Several elections and tallies of the same parties whose data differ in one unit only."""
    n = p["n"]
    w = hist.World(dict(edges=gen.path(n), n=n, k=2, a0=[2 * i // n for i in range(n)], nodes=p["nodes"], parts="str"), attrs={})
    mk = {"dict": dict, "series": lambda d: pandas.Series(list(d.values()), index=list(d)), "rev": lambda d: dict(reversed(list(d.items())))}[p["data"]]
    for i in p["units"]:
        base = {v: 1 for v in w.lab}
        votes = {"one": dict(base), "two": {**base, w.lab[i]: 5}, "three": {**base, w.lab[i]: 0}}
        ups = {}
        for k, v in votes.items():
            ups[k] = Election(k, {"D": mk(v), "R": mk(base)})
            ups["t" + k] = DataTally(mk(v), "t" + k)
        part = Partition(w.graph(), w.assignment(), updaters=ups, use_default_updaters=False)
        a = tuple(w.a0)
        for step in (None, (i, 1 - a[i]), (n // 2, 0), (i, a[i])):
            if step:
                part, a = part.flip({w.lab[step[0]]: w.dl[step[1]]}), gen.apply(a, (step,))
            for k, v in votes.items():
                want = w.sums(a, [v[x] for x in w.lab])
                ctx.check(close(dict(part[k].totals_for_party["D"]), want), "votes differ from the sum where two elections have much the same data", election=k, unit=i, step=step,
                          got=repr(part[k].totals_for_party["D"]), want=repr(want))
                ctx.check(close(dict(part["t" + k]), want), "a tally differs from the sum where two tallies have much the same data", tally=k, unit=i, step=step)
                ctx.check(close(dict(part[k].totals_for_party["R"]), w.sums(a, [1] * n)), "votes of the other party differ from the sum", election=k, unit=i, step=step)
            ctx.trans()
        ctx.state(p["data"], n, i)
        ctx.trace()


def columns(n, nan, shift=0):
    c = {"pop": [2 ** ((i + shift) % n % 23) for i in range(n)],
         "frac": [0.25 * 3 ** (i % 17) for i in range(n)],
         "neg": [(-1) ** i * (i + shift) * 2 for i in range(n)],
         "zero": [0] * n, "big": [2 ** (53 + 2 * (i % 13)) + 3 ** (i % 17) for i in range(n)],
         "tiny": [2.0 ** -(10 + i % 20) for i in range(n)], "tiny2": [2.0 ** -(12 + i % 7) * (i % 3) for i in range(n)],
         "dem": [5 + 2 ** (i % 23) + shift for i in range(n)],
         "rep": [4 * 2 ** ((n - i) % 26) for i in range(n)],
         "grn": [float(i % 2) for i in range(n)]}
    c["gap"] = [2.0 ** (i % 25) for i in range(n)]
    if nan == "all":
        c["gap"] = [NAN] * n
    elif nan is not None:
        c["gap"][nan] = NAN
    return c


def updaters(w, ext, extser):
    return {
        "pop": Tally("pop"), "popalias": Tally("pop", alias="popalias"),
        "multi": Tally(["pop", "neg"], alias="multi"), "fracdef": Tally("frac", alias="fracdef"), "frac": Tally("frac", dtype=float),
        "three": Tally(["pop", "frac", "zero"], alias="three", dtype=float),
        "gap": Tally("gap", dtype=float), "gap2": Tally(["gap", "pop"], alias="gap2", dtype=float),
        "big": Tally("big"), "twice": Tally(["pop", "pop"], alias="twice"), "tiny": Tally("tiny", dtype=float),
        "dt": DataTally("pop", "dt"), "dtgap": DataTally("gap", "dtgap"),
        "ext": DataTally(ext, "ext"), "extser": DataTally(extser, "extser"),
        "E": Election("E", {"D": "dem", "R": "rep", "G": "grn"}),
        "E2": Election("E2", ["dem", "rep"]),
        "Eext": Election("Eext", {"D": {w.lab[i]: w.attrs["dem"][i] for i in range(w.n)},
                                   "R": {w.lab[i]: w.attrs["rep"][i] for i in range(w.n)}}),
        "Ealias": Election("Long name", {"R": "rep", "D": "dem"}, alias="Ealias"),
        "Etiny": Election("Etiny", {"D": "tiny", "R": "tiny2"}), "Ebig": Election("Ebig", {"D": "big", "R": "pop"}),
        "Egap": Election("Egap", {"D": "dem", "X": "gap"}),
    }


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in b)


def checker(ctx, w, ext):
    def s(*cols):
        return [sum(w.attrs[c][i] for c in cols) for i in range(w.n)]

    def clean(v):
        return [0 if math.isnan(x) else x for x in v]
    want_cols = {"pop": s("pop"), "popalias": s("pop"), "multi": s("pop", "neg"), "fracdef": s("frac"), "frac": s("frac"),
                 "three": s("pop", "frac", "zero"), "gap": clean(s("gap")), "gap2": clean(s("gap", "pop")),
                 "big": s("big"), "twice": s("pop", "pop"), "tiny": s("tiny"),
                 "dt": s("pop"), "dtgap": clean(s("gap")), "ext": [ext[v] for v in w.lab], "extser": [ext[v] for v in w.lab]}
    elections = {"E": {"D": s("dem"), "R": s("rep"), "G": s("grn")}, "E2": {"dem": s("dem"), "rep": s("rep")},
                 "Eext": {"D": s("dem"), "R": s("rep")}, "Ealias": {"R": s("rep"), "D": s("dem")},
                 "Etiny": {"D": s("tiny"), "R": s("tiny2")}, "Ebig": {"D": s("big"), "R": s("pop")},
                 "Egap": {"D": s("dem"), "X": clean(s("gap"))}}

    def check(part, a, pa, h):
        for name, vals in want_cols.items():
            if name not in part.updaters:
                continue
            want = w.sums(a, vals)
            got = part[name]
            ctx.check(close(dict(got), want), "tally %s differs from the sum over the district's nodes" % name,
                      got=repr(dict(got)), want=repr(want), history=h)
        for name, parties in elections.items():
            if name not in part.updaters:
                continue
            res = part[name]
            tot = w.sums(a, [sum(v[i] for v in parties.values()) for i in range(w.n)])
            for pty, vals in parties.items():
                want = w.sums(a, vals)
                ctx.check(close(dict(res.totals_for_party[pty]), want), "votes of party %s in election %s differ from the sum" % (pty, name),
                          got=repr(dict(res.totals_for_party[pty])), want=repr(want), history=h)
                for d in w.dl:
                    x = res.percents_for_party[pty][d]
                    if tot[d]:
                        ctx.check(abs(x - want[d] / tot[d]) < 1e-9 and isinstance(x, float), "vote share differs", election=name, party=pty, got=repr(x), history=h)
                    else:
                        ctx.check(math.isnan(x), "vote share of a district without votes is not undefined", got=repr(x), history=h)
                ctx.check(abs(res.count(pty) - sum(want.values())) < 1e-9, "statewide votes differ", history=h, election=name)
                ctx.eq(res.seats(pty), sum(1 for d in w.dl if want[d] > max([w.sums(a, v)[d] for q, v in parties.items() if q != pty])),
                       "seats differ from the votes", history=h, election=name, party=pty)
            ctx.check(close(dict(res.totals), tot), "election totals differ", got=repr(dict(res.totals)), want=repr(tot), history=h)
    return check


def case_walk(ctx, p, tier):
    w = hist.World(p)
    w.attrs = columns(w.n, p["nan"])
    ext = {v: 10 ** (i % 13) for i, v in enumerate(w.lab)}
    order = [list(ext)[::-1], list(ext)[1:] + list(ext)[:1], list(ext)][w.a0[-1] % 3 if w.n > 2 else 0]      # rows in an order of their own
    ser = pandas.Series([ext[v] for v in order], index=order) if w.kind != "tup" else {v: ext[v] for v in order}
    ups = updaters(w, ext, ser)
    keep = [["pop", "multi", "gap", "dtgap", "E", "three", "fracdef", "big"], ["gap2", "ext", "extser", "Egap", "Ealias", "frac", "twice", "Etiny"],
            ["popalias", "dt", "E2", "Eext", "E", "tiny", "Ebig"]][sum(p["a0"]) % 3] if p["mode"] == "tree" and p["n"] > 3 else None

    def root():
        return Partition(w.graph(), w.assignment(), updaters=ups if keep is None else {k: ups[k] for k in keep}, use_default_updaters=False)
    hist.drive(ctx, p, w, root, checker(ctx, w, ext))


def case_shared(ctx, p, tier):
    """The same updater objects on two graphs with different data, all interleavings of two runs."""
    w1 = hist.World(p)
    w2 = hist.World(dict(p, a0=p["b0"]))
    w1.attrs, w2.attrs = columns(w1.n, None), columns(w1.n, None, shift=1)
    ext = {v: 10 ** (i % 13) for i, v in enumerate(w1.lab)}
    names = ["pop", "multi", "dt", "E", "E2", "Ealias"]
    flips = list(gen.single_flips(w1.n, 2))
    # words over {1: step run 1, 2: step run 2}; run i flips node i, then node 0
    for word in ("12", "21", "1212", "1122", "2211", "1221"):
        for f in flips:
            ups = updaters(w1, ext, dict(ext))
            ups = {k: ups[k] for k in names}
            runs = {}
            for i, w in ((1, w1), (2, w2)):
                runs[i] = [w, checker(ctx, w, ext), None, w.a0, 0]
            for c in word:
                r = runs[int(c)]
                if r[2] is None:
                    r[2] = Partition(r[0].graph(), r[0].assignment(), updaters=ups, use_default_updaters=False)
                    r[1](r[2], r[3], None, (word, f, c))
                fl = f if r[4] == 0 else ((0, 1),)
                r[2], r[3], r[4] = r[2].flip(r[0].flips(fl)), gen.apply(r[3], fl), r[4] + 1
                r[1](r[2], r[3], None, (word, f, c))
                ctx.trans()
            for i in (1, 2):
                r = runs[i]
                if r[2] is not None:
                    r[1](r[2], r[3], None, (word, f, "end"))
            ctx.state(word, f, p["a0"], p["b0"])
            ctx.trace()
