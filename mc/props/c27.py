"""C27 A run of any length keeps only a few plans alive."""
from fractions import Fraction
import contextlib, functools, gc, io, itertools, warnings, weakref
from gerrychain import Election, GeographicPartition, MarkovChain, Partition
from gerrychain.accept import always_accept, cut_edge_accept
from gerrychain.constraints import (UpperBound, Validator, contiguous, contiguous_bfs, no_vanishing_districts, single_flip_contiguous,
                                    within_percent_of_ideal_population)
from gerrychain.meta.diversity import collect_diversity_stats
from gerrychain.optimization import Gingleator, SingleMetricOptimizer
from gerrychain.partition.assignment import Assignment
from gerrychain.partition.subgraphs import SubgraphView
from gerrychain.proposals import propose_chunk_flip, propose_random_flip, recom, reversible_recom, spectral_recom
from gerrychain.tree import bipartition_tree
from gerrychain.updaters import Tally, county_splits, cut_edges, cut_edges_by_part, num_spanning_trees
from gerrychain.updaters.locality_split_scores import LocalitySplits
from mc.core import gen
from mc.core.explore import Violation
from mc.core.rng import ORACLE

ID = "C27"
BOUNDS = {
    "quick": "chains repeating every word of length <=4 over {invalid, rejected, accepted, self-loop rejected, self-loop accepted} 200 times (words of length 20 200 times), with and without every updater in use; the same over chains begun again, built again, continued, re-constrained or partly consumed 200 times; every optimizer and Gingles run over every score word of length <=3 over {better, equal, worse} and burst lengths 1-3, 180 bursts, twice on one optimizer; all library proposals with 3 constraint sets and 3 acceptance rules, 250 steps each; proposals that often fail to find a split, 1000 steps each",
    "thorough": "words of length <=5, 500 repetitions, score words of length <=4",
}
ASSUMPTIONS = ["a plan (or its assignment, or its view of the districts) is alive when it is still reachable after a full garbage collection; at most 150 live plans (beyond those the caller keeps) is counted as bounded"]
LIMIT = 150
SYM = "IRAsS"          # invalid, rejected, accepted, self-loop rejected / accepted
LIVE = weakref.WeakSet()


class Counted(Partition):
    def __init__(self, *a, **k):
        LIVE.add(self)
        super().__init__(*a, **k)


class GeoCounted(GeographicPartition):
    def __init__(self, *a, **k):
        LIVE.add(self)
        super().__init__(*a, **k)


class Enough(Exception):
    pass


class Watch:
    """Counts plans alive every so often."""

    def __init__(self, ctx, every=40, **info):
        self.ctx, self.n, self.every, self.info, self.peak = ctx, 0, every, info, 0
        ORACLE.script = []
        if not gc.get_freeze_count():
            gc.collect()
            gc.freeze()          # the libraries' own objects: looked at once, not at every count
        gc.collect()
        LIVE.clear()

    def tick(self, kept=0):
        self.n += 1
        self.ctx.trans()
        if self.n % self.every == 0:
            self.look(kept)

    def look(self, kept=0):
        gc.collect()
        n = len(LIVE)
        m, v = 0, 0
        for o in gc.get_objects():
            m += type(o) is Assignment
            v += type(o) is SubgraphView
        self.peak = max(self.peak, n - kept)
        if n - kept > LIMIT or m - kept > 2 * LIMIT or v - kept > 2 * LIMIT:
            raise Violation("plans the caller no longer holds stay in memory", alive=n, assignments=m, views=v, kept_by_caller=kept, after=self.n, **self.info)

    def done(self, kept=0):
        self.look(kept)
        self.ctx.trace()
        self.ctx.state(repr(sorted(self.info.items())))
        self.ctx.outcome(self.peak)


def cases(tier):
    th = tier == "thorough"
    for L in range(1, 6 if th else 5):
        ws = ["".join(w) for w in itertools.product(SYM, repeat=L)]
        n = max(1, len(ws) // (5 if L < 3 else 25))
        for c in range(n):
            yield "chain", dict(L=L, chunk=c, chunks=n, full=L < 3)
    for w in ("A" * 19 + "R", "R" * 19 + "A", "A" * 19 + "I", "I" * 19 + "A", "A" * 19 + "s", "s" * 19 + "A", "AR" * 10, "A" * 10 + "R" * 10):
        yield "chain", dict(words=[w], full=False)
    for how in ("restart", "rebuild", "continue", "replace", "abandon", "discard", "hold", "bar", "bar-end", "nested"):
        for w in ("A", "R", "AR", "IA", "AI", "sA", "IRA", "S"):
            yield "reuse", dict(how=how, w=w)
    for meth in ("short", "variable", "tilted", "tilted_run", "anneal", "gingles"):
        for mx in (True, False):
            for L in (1, 2, 3) + ((4,) if th else ()):
                yield "optimize", dict(meth=meth, mx=mx, L=L)
    for prop in ("flip", "chunk", "recom", "reversible", "spectral"):
        for con in range(3):
            for acc in ("always", "cut", "never"):
                yield "real", dict(prop=prop, con=con, acc=acc)
    for w in ("A", "R", "AR", "IA", "sA"):
        yield "diversity", dict(w=w)
    for prop in ("reselect", "raise", "reversible"):
        for acc in ("always", "cut", "never"):
            yield "failing", dict(prop=prop, acc=acc)


def reps(tier):
    return 500 if tier == "thorough" else 200


N = 6
LONG = 16


def turn(lab, i):
    """The node the i-th proposal moves: through all combinations, the first and the last node staying put."""
    return lab[1 + ((i & -i).bit_length() - 1) % (len(lab) - 2)]


def plan(full=False):
    if not full:
        g = gen.build(gen.path(LONG), LONG, "int", {"pop": [1] * LONG})
        lab = gen.labels("int", LONG)
        return Counted(g, {v: i % 2 for i, v in enumerate(lab)}, updaters={"cut_edges": cut_edges}, use_default_updaters=False), lab
    at = {"pop": [1, 2, 1, 3, 1, 2], "area": [1.0] * N, "boundary_node": [True] * N, "boundary_perim": [2] * N, "A": [1, 2, 0, 1, 3, 1], "B": [2, 1, 1, 0, 1, 4], "county": list("xxyyzz")}
    es = gen.grid(2, 3)
    g = gen.build(es, N, "int", at, {"shared_perim": lambda i, j: 1})
    lab = gen.labels("int", N)
    a = {lab[i]: i % 2 for i in range(N)}
    up = {"cut_edges": cut_edges}
    up.update(pop=Tally("pop"), tree=num_spanning_trees, counties=county_splits("counties", "county"), by_part=cut_edges_by_part, E=Election("E", {"a": "A", "b": "B"}))
    up["splits"] = LocalitySplits("splits", "county", "pop", ["num_parts", "num_pieces", "naked_boundary"])
    return GeoCounted(g, a, updaters=up), lab


class Script:
    """Repeats a word of answers for ever (or until the given number of proposals)."""

    def __init__(self, word, lab, watch, limit=None, read=False, tick=True):
        self.word, self.lab, self.i, self.watch, self.limit, self.read, self.ticks = word, lab, 0, watch, limit, read, tick
        self.kept = 0

    def proposal(self, state):
        if self.limit is not None and self.i >= self.limit:
            raise Enough
        self.sym = self.word[self.i % len(self.word)]
        self.i += 1
        if self.ticks:
            self.watch.tick(self.kept)
        if self.sym in "sS":
            return state
        v = turn(self.lab, self.i)
        return state.flip({v: 1 - state.assignment.mapping[v]})

    def valid(self, p):
        if self.read:
            for k in p.updaters:
                p[k]
        return self.i == 0 or self.sym != "I"

    def accept(self, p):
        return self.sym in "AS"


class Endless:
    """An unending deterministic spread of draws."""

    def __init__(self):
        self.i = 0

    def __bool__(self):
        return True

    def pop(self, _):
        self.i += 1
        return (self.i * 0.6180339887498949) % 1.0


def words_of(p):
    if "words" in p:
        return p["words"]
    ws = ["".join(w) for w in itertools.product(SYM, repeat=p["L"])]
    return ws[p["chunk"]::p["chunks"]]


def case_chain(ctx, p, tier):
    for w in words_of(p):
        for full in ((False, True) if p["full"] else (False,)):
            init, lab = plan(full)
            W = Watch(ctx, 40 * len(w), word=w, updaters="all" if full else "cut edges")
            limit = reps(tier) * len(w)
            s = Script(w, lab, W, limit, read=full)
            ch = MarkovChain(s.proposal, [s.valid], s.accept, init, 10 ** 9)
            try:
                for state in ch:
                    if not full:
                        state["cut_edges"]
            except Enough:
                pass
            state = None
            W.done()


def case_reuse(ctx, p, tier):
    how, w = p["how"], p["w"]
    init, lab = plan()
    W = Watch(ctx, 40, word=w, how=how)
    s = Script(w, lab, W, tick=False)
    R = reps(tier)

    def chain(start, T=4):
        return MarkovChain(s.proposal, [s.valid], s.accept, start, T)

    if how == "restart":
        ch = chain(init)
        for _ in range(R):
            for state in ch:
                state["cut_edges"]
            W.tick()
    elif how == "rebuild":
        for _ in range(R):
            for state in chain(init):
                state["cut_edges"]
            W.tick()
    elif how == "continue":
        cur = init
        for _ in range(R):
            s.i = 0
            for state in chain(cur, 3):
                state["cut_edges"]
            cur = state
            W.tick()
    elif how == "replace":
        ch = chain(init, 10 ** 9)
        it = iter(ch)
        for _ in range(R):
            next(it)
            s.i, i = 0, s.i
            ch.constraints = [s.valid, UpperBound(lambda q: len(q["cut_edges"]), 100)]
            s.i = i
            W.tick()
    elif how == "abandon":
        ch = chain(init, 10)
        for j in range(R):
            for i, state in enumerate(ch):
                if i == j % 5:
                    break
            W.tick()
    elif how == "discard":
        cur = init
        for j in range(R):
            for v in lab:
                q = cur.flip({v: 1 - cur.assignment.mapping[v]})
                q["cut_edges"]
                q.crosses_parts((lab[0], lab[1]))
                q.flip({lab[0]: 0})["cut_edges"]
            W.tick()
    elif how == "hold":
        # plans the caller keeps cost themselves only
        keep = []
        for i, state in enumerate(chain(init, R * 5)):
            state["cut_edges"]
            if i % 5 == 0:
                keep.append(state)
            s.kept = len(set(map(id, keep)))
            W.tick(s.kept)
        state = None
        W.done(s.kept)
        return
    elif how in ("bar", "bar-end"):
        for _ in range(R // 10):
            with contextlib.redirect_stderr(io.StringIO()):
                for i, state in enumerate(chain(init, 60).with_progress_bar()):
                    if how == "bar":
                        W.tick()
            W.tick()
    elif how == "nested":
        # a chain started from every plan of another chain
        for state in chain(init, R):
            i, s.i = s.i, 0
            for inner in chain(state, 3):
                inner["cut_edges"]
            s.i = i
            W.tick()
        inner = None
    state = cur = None
    W.done()


def case_optimize(ctx, p, tier):
    meth, mx = p["meth"], p["mx"]
    R = reps(tier) * 9 // 10
    for w in itertools.product("bew", repeat=p["L"]):
        for bl in (2,) if meth not in ("short", "tilted", "gingles") else (1, 3) if p["L"] < 3 else (2,):
            init, lab = plan()
            W = Watch(ctx, 75, method=meth, maximize=mx, word="".join(w), burst=bl)
            st = {"i": 0, "best": 0}
            init.level = 0

            def proposal(state):
                c = w[st["i"] % len(w)]
                st["i"] += 1
                v = turn(lab, st["i"])
                q = state.flip({v: 1 - state.assignment.mapping[v]})
                d = {"b": 1, "e": 0, "w": -1}[c] * (1 if mx else -1)
                q.level = st["best"] + d
                if c == "b":
                    st["best"] = q.level
                return q

            if meth == "gingles":
                init = Counted(init.graph, init.assignment, updaters={"share": lambda q: {0: 0.1, 1: 0.2}}, use_default_updaters=False)
                init.level = 0
                opt = Gingleator(proposal, Validator([lambda q: True]), init, minority_perc_col="share", score_function=lambda q, minority_perc_col=None, threshold=None: q.level if mx else -q.level)
            else:
                opt = SingleMetricOptimizer(proposal, [lambda q: True], init, lambda q: q.level, maximize=mx)
            ORACLE.reset((), None, 10 ** 9, fair_after=0)
            ORACLE.script = Endless()
            run = {"short": lambda: opt.short_bursts(bl, R), "variable": lambda: opt.variable_length_short_bursts(R * 2, bl),
                   "tilted": lambda: opt.tilted_short_bursts(bl, R, 0.5), "tilted_run": lambda: opt.tilted_run(R * 2, 0.5),
                   "anneal": lambda: opt.simulated_annealing(R * 2, opt.jumpcycle_beta_function(3, 5)),
                   "gingles": lambda: opt.short_bursts(bl, R)}[meth]
            for part in run():
                W.tick()
            part = None
            W.look()
            # the next run on the same optimizer
            for part in itertools.islice(run(), R):
                W.tick()
            part = None
            ORACLE.script = []
            W.done()


def case_real(ctx, p, tier):
    m, n, k = 3, 4, 2
    es = gen.grid(m, n)
    g = gen.build(es, m * n, "int", {"pop": [1] * (m * n)})
    lab = gen.labels("int", m * n)
    init = Counted(g, {lab[i]: (i % n) // 2 for i in range(m * n)}, updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population"), "by_part": cut_edges_by_part}, use_default_updaters=False)
    prop = {"flip": propose_random_flip, "chunk": propose_chunk_flip,
            "recom": functools.partial(recom, pop_col="pop", pop_target=6, epsilon=0.7, node_repeats=1),
            "reversible": functools.partial(reversible_recom, pop_col="pop", pop_target=6, epsilon=0.7, M=40),
            "spectral": functools.partial(spectral_recom, weight_type="random")}[p["prop"]]
    con = [[no_vanishing_districts, contiguous], [no_vanishing_districts, contiguous_bfs, within_percent_of_ideal_population(init, 0.9, "population")],
           [no_vanishing_districts, single_flip_contiguous if p["prop"] == "flip" else contiguous, UpperBound(lambda q: len(q["cut_edges"]), 100)]][p["con"]]
    acc = {"always": always_accept, "cut": cut_edge_accept, "never": lambda q: False}[p["acc"]]
    W = Watch(ctx, 40, **p)
    steps = 1000 if tier == "thorough" else 250
    ORACLE.reset((), None, 10 ** 9, fair_after=0)
    ORACLE.script = Endless()
    try:
        for state in MarkovChain(prop, con, acc, init, steps):
            W.tick()
        state = None
    finally:
        ORACLE.script = []
    W.done()


def case_failing(ctx, p, tier):
    """Proposals that often fail to find a split, given another try by a caller that does not keep what was raised."""
    m, n, k = 4, 6, 3
    g = gen.build(gen.grid(m, n), m * n, "int", {"pop": [1] * (m * n)})
    lab = gen.labels("int", m * n)
    init = Counted(g, {lab[i]: (i % n) // 2 for i in range(m * n)}, updaters={"cut_edges": cut_edges, "population": Tally("pop", alias="population")}, use_default_updaters=False)
    split = functools.partial(bipartition_tree, max_attempts=1, allow_pair_reselection=p["prop"] == "reselect")
    prop = {"reselect": functools.partial(recom, pop_col="pop", pop_target=8, epsilon=0.01, node_repeats=0, method=split),
            "raise": functools.partial(recom, pop_col="pop", pop_target=8, epsilon=0.01, node_repeats=0, method=split),
            "reversible": functools.partial(reversible_recom, pop_col="pop", pop_target=8, epsilon=0.01, M=1)}[p["prop"]]
    acc = {"always": always_accept, "cut": cut_edge_accept, "never": lambda q: False}[p["acc"]]
    W = Watch(ctx, 40, **p)
    seen = {"failed": 0, "moved": 0}

    def propose(state):
        ORACLE.prob = Fraction(1)        # of no interest here, and it only grows
        try:
            q = prop(state)
        except Exception:
            seen["failed"] += 1
            return state
        seen["moved"] += 1
        return q
    ORACLE.reset((), None, 10 ** 9, fair_after=0)
    ORACLE.script = Endless()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for state in MarkovChain(propose, [no_vanishing_districts, contiguous], acc, init, 3000 if tier == "thorough" else 1000):
                W.tick()
        state = None
    finally:
        ORACLE.script = []
    W.done()
    for key in seen:
        ctx.note("proposals_that_" + key, seen[key])


def case_diversity(ctx, p, tier):
    init, lab = plan()
    W = Watch(ctx, 40, word=p["w"])
    s = Script(p["w"], lab, W)
    for state, stats in collect_diversity_stats(MarkovChain(s.proposal, [s.valid], s.accept, init, reps(tier) * 2)):
        W.tick()
    state = None
    W.done()

