"""C25 A run is completely determined by its inputs and Python's random draws."""
import gc, itertools, json, os, subprocess, sys
from functools import partial
import networkx as nx
import numpy as np
import random
from gerrychain import Election, GeographicPartition, Graph, MarkovChain, Partition
from gerrychain import accept, constraints, metagraph, metrics, proposals, tree, updaters
from gerrychain.grid import Grid
from gerrychain.constraints import contiguity
from gerrychain.meta import collect_diversity_stats
from gerrychain.optimization import Gingleator, SingleMetricOptimizer
from gerrychain.proposals import proposals as pp
from gerrychain.updaters import Tally
from mc.core import gen
from mc.core.explore import Violation, explore
from mc.core.rng import ORACLE

ID = "C25"
BOUNDS = {
    "quick": "32 runs (every proposal, tree sampler, seed-plan generator, chain and optimizer) on 4-6-node maps and 11 on a 72-node map (60 executions each); for each every draw sequence up to 2000 executions (retry loops completed by a fixed schedule), each executed again after one of the other runs (in rotation), on fresh graphs and on the graphs the other runs have used, numpy reseeding, garbage collection and an abandoned chain; the first 25 executions also in a fresh process",
    "thorough": "20000 executions per run, 200 of them in a fresh process",
}
ASSUMPTIONS = ["same Python hash seed for runs compared across processes", "libraries other than Python's random module are deterministic functions of their inputs"]


# ------------------------------------------------------------------ worlds
SHARE = False          # True: a graph used by earlier runs is used again
USED = {}


def world(kind="grid", pops=None):
    if SHARE and pops is None:
        if kind not in USED:
            USED[kind] = make(kind)
        return USED[kind]
    return make(kind, pops)


def make(kind="grid", pops=None):
    edges, n = {"grid": (gen.grid(2, 3), 6), "path": (gen.path(4), 4), "big": (gen.grid(8, 9), 72), "sq": (gen.grid(2, 2), 4), "odd": (((0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (2, 4), (4, 5)), 6)}[kind]
    g = gen.build(edges, n, "int", attrs={
        "pop": pops or [1] * n, "area": [1 + i for i in range(n)], "boundary_node": [True] * n, "boundary_perim": [1 + i % 3 for i in range(n)],
        "R": [3 * i % 7 for i in range(n)], "D": [2 * i % 5 for i in range(n)], "cty": ["AABBCC"[i % 6] for i in range(n)]},
        eattrs={"shared_perim": lambda i, j: 1 + i + j})
    return g


def upd():
    return {"pop": Tally("pop", alias="pop"), "votes": Election("votes", {"R": "R", "D": "D"}), "cut_edges_by_part": updaters.cut_edges_by_part,
            "county": updaters.county_splits("county", "cty"), "trees": updaters.num_spanning_trees}


def plan(kind="grid", k=2, cls=GeographicPartition, pops=None):
    g = world(kind, pops)
    n = len(g)
    a = {i: i * k // n for i in range(n)}
    if kind == "grid":
        a = {i: (i % 3) * k // 3 for i in range(n)}
    return cls(g, a, upd())


def look(p):
    """Plain-data observation of a plan and its derived values."""
    a = p.assignment
    out = [sorted((v, a.mapping[v]) for v in a.mapping), sorted((d, sorted(s)) for d, s in a.parts.items())]
    ks = set(p.updaters)
    if "cut_edges" in ks:
        out.append(sorted(p["cut_edges"]))
    for key in ("pop", "perimeter", "area", "interior_boundaries", "exterior_boundaries"):
        if key in ks:
            out.append((key, sorted((d, round(float(x), 9)) for d, x in p[key].items())))
    if "votes" in ks:
        out.append(sorted((d, repr(x)) for d, x in p["votes"].totals_for_party["R"].items()))
    if "county" in ks:
        out.append(sorted((c, str(i.split), sorted(i.nodes), sorted(i.contains)) for c, i in p["county"].items()))
    return json.loads(json.dumps(out))


def edges_of(t):
    return sorted(sorted(e) for e in t.edges)


POP = dict(pop_col="pop", epsilon=0.5)


def steps(f, p, n):
    out = [look(p)]
    for _ in range(n):
        p = f(p)
        out.append(look(p))
    return out


def attempt(f):
    try:
        return f()
    except (RuntimeError, tree.BalanceError, tree.PopulationBalanceError, proposals.tree_proposals.MetagraphError, proposals.tree_proposals.ReversibilityError) as e:
        return type(e).__name__


def flipchain(n, acc, cons, kind="grid", k=2, prop=pp.propose_random_flip):
    p = plan(kind, k)
    return [look(x) for x in MarkovChain(prop, cons, acc, p, n)]


def opt(method, cls=SingleMetricOptimizer, **kw):
    p = plan("path", 2)
    if cls is Gingleator:
        o = Gingleator(pp.propose_random_flip, [constraints.contiguous], p, total_pop_col="pop", minority_perc_col=None, minority_pop_col="pop", threshold=0.5) if False else \
            Gingleator(pp.propose_random_flip, [constraints.no_vanishing_districts], _ging(p), minority_perc_col="share", threshold=0.6)
    else:
        o = SingleMetricOptimizer(pp.propose_random_flip, [constraints.no_vanishing_districts], p, lambda x: len(x["cut_edges"]) + 0.25 * len(x.parts[0]), maximize=True)
    out = [look(x) for x in getattr(o, method)(**kw)]
    return [out, look(o.best_part), repr(o.best_score)]


def _ging(p):
    u = upd()
    u["share"] = lambda q: {d: len(s) / 4 for d, s in q.parts.items()}
    return Partition(p.graph, p.assignment, u)


RUNS = {
    "random_flip": lambda: steps(pp.propose_random_flip, plan(), 2),
    "chunk_flip": lambda: steps(lambda q: pp.propose_chunk_flip(q) if q["cut_edges"] else q, plan(), 2),
    "any_node": lambda: steps(pp.propose_any_node_flip, plan("sq"), 2),
    "every_district": lambda: steps(lambda q: pp.propose_flip_every_district(q), plan(k=3), 1),
    "slow_reversible": lambda: steps(lambda q: pp.slow_reversible_propose(q) if q["cut_edges"] else q, plan(), 2),
    "slow_reversible_bi": lambda: steps(lambda q: pp.slow_reversible_propose_bi(q) if q["cut_edges"] else q, plan(), 2),
    "recom": lambda: attempt(lambda: steps(partial(proposals.recom, pop_target=2, node_repeats=1, **POP), plan("sq"), 1)),
    "recom_random": lambda: attempt(lambda: steps(partial(proposals.recom, pop_target=2, method=tree.bipartition_tree_random, **POP), plan("path"), 2)),
    "recom_regions": lambda: attempt(lambda: steps(partial(proposals.recom, pop_target=2, region_surcharge={"cty": 0.5}, **POP), plan("path"), 1)),
    "recom_uniform": lambda: attempt(lambda: steps(partial(proposals.recom, pop_target=2, method=partial(tree.bipartition_tree, spanning_tree_fn=tree.uniform_spanning_tree), **POP), plan("path"), 1)),
    "ReCom": lambda: attempt(lambda: steps(proposals.ReCom("pop", 2, 0.5), plan("path"), 1)),
    "reversible_recom": lambda: attempt(lambda: steps(partial(proposals.reversible_recom, pop_target=2, M=3, **POP), plan("path"), 2)),
    "spectral": lambda: steps(proposals.spectral_recom, plan("path"), 1),
    "spectral_random": lambda: steps(partial(proposals.spectral_recom, weight_type="random", lap_type="random"), plan(k=3), 1),
    "random_tree": lambda: edges_of(tree.random_spanning_tree(world("sq"))),
    "region_tree": lambda: edges_of(tree.random_spanning_tree(world("sq"), region_surcharge={"cty": 0.5})),
    "spectral_weighted": lambda: steps(partial(proposals.spectral_recom, weight_type="random"), plan("odd"), 2),
    "spectral_odd": lambda: steps(partial(proposals.spectral_recom, lap_type="raw"), plan("odd", 2), 2),
    "uniform_tree": lambda: edges_of(tree.uniform_spanning_tree(world("sq"))),
    "bipartition": lambda: attempt(lambda: sorted(tree.bipartition_tree(world("path"), "pop", 2, 0.3, max_attempts=5))),
    "seed_plan": lambda: attempt(lambda: sorted(tree.recursive_tree_part(world("path"), [0, 1], 2, "pop", 0.4).items())),
    "seed_plan_tree": lambda: attempt(lambda: sorted(tree.recursive_seed_part(world("path"), [0, 1], 2, "pop", 0.4).items())),
    "from_random": lambda: attempt(lambda: look(Partition.from_random_assignment(world("path"), 2, 0.4, "pop", updaters=upd()))),
    "chain_accept": lambda: flipchain(3, accept.cut_edge_accept, [contiguity.single_flip_contiguous]),
    "chain_bounds": lambda: flipchain(3, accept.always_accept, [constraints.no_vanishing_districts, constraints.within_percent_of_ideal_population(plan(), 0.6, "pop")]),
    "chain_diversity": lambda: [(look(p), repr(s)) for p, s in collect_diversity_stats(MarkovChain(pp.propose_random_flip, [constraints.no_vanishing_districts, contiguity.contiguous], accept.always_accept, plan("path"), 3))],
    "short_bursts": lambda: opt("short_bursts", burst_length=2, num_bursts=2),
    "annealing": lambda: opt("simulated_annealing", num_steps=3, beta_function=lambda t: 1.0 + t),
    "tilted": lambda: opt("tilted_run", num_steps=3, p=0.25),
    "variable_bursts": lambda: opt("variable_length_short_bursts", num_steps=4, stuck_buffer=1),
    "gingles": lambda: opt("short_bursts", cls=Gingleator, burst_length=2, num_bursts=2),
}
RUNS["grid_chain"] = lambda: [[sorted(map(repr, p.assignment.mapping.items())), sorted(map(repr, p["perimeter"].items()))] for p in MarkovChain(pp.propose_random_flip, [constraints.no_vanishing_districts, contiguity.contiguous], accept.always_accept, Grid((2, 3), assignment={(i, j): int(j > 0) for i in range(2) for j in range(3)}), 3)]
OTHER_POPS = {"odd": [1, 4, 2, 2, 3, 1], "grid": [3, 1, 2, 5, 4, 3], "path": [2, 1, 1, 2], "sq": [1, 2, 2, 1]}
BIG = {
    "big_any_node": lambda: steps(pp.propose_any_node_flip, plan("big", 5), 3),
    "big_random_flip": lambda: steps(pp.propose_random_flip, plan("big", 5), 3),
    "big_chunk_flip": lambda: steps(pp.propose_chunk_flip, plan("big", 5), 2),
    "big_every_district": lambda: steps(pp.propose_flip_every_district, plan("big", 12), 1),
    "big_slow": lambda: steps(pp.slow_reversible_propose, plan("big", 5), 2),
    "big_slow_bi": lambda: steps(pp.slow_reversible_propose_bi, plan("big", 5), 2),
    "big_recom": lambda: attempt(lambda: steps(partial(proposals.recom, pop_target=18, pop_col="pop", epsilon=0.9), plan("big", 4), 1)),
    "big_seed": lambda: attempt(lambda: sorted(tree.recursive_tree_part(world("big"), range(4), 18, "pop", 0.6).items())),
    "big_seed_tree": lambda: attempt(lambda: sorted(tree.recursive_seed_part(world("big"), range(4), 18, "pop", 0.6).items())),
    "big_chain": lambda: [look(x) for x in MarkovChain(pp.propose_random_flip, [constraints.no_vanishing_districts, contiguity.contiguous], accept.cut_edge_accept, plan("big", 5), 4)],
    "big_spectral": lambda: steps(proposals.spectral_recom, plan("big", 5), 1),
}
RUNS.update(BIG)
NAMES = sorted(RUNS)


def cases(tier):
    for n in NAMES:
        yield "run", dict(name=n)
    yield "quiet", {}


def disturb(i, me):
    """Unrelated work in the same process; leaves global state behind if the code keeps any."""
    b = NAMES[(NAMES.index(me) + 1 + i) % len(NAMES)]
    for fair in (0,):
        ORACLE.reset([], fair_after=fair)
        RUNS[b]()
    np.random.seed(i)
    np.random.random(i % 7)
    ORACLE.reset([], fair_after=0)
    kind = ("grid", "path", "sq")[i % 3]
    p = plan(kind, 2, pops=OTHER_POPS[kind])         # same node labels, other data
    look(p)
    c = MarkovChain(pp.propose_random_flip, [contiguity.single_flip_contiguous], accept.cut_edge_accept, p, 50)
    for j, x in enumerate(c):
        look(x)
        if j == 1 + i % 3:
            break
    gc.collect() if i % 25 == 0 else None


def observe(f, choices, fair):
    ORACLE.reset(choices, fair_after=fair)
    r = json.loads(json.dumps(f()))
    return r, ORACLE.draws, [t[:2] for t in ORACLE.trace]


FAIR = 14


def case_run(ctx, p, tier):
    name = p["name"]
    f = RUNS[name]
    cap = (60 if name in BIG else 2000) if tier == "quick" else 600 if name in BIG else 20000
    first = []
    i = [0]

    def run():
        r = json.loads(json.dumps(f()))
        return r, ORACLE.draws, [t[:2] for t in ORACLE.trace], ORACLE.reseeded

    def again(j, r, draws, trace, choices, share):
        global SHARE
        SHARE = share
        try:
            disturb(j, name)
            r2, draws2, trace2 = observe(f, choices, FAIR)
        finally:
            SHARE = False
        if r2 != r or draws2 != draws or trace2 != trace:
            raise Violation("the same run with the same draws gave a different result after other work in the process", run=name, choices=choices, same_graph_object=share,
                            before=NAMES[(NAMES.index(name) + 1 + j) % len(NAMES)], first=repr(r)[:800], second=repr(r2)[:800], draws=[draws, draws2])

    full = []

    def on(obs, prob, choices):
        r, draws, trace, reseeded = obs
        if len(full) < len(NAMES):
            full.append((r, draws, trace, choices))
        ctx.check(not reseeded, "a run reseeds or reads the state of the global generator", run=name, choices=choices)
        again(i[0], r, draws, trace, choices, i[0] % 2 == 1)      # every other time on graphs other runs have used
        ctx.check(ORACLE.reseeded == 0, "a run reseeds or reads the state of the global generator", run=name, choices=choices)
        if len(first) < (25 if tier == "quick" else 200):
            first.append((choices, r, draws))
        i[0] += 1
        ctx.trans()
        ctx.trace(2)
        ctx.state(name, tuple(choices))
        ctx.outcome(r)
    st = explore(run, on, fair_after=FAIR, max_exec=cap)
    ctx.executions += st.executions
    ctx.choice_points += st.choice_points
    if st.capped:
        ctx.note("runs_stopped_at_the_execution_cap")
        ctx.incomplete = "execution cap"
    # every other run comes before some execution, on the same graph objects
    for j in range(len(NAMES)):
        r, draws, trace, choices = full[j % len(full)]
        again(j, r, draws, trace, choices, True)
        ctx.trace()
    # a fresh process that has done nothing else
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = subprocess.run([sys.executable, "-B", os.path.join(here, "run.py"), "C25", "--child", name], input=json.dumps([c for c, r, d in first]), capture_output=True, text=True,
                         env=dict(os.environ, PYTHONHASHSEED="0"), timeout=300)
    if out.returncode:
        raise Violation("the run fails in a fresh process", run=name, stderr=out.stderr[-1500:])
    res = json.loads(out.stdout.splitlines()[-1])
    for (c, r, d), (r2, d2) in zip(first, res):
        if r != r2 or d != d2:
            raise Violation("the same run with the same draws gave a different result in a fresh process", run=name, choices=c, first=repr(r)[:800], second=repr(r2)[:800])
        ctx.trace()
    ctx.sample(dict(run=name, executions=st.executions, draws=first[0][2]))


def child(name):
    out = []
    for c in json.load(sys.stdin):
        r, d, t = observe(RUNS[name], c, FAIR)
        out.append((r, d))
    print(json.dumps(out))


def case_quiet(ctx, p, tier):
    """Building things and reading values consumes no draws."""
    def none(what):
        ctx.check(ORACLE.draws == 0 and ORACLE.reseeded == 0, "random draws are consumed by " + what, draws=ORACLE.draws)
        ctx.trans()
    for kind, k in (("grid", 2), ("grid", 3), ("path", 2), ("sq", 2)):
        ORACLE.reset([])
        g = world(kind)
        none("building a graph")
        q = plan(kind, k)
        none("building a plan")
        look(q)
        none("reading derived values")
        for f in list(q.updaters):
            q[f]
        none("reading derived values")
        q.subgraphs[0]
        for d in q.parts:
            q.subgraphs[d]
        none("district subgraphs")
        r = q.flip({0: 1})
        none("flipping")
        for f in list(r.updaters):
            r[f]
        none("reading derived values of a flipped plan")
        for c in (constraints.contiguous, constraints.contiguous_bfs, constraints.no_vanishing_districts, constraints.no_more_discontiguous, constraints.Validator([constraints.contiguous]),
                  constraints.within_percent_of_ideal_population(q, 0.5, "pop"), constraints.UpperBound(lambda x: 1, 2), constraints.SelfConfiguringUpperBound(lambda x: len(x["cut_edges"]))):
            c(q)
            none("checking a constraint")
        MarkovChain(pp.propose_random_flip, [contiguity.contiguous], accept.always_accept, q, 5)
        none("building a chain")
        it = iter(MarkovChain(pp.propose_random_flip, [contiguity.contiguous], accept.always_accept, q, 5))
        next(it)
        none("the first state of a chain")
        metrics.polsby_popper(q)
        metrics.efficiency_gap(q["votes"])
        metrics.mean_median(q["votes"])
        none("metrics")
        metagraph.all_cut_edge_flips(q)
        list(metagraph.all_valid_flips(q, [contiguity.contiguous]))
        metagraph.metagraph_degree(q, [contiguity.contiguous])
        none("metagraph")
        SingleMetricOptimizer(pp.propose_random_flip, [contiguity.contiguous], q, lambda x: 1)
        none("building an optimizer")
        Grid((2, 2))["perimeter"]
        none("building a grid")
        ctx.trace()
        ctx.state(kind, k)
