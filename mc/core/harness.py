"""Case runner: parallel over cases, evidence, replay files, known findings, exit codes."""
import ctypes, json, multiprocessing, multiprocessing.connection, os, sys, time, traceback, warnings
from .explore import Violation, Timeout, arm, disarm
from .rng import ORACLE, Horizon, Divergence

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.choice_points = 0
        self.outcomes = set()
        self.notes = {}
        self.samples = []
        self.known = []
        self.incomplete = None

    def state(self, *key):
        try:
            self.states.add(hash(key))
        except TypeError:
            self.states.add(hash(repr(key)))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n
        if self.traces & 15 == 0:
            arm()          # progress: restart the no-progress timer

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(repr(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def absorb(self, st):
        """Take over counters of an exploration."""
        self.executions += st.executions
        self.choice_points += st.choice_points
        if st.truncated:
            self.note("executions_completed_by_fair_schedule", st.truncated)
        if st.pruned:
            self.note("branches_pruned_below_mass_bound", st.pruned)
        if st.concretized:
            self.note("executions_with_concretized_draws", st.concretized)
        if st.capped:
            self.incomplete = "execution cap"

    def check(self, cond, message, **detail):
        if not cond:
            raise Violation(message, **detail)

    def eq(self, got, want, message, **detail):
        if got != want:
            raise Violation(message, got=repr(got)[:600], want=repr(want)[:600], **detail)

    def known_finding(self, fid, what):
        self.known.append((fid, what))


def _run_case(args):
    mod_name, kind, params, tier = args
    import importlib
    mod = importlib.import_module(mod_name)
    ctx = Ctx()
    res = dict(kind=kind, params=params, violation=None)
    t0 = time.time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ORACLE.reset([])
            arm()
            getattr(mod, "case_" + kind)(ctx, params, tier)
        except Violation as v:
            res["violation"] = dict(message=v.message, detail={k: _js(x) for k, x in v.detail.items()})
        except (Horizon, Timeout) as e:
            res["violation"] = dict(message="does not terminate: %s" % e,
                                    detail=dict(where=traceback.format_exc()[-1500:]))
        except Divergence as e:
            res["violation"] = dict(message="replay divergence: %s" % e, detail={})
        except MemoryError:
            res["error"] = traceback.format_exc()
        except Exception as e:
            res["violation"] = dict(message="unexpected exception %s: %s" % (type(e).__name__, str(e)[:300]),
                                    detail=dict(traceback=traceback.format_exc()[-2500:],
                                                choices=[t[1] for t in ORACLE.trace[:100]]))
        finally:
            disarm()
    res.update(states=len(ctx.states), transitions=ctx.transitions, traces=ctx.traces,
               executions=ctx.executions, choice_points=ctx.choice_points,
               outcomes=len(ctx.outcomes), notes=ctx.notes, samples=ctx.samples, known=ctx.known,
               incomplete=ctx.incomplete, params=params, wall=time.time() - t0)
    return res


def _js(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)[:1500]


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def run_property(mod_name, tier, seed, only=None, quiet=False):
    import importlib
    mod = importlib.import_module(mod_name)
    pid = mod.ID
    t0 = time.time()
    cases = list(mod.cases(tier)) if only is None else [only]
    budget = 600 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "7200"))
    jobs = [(mod_name, k, p, tier) for k, p in cases]
    nproc = min(int(os.environ.get("MC_PROCS", "8")), os.cpu_count() or 1, max(1, len(jobs)))
    _JOBS[:] = jobs
    results = [None] * len(jobs)
    stopped = None
    ctxm = multiprocessing.get_context("fork")
    # heavy cases first would be ideal; keep simplest-first so that counterexamples are small
    if nproc == 1:
        for i, j in enumerate(jobs):
            results[i] = _run_case(j)
            if results[i]["violation"]:
                break
    else:
        stopped = _pool(ctxm, nproc, results, t0, budget)
    done = [r for r in results if r is not None]
    errors = [r for r in done if r.get("error")]
    viols = [r for r in done if r["violation"]]
    kf = {e["id"]: e for e in known_findings().get("findings", [])}
    known_lines = {}
    for r in done:
        for fid, what in r["known"]:
            if fid in kf and kf[fid]["property"] == pid:
                known_lines[fid] = kf[fid]["what"]
            else:
                r["violation"] = r["violation"] or dict(message="unlisted finding %s: %s" % (fid, what), detail={})
                if r not in viols:
                    viols.append(r)
    notes = {}
    for r in done:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    samples = []
    for r in done:
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(dict(case=[r["kind"], _js(r["params"])], observed=_js(s)))
    if not samples:
        samples = [dict(case=[r["kind"], _js(r["params"])]) for r in done[:3]]
    incompl = [r for r in done if r["incomplete"]]
    exhaustive = stopped is None and not incompl and len(done) == len(jobs) and \
        not notes.get("branches_pruned_below_mass_bound") and not notes.get("executions_completed_by_fair_schedule")
    by_kind = {}
    for r in done:
        d = by_kind.setdefault(r["kind"], dict(cases=0, states=0, transitions=0, traces=0, executions=0, distinct_outcomes=0))
        d["cases"] += 1
        for a, b in (("states", "states"), ("transitions", "transitions"), ("traces", "traces"), ("executions", "executions"), ("distinct_outcomes", "outcomes")):
            d[a] += r[b]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r["states"] for r in done),
                            transitions=sum(r["transitions"] for r in done),
                            traces_validated_against_impl=sum(r["traces"] for r in done),
                            random_executions_enumerated=sum(r["executions"] for r in done),
                            choice_points=sum(r["choice_points"] for r in done),
                            cases=len(done), cases_planned=len(jobs), by_kind=by_kind, notes=notes,
                            bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                            stopped=stopped, samples=samples, exhaustive=exhaustive),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 3), violations=len(viols))
    if only is None:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not quiet:
        c = ev["coverage"]
        print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d executions=%d wall=%.1fs%s" % (
            pid, tier, c["cases"], c["cases_planned"], c["states"], c["transitions"],
            c["traces_validated_against_impl"], c["random_executions_enumerated"], ev["wall_s"],
            "" if exhaustive else " (not fully exhaustive: %s)" % (stopped or notes)))
        for k, d in sorted(by_kind.items()):
            print("   ", k, d)
        slow = sorted(done, key=lambda r: -r["wall"])[:3]
        print("    slowest:", [(r["kind"], str(r.get("params") or "")[:60], round(r["wall"], 1)) for r in slow])
    for fid, what in known_lines.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for r in errors[:3]:
        sys.stderr.write("CHECK ERROR in %s %r\n%s\n" % (r["kind"], r["params"], r["error"]))
    if viols:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, r in enumerate(viols[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, kind=r["kind"], params=r["params"],
                               violation=r["violation"], how="/verif/check %s --replay %s" % (pid, path)),
                          f, indent=1, default=repr)
            v = r["violation"]
            print("  case %s %s" % (r["kind"], json.dumps(r["params"], default=repr)[:500]))
            print("  %s" % v["message"])
            for k, x in v["detail"].items():
                print("    %s: %s" % (k, x if isinstance(x, str) else json.dumps(x)[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 3
    return 0


_JOBS = []


def _worker(conn):
    try:
        ctypes.CDLL(None).prctl(1, 9)          # end with the parent
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send((i, _run_case(_JOBS[i])))
    except (EOFError, OSError, KeyboardInterrupt):
        pass
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def _pool(ctxm, nproc, results, t0, budget):
    """Run all jobs on forked workers, one pipe each (no shared queue, no locks: a worker that is
    killed loses one case only, which is tried once more).  Returns why it stopped early, or None."""
    todo = list(range(len(_JOBS)))[::-1]
    tries = {}
    live = {}                  # connection -> [process, case or None]

    def start():
        here, there = ctxm.Pipe()
        pr = ctxm.Process(target=_worker, args=(there,), daemon=True)
        pr.start()
        there.close()
        live[here] = [pr, None]
        give(here)

    def give(c):
        if todo:
            i = todo.pop()
            tries[i] = tries.get(i, 0) + 1
            live[c][1] = i
            c.send(i)
        else:
            live[c][1] = None

    stopped, bad = None, 0
    try:
        for _ in range(nproc):
            start()
        while any(i is not None for _, i in live.values()):
            left = budget - (time.time() - t0)
            ready = multiprocessing.connection.wait([c for c, (_, i) in live.items() if i is not None], timeout=max(0.0, left))
            if not ready:
                return "time budget of %d s" % budget
            for c in ready:
                try:
                    i, r = c.recv()
                except (EOFError, OSError):
                    pr, i = live.pop(c)
                    pr.join(5)
                    if tries[i] < 2:
                        todo.append(i)
                    else:
                        results[i] = _lost(i, pr.exitcode)
                    start()
                    continue
                results[i] = r
                if r["violation"]:
                    bad += 1
                    if bad >= 3:
                        return "stopped after violations"
                give(c)
    finally:
        for pr, _ in live.values():
            pr.kill()
        for pr, _ in live.values():
            pr.join(5)
    return stopped


def _lost(i, code):
    _, kind, params, _ = _JOBS[i]
    return dict(kind=kind, params=params, violation=None, error="the process running this case ended twice (exit code %s)" % code,
                states=0, transitions=0, traces=0, executions=0, choice_points=0, outcomes=0, notes={}, samples=[], known=[],
                incomplete="worker ended", wall=0.0)
