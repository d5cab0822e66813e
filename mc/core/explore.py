"""Stateless exhaustive exploration of all outcomes of the controlled random draws."""
import signal
from fractions import Fraction
from .rng import ORACLE, Horizon, Pruned, Divergence


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout("one execution ran for more than the per-execution time limit")


EXEC_LIMIT_S = 120


def arm():
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Stats:
    __slots__ = ("executions", "choice_points", "pruned", "pruned_mass", "truncated", "capped", "concretized")

    def __init__(self):
        self.executions = self.choice_points = self.pruned = self.truncated = self.concretized = 0
        self.pruned_mass = Fraction(0)
        self.capped = False


def explore(run, on_result, *, horizon=20000, fair_after=None, min_prob=None, max_exec=None,
            stats=None, prefix=()):
    """Enumerate every execution of ``run()``.

    run() executes the code under test on FRESH inputs and returns an observation; exceptions it
    wants to treat as outcomes it must catch itself.  on_result(obs, prob, choices) judges it.
    fair_after: after that many choice points an execution is completed with a fair fixed
    schedule instead of being branched further (retry loops); if it then still exceeds the
    horizon the execution does not terminate under a fair schedule.
    Returns Stats.
    """
    st = stats or Stats()
    prefix = list(prefix)
    base = len(prefix)
    expect = []
    while True:
        ORACLE.reset(prefix, expect, horizon, fair_after, min_prob)
        arm()
        pruned = False
        try:
            obs = run()
        except Pruned:
            pruned = True
        except Horizon as e:
            raise Violation("execution does not terminate: " + str(e),
                            choices=[t[1] for t in ORACLE.trace[:200]])
        except Timeout as e:
            raise Violation("execution does not terminate: " + str(e),
                            choices=[t[1] for t in ORACLE.trace[:200]])
        except Divergence as e:
            raise Violation("same inputs and same draws behaved differently on replay: " + str(e),
                            choices=prefix)
        finally:
            arm()
        trace = ORACLE.trace
        st.choice_points += len(trace)
        st.concretized += 1 if ORACLE.concretized else 0
        if pruned:
            st.pruned += 1
            st.pruned_mass += ORACLE.prob
        else:
            st.executions += 1
            if ORACLE.truncated:
                st.truncated += 1
            on_result(obs, ORACLE.prob, [t[1] for t in trace])
        if max_exec is not None and st.executions >= max_exec:
            st.capped = True
            return st
        tr = trace
        if fair_after is not None and len(tr) > fair_after:
            tr = tr[:fair_after]
        tr = list(tr)
        while len(tr) > base and tr[-1][1] + 1 >= tr[-1][0]:
            tr.pop()
        if len(tr) <= base:
            return st
        n, idx, tag = tr[-1]
        prefix = [t[1] for t in tr[:-1]] + [idx + 1]
        expect = [(t[0], t[2]) for t in tr]


def distribution(run, key, *, stats=None, **kw):
    """Exact distribution {key(obs): probability} of run() (None if some probability unknown)."""
    dist = {}

    def on(obs, p, choices):
        k = key(obs)
        if p is None:
            raise Violation("outcome depends on relative order of real draws; no exact probability")
        dist[k] = dist.get(k, Fraction(0)) + p
    st = explore(run, on, stats=stats, **kw)
    return dist, st
