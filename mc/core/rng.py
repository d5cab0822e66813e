"""Controlled source of randomness.

Every draw the code under test makes through Python's ``random`` module becomes a *choice
point* owned by an Oracle, so that an explorer can enumerate every outcome with its exact
probability.

* integer draws (``_randbelow``: choice, randrange, sample, shuffle, ...) branch over all n
  equiprobable outcomes;
* ``random()`` returns a symbolic ``Draw`` (a float subclass).  Comparing it with a constant
  branches into the feasible outcomes with the exact conditional probability; comparing two
  draws branches over the feasible orders (feasibility by difference-bound constraints).
"""
import math
import random as _random
from fractions import Fraction

ONE = Fraction(1)


class Horizon(BaseException):
    """More draws than any terminating execution of this driver needs."""


class Pruned(BaseException):
    """Branch cut off by the explorer (probability mass below the bound)."""


class Divergence(BaseException):
    """Replaying a recorded prefix met a different choice point."""


class Oracle:
    def __init__(self):
        self.reset([])

    def reset(self, prefix, expect=None, horizon=20000, fair_after=None, min_prob=None):
        self.prefix = list(prefix)
        self.expect = expect or []
        self.trace = []          # (n_options, index, tag)
        self.prob = ONE          # exact probability of this execution, None if unknown
        self.horizon = horizon
        self.fair_after = fair_after
        self.min_prob = min_prob
        self.truncated = False   # entered fair completion: not a distinct explored execution
        self.draws = 0
        self.vars = 0
        self.pure = True         # only plain order constraints so far
        self.up = {}
        self.lo = {}
        self.hi = {}
        self.rel = {}            # (i, j) -> upper bound on x_i - x_j (strict)
        self.coupled = set()
        self.concretized = 0
        self.reseeded = 0
        self.script = []         # values handed out by random() before symbolic draws


    # ------------------------------------------------------------------ choice points
    def choose(self, weights, tag):
        """Pick an option index; weights is a list of Fractions (or None if unknown)."""
        n = len(weights)
        self.draws += 1
        if n == 1:
            return 0
        if self.draws > self.horizon:
            raise Horizon("more than %d draws" % self.horizon)
        pos = len(self.trace)
        if pos < len(self.prefix):
            idx = self.prefix[pos]
            if pos < len(self.expect) and self.expect[pos] != (n, tag):
                raise Divergence("replay of choice %d met %r, recorded %r"
                                 % (pos, (n, tag), self.expect[pos]))
            if idx >= n:
                raise Divergence("replay of choice %d: option %d of %d" % (pos, idx, n))
        elif self.fair_after is not None and pos >= self.fair_after:
            self.truncated = True
            idx = _mix(pos - self.fair_after) % n
        else:
            idx = 0
        self.trace.append((n, idx, tag))
        w = weights[idx]
        if w is None or self.prob is None:
            self.prob = None
        else:
            self.prob *= w
            if self.min_prob is not None and self.prob < self.min_prob:
                raise Pruned()
        return idx

    def uniform(self, n, tag="n"):
        return self.choose([Fraction(1, n)] * n, tag)

    # ------------------------------------------------------------------ symbolic draws
    def new_var(self):
        v = self.vars
        self.vars += 1
        self.lo[v] = Fraction(0)
        self.hi[v] = Fraction(1)
        return v

    def below(self, v, c):
        """Decide whether draw v is < c (constant)."""
        lo, hi = self.bounds(v)
        if c <= lo:
            return False
        if c >= hi:
            return True
        if v in self.coupled:
            self.pure = False
            w = [None, None]
        else:
            p = (c - lo) / (hi - lo)
            w = [p, ONE - p]
        if self.choose(w, "c") == 0:
            self.hi[v] = min(self.hi[v], c)
            return True
        self.lo[v] = max(self.lo[v], c)
        return False

    def bounds(self, v):
        if v not in self.coupled:
            return self.lo[v], self.hi[v]
        d = self._closure()
        return -d["z", v], d[v, "z"]

    def _free(self, v):
        return self.lo[v] == 0 and self.hi[v] == 1

    def _closure(self):
        vs = ["z"] + [v for v in sorted(self.coupled)]
        inf = Fraction(10 ** 9)
        d = {(a, b): (Fraction(0) if a == b else inf) for a in vs for b in vs}
        for v in vs[1:]:
            d[v, "z"] = self.hi[v]
            d["z", v] = -self.lo[v]
        for (a, b), c in self.rel.items():
            d[a, b] = min(d[a, b], c)
        for k in vs:
            for a in vs:
                dak = d[a, k]
                if dak >= inf:
                    continue
                for b in vs:
                    s = dak + d[k, b]
                    if s < d[a, b]:
                        d[a, b] = s
        return d

    def less(self, a, b, c):
        """Decide whether x_a - x_b < c."""
        self.coupled.add(a)
        self.coupled.add(b)
        if c == 0 and self.pure and self._free(a) and self._free(b):
            up = self.up                     # up[x]: bitmask of variables known > x
            if up.get(a, 0) >> b & 1:
                return True
            if up.get(b, 0) >> a & 1:
                return False
            if self.choose([None, None], "o") == 0:
                x, y = a, b
            else:
                x, y = b, a
            self.rel[x, y] = Fraction(0)
            new = up.get(y, 0) | (1 << y)
            for z in self.coupled:
                if z == x or up.get(z, 0) >> x & 1:
                    up[z] = up.get(z, 0) | new
            return x == a
        self.pure = False
        d = self._closure()
        # feasible "x_a - x_b < c"  iff  c + d[b,a] > 0 ; feasible ">" iff -c + d[a,b] > 0
        can_lt = c + d[b, a] > 0
        can_gt = d[a, b] - c > 0
        if can_lt and not can_gt:
            return True
        if can_gt and not can_lt:
            return False
        if self.choose([None, None], "o") == 0:
            self.rel[a, b] = min(self.rel.get((a, b), c), c)
            return True
        self.rel[b, a] = min(self.rel.get((b, a), -c), -c)
        return False


def _mix(i):
    """Fixed aperiodic sequence (splitmix64) for the fair completion schedule."""
    z = (i * 0x9E3779B97F4A7C15 + 0x1234567) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
    return (z ^ (z >> 31)) >> 20


ORACLE = Oracle()


def _frac(x):
    if isinstance(x, Draw):
        return None
    if isinstance(x, int):
        return Fraction(x)
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    if math.isnan(f) or math.isinf(f):
        return None
    return Fraction(f)


class Draw(float):
    """coef * u + const, u a fresh uniform variable in [0, 1)."""
    __slots__ = ("var", "coef", "const", "ora")

    def __new__(cls, var, coef, const, base):
        self = float.__new__(cls, float(coef) * base + float(const))
        self.var, self.coef, self.const = var, coef, const
        self.ora = (base, ORACLE)
        return self

    def _mk(self, coef, const):
        return Draw(self.var, coef, const, self.ora[0])

    def __add__(self, o):
        if isinstance(o, Draw):
            return self._plain() + o._plain()
        f = _frac(o)
        if f is None:
            return self._plain() + o
        return self._mk(self.coef, self.const + f)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Draw):
            return self._plain() - o._plain()
        f = _frac(o)
        if f is None:
            return self._plain() - o
        return self._mk(self.coef, self.const - f)

    def __rsub__(self, o):
        f = _frac(o)
        if f is None:
            return o - self._plain()
        return self._mk(-self.coef, f - self.const)

    def __mul__(self, o):
        f = _frac(o)
        if f is None or f == 0:
            return self._plain() * o
        return self._mk(self.coef * f, self.const * f)
    __rmul__ = __mul__

    def __truediv__(self, o):
        f = _frac(o)
        if f is None or f == 0:
            return self._plain() / o
        return self._mk(self.coef / f, self.const / f)

    def __neg__(self):
        return self._mk(-self.coef, -self.const)

    def __pos__(self):
        return self

    def _plain(self):
        self.ora[1].concretized += 1
        return float.__add__(self, 0.0)

    def __abs__(self):
        return -self if self < 0 else self

    def _lt(self, o):
        """self < o"""
        if isinstance(o, Draw):
            if o.var == self.var:
                if self.coef == o.coef:
                    return self.const < o.const
                # (c1-c2) u < k2-k1
                dc, k = self.coef - o.coef, o.const - self.const
                if dc > 0:
                    return ORACLE.below(self.var, k / dc)
                return not ORACLE.below(self.var, k / dc)
            if self.coef == o.coef:
                if self.coef > 0:
                    return ORACLE.less(self.var, o.var, (o.const - self.const) / self.coef)
                return ORACLE.less(o.var, self.var, (self.const - o.const) / self.coef)
            return self._plain() < o._plain()
        if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return float.__lt__(self, o)
        f = _frac(o)
        if f is None:
            return NotImplemented
        c = (f - self.const) / self.coef
        if self.coef > 0:
            return ORACLE.below(self.var, c)
        return not ORACLE.below(self.var, c)

    def __lt__(self, o):
        return self._lt(o)

    __le__ = __lt__          # equality has probability zero ...

    def __gt__(self, o):
        r = self._lt(o)
        return r if r is NotImplemented else not r

    __ge__ = __gt__

    def __eq__(self, o):
        if isinstance(o, Draw):
            return (self.var, self.coef, self.const) == (o.var, o.coef, o.const)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.var, self.coef, self.const))

    def __bool__(self):
        return True

    def __floor__(self):
        a, b = sorted((self.const, self.const + self.coef))
        k = math.floor(a)
        top = math.ceil(b) - 1
        while k < top and not self._lt(k + 1):
            k += 1
        return k
    __trunc__ = __floor__
    __int__ = __floor__

    def __floordiv__(self, o):
        return math.floor(self / o)

    def __round__(self, n=None):
        if n is None:
            return math.floor(self + Fraction(1, 2))
        return round(self._plain(), n)

    def __repr__(self):
        return "<%s*u%d+%s>" % (self.coef, self.var, self.const)

    def __reduce__(self):
        return (float, (float.__add__(self, 0.0),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_GOLD = 0.6180339887498949


class ControlledRandom(_random.Random):
    def __init__(self):
        self.live = False
        super().__init__(0)

    def seed(self, *a, **k):
        if getattr(self, "live", False):
            ORACLE.reseeded += 1
        return None

    def getstate(self):
        ORACLE.reseeded += 1
        return None

    def setstate(self, state):
        ORACLE.reseeded += 1

    def random(self):
        if ORACLE.script:
            ORACLE.draws += 1
            return ORACLE.script.pop(0)
        v = ORACLE.new_var()
        ORACLE.draws += 1
        if ORACLE.draws > ORACLE.horizon:
            raise Horizon("more than %d draws" % ORACLE.horizon)
        return Draw(v, ONE, Fraction(0), ((v + 1) * _GOLD) % 1.0)

    def getrandbits(self, k):
        if k <= 10:
            return ORACLE.uniform(1 << k, "b")
        ORACLE.concretized += 1
        v = ORACLE.new_var()
        return int((((v + 1) * _GOLD) % 1.0) * (1 << k))

    def _randbelow(self, n):
        if n <= 0:
            raise ValueError("empty range")
        return ORACLE.uniform(n, "n")

    def uniform(self, a, b):
        return self.random() * (b - a) + a

    def triangular(self, *a, **k):
        ORACLE.concretized += 1
        return 0.5


INST = ControlledRandom()
_NAMES = ["random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle",
          "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate",
          "gammavariate", "gauss", "binomialvariate", "betavariate", "paretovariate",
          "weibullvariate", "getrandbits", "randbytes", "seed", "getstate", "setstate"]


def install():
    """Redirect the module-level functions of ``random``; must precede importing gerrychain."""
    import sys
    assert "gerrychain" not in sys.modules
    _random._inst = INST
    for name in _NAMES:
        if hasattr(INST, name):
            setattr(_random, name, getattr(INST, name))
    INST.live = True
