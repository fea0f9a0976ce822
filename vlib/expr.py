"""Reference model of the expressions: mean value, domain, sound range."""
import math

from .xmlw import E

INF = float("inf")


class Domain(Exception):
    """An argument is outside the domain of its operator."""


class Amb(Exception):
    """Too close to a discontinuity to compare."""


class X:
    """An expression with its mean value, a sound range and how it samples."""

    __slots__ = ("op", "args", "attrs", "v", "lo", "hi", "open0", "dev", "soft",
                 "mag", "name", "bounded")

    def __init__(self, op, args=(), attrs=None):
        self.op, self.args, self.attrs = op, list(args), attrs or {}
        self.open0 = False          # the range excludes its lower bound 0
        self.name = None
        self.v = self.lo = self.hi = None
        self.dev = any(a.dev for a in self.args)
        self.soft = any(a.soft for a in self.args)      # needs margins
        self.bounded = all(a.bounded for a in self.args)
        self.mag = max([a.mag for a in self.args] + [1.0])

    def positive(self):
        return self.lo > 0 or (self.lo == 0 and self.open0)

    def point(self):
        return self.lo == self.hi

    def el(self, inline=True):
        """XML; named subexpressions are parameter references."""
        if self.name and inline:
            return E("parameter", {"name": self.name})
        kids = [a.el() for a in self.args]
        if self.op == "histogram":
            out = [kids[0]]
            n = (len(kids) - 1) // 2
            for i in range(n):
                out.append(E("bin", {}, kids[1 + i], kids[1 + n + i]))
            kids = out
        elif self.op == "switch":
            out = []
            for i in range((len(kids) - 1) // 2):
                out.append(E("case", {}, kids[2 * i], kids[2 * i + 1]))
            kids = out + [kids[-1]]
        return E(self.op, self.attrs, *kids)

    def show(self):
        if self.name:
            return self.name
        return self.body()

    def body(self):
        a = ",".join(x.show() for x in self.args)
        if self.op in ("float", "int", "bool"):
            return str(self.attrs["value"])
        return "%s(%s)" % (self.op, a)

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        for a in self.args:
            yield from a.walk(seen)
        yield self


def leaf(op, v, attrs=None):
    x = X(op, (), attrs)
    x.v = x.lo = x.hi = float(v)
    x.mag = max(1.0, abs(x.v))
    return x


def trunc(v):
    return int(max(-1e18, min(v, 1e18)))        # toward zero


def tanf(x):
    return math.tan(x)


MONO = {  # non-decreasing unary functions
    "sinh": math.sinh, "tanh": math.tanh, "exp": math.exp, "log": math.log,
    "log10": math.log10, "sqrt": math.sqrt,
    "ceil": lambda x: float(math.ceil(x)), "floor": lambda x: float(math.floor(x)),
}
UNARY = ["neg", "abs", "acos", "asin", "atan", "cos", "sin", "tan", "cosh",
         "sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "floor", "not"]
NARY = ["add", "sub", "mul", "div", "min", "max", "mean", "and", "or"]
BINARY = ["mod", "pow", "eq", "df", "lt", "gt", "leq", "geq"]
PROBF = ["exponential", "GLM", "Weibull", "periodic-test"]


def hypo(l, m, t):
    """P(two successive exponential phases of rates l and m are over by t)."""
    import mpmath as mp
    l, m, t = mp.mpf(l), mp.mpf(m), mp.mpf(t)
    if l == m:
        return 1 - mp.exp(-l * t) * (1 + l * t)
    return (m * (1 - mp.exp(-l * t)) - l * (1 - mp.exp(-m * t))) / (m - l)


def periodic4(lam, tau, theta, t):
    if t <= theta:
        return 1 - math.exp(-lam * t)
    d = t - theta
    since = d - int(d / tau) * tau
    return 1 - math.exp(-lam * (since if since else tau))


def periodic5(lam, mu, tau, theta, t):
    """Failed/working chain; a test starts the repair of a failed unit."""
    import mpmath as mp
    with mp.workdps(40):
        def pe(r, x):
            return 1 - mp.exp(-mp.mpf(r) * mp.mpf(x))
        if t <= theta:
            return float(pe(lam, t))
        q = pe(lam, theta)
        d = mp.mpf(t) - mp.mpf(theta)
        n = int((t - theta) / tau)

        def coefs(x):
            # working -> failed; in repair -> not repaired, or repaired and failed again
            return pe(lam, x), 1 - pe(mu, x) + hypo(mu, lam, x)
        u, w = coefs(tau)
        for _ in range(n):
            q = (1 - q) * u + q * w
        u, w = coefs(d - n * mp.mpf(tau))
        return float((1 - q) * u + q * w)


def periodic11(lam, lamt, mu, tau, theta, gam, pi, avail, sig, om, t):
    import mpmath as mp
    with mp.workdps(40):
        def pe(r, x):
            return 1 - mp.exp(-mp.mpf(r) * mp.mpf(x))
        if t <= theta:
            return float(pe(lam, t))
        f = pe(lam, theta)          # failed, not known
        r = mp.mpf(0)               # under repair
        a = 1 - f                   # working
        tau_, pi_ = mp.mpf(tau), mp.mpf(pi)

        def refail(x):
            return pe(mu, x) * om + (1 - om) * hypo(mu, lam, x)

        memo = {}

        def co(x):
            if x not in memo:
                memo[x] = pe(lamt, x), pe(mu, x), pe(lam, x), refail(x)
            return memo[x]

        def test(f, r, a, x, av=True):
            plt, pm, _, rf = co(x)
            tr = f + a * (gam + (1 - gam) * plt)
            f2 = r * rf + (1 - sig) * tr
            r2 = r * (1 - pm) + sig * tr
            return f2, r2, 1 - f2 - r2 - (0 if av else a * (1 - gam) * (1 - plt))

        def run(f, r, a, x):
            _, pm, pl, rf = co(x)
            f2 = f + a * pl + r * rf
            r2 = r * (1 - pm)
            return f2, r2, 1 - f2 - r2
        d = mp.mpf(t) - mp.mpf(theta)
        n = int((t - theta) / tau)
        for _ in range(n):
            f, r, a = test(f, r, a, pi_)
            f, r, a = run(f, r, a, tau_ - pi_)
        left = d - n * tau_
        if left <= pi_:
            f, r, a = test(f, r, a, left, bool(avail))
        else:
            f, r, a = test(f, r, a, pi_)
            f, r, a = run(f, r, a, left - pi_)
        return float(1 - a)


def need(c, why):
    if not c:
        raise Domain(why)


INEXACT = {"exponential", "GLM", "Weibull", "periodic-test", "lognormal-deviate",
           "histogram", "mean"}


def exact(x):
    """The tool's arithmetic is the same as the reference's, bit by bit."""
    return not any(y.op in INEXACT for y in x.walk())


def near(a, b, soft, exact=True):
    m = 1e-5 if soft else 1e-9
    return abs(a - b) <= m * max(1.0, abs(a), abs(b)) and (soft or a != b or not exact)


def fold_range(f, args):
    lo, hi = args[0].lo, args[0].hi
    for a in args[1:]:
        c = []
        for p in (lo, hi):
            for q in (a.lo, a.hi):
                try:
                    z = f(p, q)
                except (ZeroDivisionError, OverflowError):
                    z = float("nan")
                c.append(z)
        c = [(-INF, INF)[i] if z != z else z for z in c for i in (0, 1)]
        lo, hi = min(c), max(c)
    return lo, hi


def build(op, args, attrs=None):
    """The expression with its mean; raises Domain if a mean is out of domain."""
    x = X(op, args, attrs)
    evaluate(x)
    x.mag = max(x.mag, abs(x.v))
    return x


def dom_ok(x):
    """True if no value in the ranges of the arguments is out of the domain."""
    a = x.args
    op = x.op
    if op == "div":
        return all(not (b.lo <= 0 <= b.hi) for b in a[1:])
    if op in ("acos", "asin"):
        return a[0].lo >= -1 and a[0].hi <= 1
    if op in ("log", "log10"):
        return a[0].positive()
    if op == "sqrt":
        return a[0].lo >= 0
    if op == "mod":
        if not all(abs(z) < 2e9 for b in a for z in (b.lo, b.hi)):
            return False
        lo, hi = trunc(a[1].lo), trunc(a[1].hi)
        return lo > 0 or hi < 0
    if op == "pow":
        if a[0].lo <= 0 <= a[0].hi and not a[1].positive():
            return False
        return a[0].lo >= 0 or (a[1].point() and a[1].v == int(a[1].v))
    if op == "exponential":
        return a[0].lo >= 0 and a[1].lo >= 0
    if op == "GLM":
        return (a[0].lo >= 0 and a[0].hi <= 1 and a[1].positive()
                and a[2].lo >= 0 and a[3].lo >= 0)
    if op == "Weibull":
        return (a[0].positive() and a[1].positive() and a[2].lo >= 0
                and a[3].lo >= 0)
    if op == "periodic-test":
        n = len(a)
        if n == 4:
            return a[0].positive() and a[1].positive() and a[2].lo >= 0 and a[3].lo >= 0
        if n == 5:
            return (a[0].positive() and a[1].lo >= 0 and a[2].positive()
                    and a[3].lo >= 0 and a[4].lo >= 0)
        lam, lamt, mu, tau, theta, gam, pi, av, sig, om, t = a
        return (lam.positive() and lamt.lo >= 0 and mu.lo >= 0 and tau.positive()
                and theta.lo >= 0 and t.lo >= 0 and pi.positive()
                and all(0 <= z.lo and z.hi <= 1 for z in (gam, sig, om))
                and pi.hi <= tau.lo)
    return True


def evaluate(x):
    op, a, soft = x.op, x.args, x.soft
    v = [b.v for b in a]
    if op == "neg":
        x.v, x.lo, x.hi = -v[0], -a[0].hi, -a[0].lo
    elif op == "abs":
        x.v = abs(v[0])
        x.hi = max(abs(a[0].lo), abs(a[0].hi))
        x.lo = 0.0 if a[0].lo <= 0 <= a[0].hi else min(abs(a[0].lo), abs(a[0].hi))
    elif op in ("acos", "asin", "atan"):
        need(op == "atan" or -1 <= v[0] <= 1, op)
        x.v = getattr(math, op)(v[0])
        x.lo, x.hi = {"acos": (0.0, math.pi)}.get(op, (-math.pi / 2, math.pi / 2))
    elif op in ("cos", "sin"):
        x.v = getattr(math, op)(v[0])
        x.lo, x.hi = -1.0, 1.0
    elif op == "tan":
        x.v = math.tan(v[0])
        if abs(math.cos(v[0])) < 1e-3:
            raise Amb("pole")
        if a[0].point():
            x.lo = x.hi = x.v
        elif (a[0].hi - a[0].lo < math.pi and
              math.floor((a[0].lo + math.pi / 2) / math.pi) ==
              math.floor((a[0].hi + math.pi / 2) / math.pi)):
            x.lo, x.hi = math.tan(a[0].lo), math.tan(a[0].hi)
        else:
            x.lo, x.hi = -INF, INF
    elif op == "cosh":
        if max(abs(a[0].lo), abs(a[0].hi), abs(v[0])) > 200:
            raise Amb("large")
        x.v = math.cosh(v[0])
        c = [math.cosh(a[0].lo), math.cosh(a[0].hi)]
        x.lo, x.hi = (1.0 if a[0].lo <= 0 <= a[0].hi else min(c)), max(c)
    elif op in MONO:
        if op in ("log", "log10"):
            need(v[0] > 0, op)
        if op == "sqrt":
            need(v[0] >= 0, op)
        if op in ("exp", "sinh") and max(abs(v[0]), abs(a[0].hi), abs(a[0].lo)) > 200:
            raise Amb("large")
        if op in ("ceil", "floor"):
            if not all(abs(z) < 1e15 for z in (v[0], a[0].lo, a[0].hi)):
                raise Amb("large")
            if near(v[0], round(v[0]), soft, exact(a[0])):
                raise Amb("integer")
        f = MONO[op]
        x.v = f(v[0])

        def g(z, d):
            try:
                return f(z)
            except (ValueError, OverflowError):
                return d
        x.lo, x.hi = g(a[0].lo, -INF), g(a[0].hi, INF)
    elif op == "not":
        x.v = float(not v[0])
        if fuzzy0(a[0]):
            raise Amb("zero")
        x.lo, x.hi = bool_range(x)
    elif op in ("and", "or"):
        r = v[0]
        for z in v[1:]:
            r = float(bool(r) and bool(z)) if op == "and" else float(bool(r) or bool(z))
        if any(fuzzy0(b) for b in a):
            raise Amb("zero")
        x.v = r
        x.lo, x.hi = bool_range(x)
    elif op in ("eq", "df", "lt", "gt", "leq", "geq"):
        same = a[0] is a[1] and (a[0].name or not a[0].dev)
        if not same and near(v[0], v[1], soft, all(exact(b) for b in a)):
            raise Amb("tie")
        x.v = float({"eq": v[0] == v[1], "df": v[0] != v[1], "lt": v[0] < v[1],
                     "gt": v[0] > v[1], "leq": v[0] <= v[1], "geq": v[0] >= v[1]}[op])
        x.lo, x.hi = bool_range(x)
    elif op in ("add", "sub", "mul", "div", "min", "max"):
        f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q,
             "mul": lambda p, q: p * q, "div": lambda p, q: p / q,
             "min": min, "max": max}[op]
        if op == "div":
            need(all(v[1:]), "division by zero")
        r = v[0]
        for z in v[1:]:
            r = f(r, z)
        x.v = r
        if op == "div" and not dom_ok(x):
            x.lo, x.hi = -INF, INF
        else:
            x.lo, x.hi = fold_range(f, a)
    elif op == "mean":
        x.v = sum(v) / len(v)
        x.lo = sum(b.lo for b in a) / len(a)
        x.hi = sum(b.hi for b in a) / len(a)
    elif op == "mod":
        if not all(abs(z) < 2e9 for z in v):
            raise Amb("large")
        p, q = trunc(v[0]), trunc(v[1])
        if any(near(b.v, round(b.v), soft, exact(b)) for b in a):
            raise Amb("integer")
        need(q != 0, "mod 0")
        x.v = float(math.fmod(p, q)) + 0.0
        if a[0].point() and a[1].point():
            x.lo = x.hi = x.v
        else:
            m = max(abs(a[1].lo), abs(a[1].hi))
            x.lo = max(-m, min(a[0].lo, 0.0))
            x.hi = min(m, max(a[0].hi, 0.0))
    elif op == "pow":
        need(not (v[0] == 0 and v[1] <= 0), "0^0")
        need(v[0] >= 0 or v[1] == int(v[1]), "root of a negative number")
        if abs(v[1]) > 30 or abs(v[0]) > 1e6:
            raise Amb("large")
        try:
            x.v = float(math.pow(v[0], v[1]))
        except OverflowError:
            raise Amb("large")
        x.lo, x.hi = pow_range(x)
    elif op == "ite":
        if fuzzy0(a[0]):
            raise Amb("zero")
        x.v = v[1] if v[0] else v[2]
        x.lo, x.hi = min(a[1].lo, a[2].lo), max(a[1].hi, a[2].hi)
    elif op == "switch":
        x.v = v[-1]
        for i in range(0, len(v) - 1, 2):
            if fuzzy0(a[i]):
                raise Amb("zero")
        for i in range(0, len(v) - 1, 2):
            if v[i]:
                x.v = v[i + 1]
                break
        arms = a[1::2] + [a[-1]]
        x.lo, x.hi = min(b.lo for b in arms), max(b.hi for b in arms)
    elif op == "exponential":
        need(v[0] >= 0 and v[1] >= 0, op)
        x.v = -math.expm1(-v[0] * v[1])
        x.lo, x.hi = 0.0, 1.0
    elif op == "GLM":
        g, l, m, t = v
        need(0 <= g <= 1 and l > 0 and m >= 0 and t >= 0, op)
        r = l + m
        s = l / r
        x.v = s + (g - s) * math.exp(-r * t)
        x.lo, x.hi = 0.0, 1.0
    elif op == "Weibull":
        al, be, t0, t = v
        need(al > 0 and be > 0 and t0 >= 0 and t >= 0, op)
        if be > 50 or (t > t0 and (t - t0) / al > 1e5):
            raise Amb("large")
        x.v = 0.0 if t <= t0 else -math.expm1(-math.pow((t - t0) / al, be))
        x.lo, x.hi = 0.0, 1.0
    elif op == "periodic-test":
        n = len(v)
        if n == 4:
            lam, tau, theta, t = v
            mu = None
        elif n == 5:
            lam, mu, tau, theta, t = v
        else:
            lam, lamt, mu, tau, theta, gam, pi, av, sig, om, t = v
            need(lamt >= 0 and pi > 0 and pi <= tau, op)
            need(all(0 <= z <= 1 for z in (gam, sig, om)), op)
        need(lam > 0 and tau > 0 and theta >= 0 and t >= 0, op)
        need(mu is None or mu >= 0, op)
        if t > theta:
            k = (t - theta) / tau
            if k > 300:
                raise Amb("too many periods")
            # The number of past tests and the phase must be clear.
            if near(k, round(k), soft) or (soft and k == int(k)):
                raise Amb("at a test")
            if n == 11:
                left = (t - theta) - int(k) * tau
                if near(left, pi, soft):
                    raise Amb("end of a test")
        elif soft and near(t, theta, True):
            raise Amb("theta")
        x.v = (periodic4(*v) if n == 4 else periodic5(*v) if n == 5
               else periodic11(*v))
        x.lo, x.hi = 0.0, 1.0
    elif op == "uniform-deviate":
        need(v[0] < v[1], op)
        x.v, x.lo, x.hi = (v[0] + v[1]) / 2, v[0], v[1]
        x.dev = True
    elif op == "normal-deviate":
        need(v[1] > 0, op)
        x.v, x.lo, x.hi = v[0], v[0] - 6 * v[1], v[0] + 6 * v[1]
        x.dev, x.bounded = True, False
    elif op == "lognormal-deviate":
        x.dev, x.bounded, x.open0 = True, False, True
        x.lo, x.hi = 0.0, INF
        if len(v) == 3:
            need(v[0] > 0 and v[1] > 1 and 0 < v[2] < 1, op)
            x.v = v[0]
        else:
            need(v[1] > 0, op)
            if abs(v[0]) > 20 or v[1] > 5:
                raise Amb("large")
            x.v = math.exp(v[0] + v[1] ** 2 / 2)
    elif op == "gamma-deviate":
        need(v[0] > 0 and v[1] > 0, op)
        x.v, x.lo, x.hi = v[0] * v[1], 0.0, INF
        x.dev, x.bounded, x.open0 = True, False, True
    elif op == "beta-deviate":
        need(v[0] > 0 and v[1] > 0, op)
        x.v, x.lo, x.hi = v[0] / (v[0] + v[1]), 0.0, 1.0
        x.dev = True
    elif op == "histogram":
        n = (len(v) - 1) // 2
        b, w = v[:n + 1], v[n + 1:]
        need(all(p < q for p, q in zip(b, b[1:])), "boundaries")
        need(all(p >= 0 for p in w), "weights")
        need(sum(w) > 0, "no weight")
        x.v = (sum((b[i] + b[i + 1]) / 2 * w[i] for i in range(n)) / sum(w))
        x.lo, x.hi = b[0], b[-1]
        x.dev = True
    else:
        raise ValueError(op)
    if x.dev and op.endswith("deviate") or op == "histogram":
        # The distribution's arguments are taken at their means.
        x.bounded = op in ("uniform-deviate", "beta-deviate", "histogram")


def fuzzy0(x):
    """May be zero or not depending on rounding (or on the sample)."""
    return not is01(x) and near(x.v, 0.0, x.soft, exact(x))


def is01(x):
    return x.op in ("not", "and", "or", "eq", "df", "lt", "gt", "leq", "geq", "bool")


def bool_range(x):
    if all(b.point() for b in x.args):
        return x.v, x.v
    return 0.0, 1.0


def pow_range(x):
    a, b = x.args
    if a.point() and b.point():
        return x.v, x.v
    if not dom_ok(x):
        return -INF, INF
    try:
        c = [math.pow(p, q) for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
    except (OverflowError, ValueError, ZeroDivisionError):
        return -INF, INF
    if a.lo < 0 < a.hi:
        c.append(0.0)
    return min(c), max(c)
