"""C07 expression values, C08 domains and derived ranges."""
import math

from .. import expr as X
from ..base import DrvCheck, close
from ..engine import Discard, Result
from ..xmlw import E

INT_BOOL = ["not", "and", "or", "eq", "df", "lt", "gt", "leq", "geq"]


def num_text(src, v):
    """A spelling of a float."""
    k = src.weighted([(8, "repr"), (1, "exp"), (1, "point"), (1, "pad"), (1, "zeros")])
    r = repr(v)
    if k == "exp":
        r = "%.17e" % v
        return r.upper() if src.bool() else r
    if k == "point" and r.endswith(".0"):
        return r[:-1] if src.bool() else r[:-2]
    if k == "point" and r.startswith("0.") and src.bool():
        return r[1:]
    if k == "zeros" and "e" not in r:
        return r + "00" if "." in r else r
    return r


class Gen:
    """Random expressions; safe: only within the domains (in range too)."""

    def __init__(self, src, mission, dev="none", safe=True, narrow=False):
        self.src, self.mission, self.devk, self.safe = src, mission, dev, safe
        self.narrow = narrow
        self.params = []
        self.name_p = 0.12

    def const(self, lo=None, hi=None):
        src = self.src
        k = src.weighted([(4, "float"), (3, "int"), (2, "small"), (1, "bool"),
                          (1, "pi"), (1, "big"), (1, "mission")])
        if lo is not None:
            v = lo + (hi - lo) * src.int(0, 1000) / 1000.0
            return X.leaf("float", v, {"value": num_text(src, v)})
        if k == "int":
            v = src.int(0, 12) - 4
            return X.leaf("int", v, {"value": str(v)})
        if k == "bool":
            v = src.bool()
            return X.leaf("bool", v, {"value": "true" if v else "false"})
        if k == "pi":
            return X.leaf("pi", math.pi)
        if k == "mission":
            return self.mission_leaf()
        if k == "small":
            v = src.int(1, 99) * 10.0 ** -src.int(2, 6)
        elif k == "big":
            v = float(src.int(-2000, 2000))
        else:
            v = src.int(-3000, 3000) / 1000.0
        return X.leaf("float", v, {"value": num_text(src, v)})

    def mission_leaf(self):
        x = X.leaf("system-mission-time", self.mission)
        x.lo = 0.0          # it may run from 0
        return x

    def mk(self, op, args, attrs=None):
        x = X.build(op, args, attrs)
        if self.safe and not X.dom_ok(x):
            return None
        if not all(z == z for z in (x.v, x.lo, x.hi)) or abs(x.v) > 1e9:
            raise X.Amb("large")
        if self.src.bool(self.name_p):
            x.name = "p%d" % len(self.params)
            self.params.append(x)
        return x

    def deviate(self, prob=False):
        src = self.src
        f = lambda v: X.leaf("float", v, {"value": num_text(src, v)})
        if self.narrow:
            c = src.int(1, 990) / 1000.0 if prob else src.int(-3000, 3000) / 1000.0
            w = 1e-9
            x = self.mk("uniform-deviate", [f(c - w), f(c + w)])
            x.soft = True
            return x
        kinds = ["uniform-deviate", "beta-deviate", "histogram"]
        if self.devk == "all":
            kinds += ["normal-deviate", "lognormal-deviate", "gamma-deviate"]
        k = src.choice(kinds)
        if k == "uniform-deviate":
            a, b = sorted((src.int(0, 100), src.int(0, 100)))
            if a == b and (self.safe or src.bool(0.8)):
                b += 1
            s = 100.0 if prob else src.choice([100.0, 20.0])
            off = 0 if prob else src.choice([0, 0, -1, -2, 3])
            return self.mk(k, [f(a / s + off), f(b / s + off)])
        if k == "normal-deviate":
            m = src.int(30, 70) / 100.0
            if not prob:
                m *= src.choice([1, 10, -5])
            return self.mk(k, [f(m), f(src.int(1, 4) / 100.0)])
        if k == "lognormal-deviate":
            if src.bool():
                return self.mk(k, [f(src.int(1, 50) / 1000.0), f(1 + src.int(1, 90) / 10.0),
                                   f(src.choice([0.9, 0.95, 0.75, 0.99]))])
            return self.mk(k, [f(-src.int(0, 80) / 10.0), f(src.int(1, 20) / 10.0)])
        if k == "gamma-deviate":
            return self.mk(k, [f(src.int(1, 80) / 10.0), f(src.int(1, 50) / 1000.0)])
        if k == "beta-deviate":
            return self.mk(k, [f(src.int(1, 90) / 10.0), f(src.int(1, 90) / 10.0)])
        n = src.int(1, 4)
        b = sorted({src.int(0, 100) for _ in range(n + 1)})
        while len(b) < 2:
            b.append(b[-1] + 1)
        w = [src.int(0, 8) for _ in b[1:]]
        if not sum(w):
            w[0] = 1
        off = 0 if prob else src.choice([0, 0, -1, 2])
        return self.mk(k, [f(z / 101.0 + off) for z in b] + [f(float(z)) for z in w])

    def num(self, d):
        """Any number."""
        src = self.src
        if self.params and src.bool(0.1):
            return src.choice(self.params)
        if d <= 0 or src.bool(0.12):
            if self.devk != "none" and src.bool(0.5):
                return self.deviate()
            return self.const()
        k = src.weighted([(5, "unary"), (5, "nary"), (5, "binary"), (3, "prob"),
                          (2, "ite"), (2, "switch"), (1, "mean")])
        for _ in range(12):
            if k == "unary":
                op = src.choice(X.UNARY)
                a = [self.fit(op, d - 1)]
            elif k == "nary":
                op = src.choice(X.NARY)
                a = [self.num(d - 1) for _ in range(src.weighted([(5, 2), (3, 3), (1, 4)]))]
                if op == "div" and self.safe:
                    a[1:] = [self.nonzero(z) for z in a[1:]]
                    if any(z is None for z in a):
                        continue
            elif k == "binary":
                op = src.choice(X.BINARY)
                a = [self.num(d - 1), self.num(d - 1)]
                if op == "mod":
                    a = [self.mk("mul", [z, self.const(3, 40)]) for z in a]
                    if a[1] is not None and not (X.trunc(a[1].lo) > 0 or
                                                 X.trunc(a[1].hi) < 0):
                        a[1] = self.nonzero(self.mk("mul", [a[1], self.leafv(3.3)]))
                        if a[1] is not None and not a[1].point():
                            a[1] = self.leafv(src.int(1, 30) + 0.5)
                        if a[1] is not None and not X.trunc(a[1].v):
                            a[1] = self.leafv(-7.5)
                if op == "pow" and self.safe:
                    if src.bool(0.7):
                        a[0] = self.pos(d - 1)
                    if src.bool(0.5):
                        v = src.int(-2, 4)
                        a[1] = X.leaf("int", v, {"value": str(v)})
                if op in ("eq", "df", "leq", "geq") and src.bool(0.3):
                    a[1] = a[0]
            elif k == "prob":
                return self.prob(d)
            elif k == "ite":
                op, a = "ite", [self.cond(d - 1), self.num(d - 1), self.num(d - 1)]
            elif k == "switch":
                op, a = "switch", []
                for _ in range(src.int(0, 3)):
                    a += [self.cond(d - 1), self.num(d - 1)]
                a.append(self.num(d - 1))
            else:
                op, a = "mean", [self.num(d - 1) for _ in range(src.int(2, 4))]
            if any(z is None for z in a):
                continue
            x = self.mk(op, a)
            if x is not None:
                return x
        return self.const()

    def cond(self, d):
        src = self.src
        for _ in range(4):
            k = src.weighted([(4, "cmp"), (2, "log"), (1, "num")])
            if k == "num":
                return self.num(d)
            op = (src.choice(["lt", "gt", "leq", "geq", "eq", "df"]) if k == "cmp"
                  else src.choice(["not", "and", "or"]))
            n = 1 if op == "not" else 2 if k == "cmp" else src.int(2, 3)
            return self.mk(op, [self.num(d - 1) if k == "cmp" else self.cond(d - 1)
                                for _ in range(n)])

    def nonzero(self, z):
        if z is not None and z.lo <= 0 <= z.hi:
            if abs(z.lo) + abs(z.hi) > 1e6:
                return self.const(0.5, 7)
            return self.mk("add", [z, self.leafv(math.ceil(-z.lo) + 0.75)])
        return z

    def leafv(self, v):
        return X.leaf("float", float(v), {"value": repr(float(v))})

    def pos(self, d):
        """A positive number."""
        src = self.src
        if d <= 0 or src.bool(0.3):
            if self.devk != "none" and src.bool(0.4):
                x = self.deviate(True)
                if x.positive():
                    return x
                return self.mk("add", [x, self.leafv(0.5)])
            return self.leafv(src.choice([1e-4, 0.001, 0.02, 0.3, 0.5, 1, 1.5, 2, 5, 10]))
        x = self.num(d - 1)
        if x is None or max(abs(x.lo), abs(x.hi)) > 1e4:
            return self.leafv(src.int(1, 50) / 10.0)
        if x.positive():
            return x
        return self.mk("add", [self.mk("abs", [x]), self.leafv(0.5)])

    def fit(self, op, d):
        """An argument for a unary operator."""
        src = self.src
        x = self.num(d)
        if x is None or not self.safe:
            return x
        if op in ("acos", "asin") and not (x.lo >= -1 and x.hi <= 1):
            return self.mk(src.choice(["cos", "sin"]), [x])
        if op in ("log", "log10", "sqrt"):
            return x if x.positive() else self.pos(d)
        if op in ("exp", "sinh", "cosh") and max(abs(x.lo), abs(x.hi)) > 20:
            return self.mk("atan", [x])
        if op == "tan" and not x.point() and src.bool():
            return self.mk("sin", [x])
        return x

    def rate(self, d):
        src = self.src
        if src.bool(0.75) or d <= 0:
            v = src.choice([1e-5, 1e-4, 4e-4, 7e-4, 1e-3, 0.01, 0.1, 1.0]) * src.int(1, 9)
            if self.devk != "none" and src.bool(0.4):
                y = self.mk("mul", [self.deviate(True), self.leafv(v)])
                return self.mk("add", [y, self.leafv(v * 0.1)])
            return self.leafv(v)
        return self.mk("mul", [self.pos(d - 1), self.leafv(0.001)])

    def time(self, d):
        src = self.src
        k = src.weighted([(3, "mission"), (3, "const"), (1, "expr")])
        if k == "mission":
            return self.mission_leaf()
        if k == "const" or d <= 0:
            return self.leafv(src.choice([0, 0.5, 1, 3.7, 10, 24, 100, 1000, 8760]))
        return self.mk("mul", [self.pos(d - 1), self.leafv(10)])

    def prob(self, d):
        """A probability."""
        src = self.src
        if d <= 0:
            if self.devk != "none" and src.bool(0.5):
                x = self.deviate(True)
                if x is not None and x.lo >= 0 and x.hi <= 1:
                    return x
            return self.const(0, 1)
        for _ in range(8):
            k = src.weighted([(3, "exponential"), (3, "GLM"), (3, "Weibull"), (4, "pt4"),
                              (5, "pt5"), (6, "pt11"), (2, "clamp"), (2, "sq"),
                              (2, "mulp"), (2, "ite"), (1, "bool"), (1, "mean"),
                              (1, "sub"), (1, "unit")])
            a = None
            if k == "exponential":
                op, a = k, [self.rate(d - 1), self.time(d - 1)]
            elif k == "GLM":
                op, a = k, [self.prob(d - 1), self.rate(d - 1), self.rate(d - 1),
                            self.time(d - 1)]
                if src.bool(0.2):
                    a[2] = self.leafv(0)
            elif k == "Weibull":
                t = src.choice([0.5, 1, 20, 300, 5000])
                op, a = k, [self.mk("mul", [self.pos(d - 1), self.leafv(t)]),
                            self.pos(0), self.time(0), self.time(d - 1)]
            elif k in ("pt4", "pt5", "pt11"):
                op = "periodic-test"
                t = self.time(d - 1)
                tau = src.choice([1, 7, 24, 120, 720, 2010, 4020]) * src.choice([1, 1, 1.37])
                tau = self.leafv(max(tau, t.v / src.choice([3.3, 20.7, 250.1])))
                theta = self.leafv(src.choice([0, 1, 5.3, 30, 500, 4740]))
                lam, mu = self.rate(d - 1), self.rate(d - 1)
                if src.bool(0.15):
                    mu = lam
                elif src.bool(0.1):
                    mu = self.leafv(0)
                if k == "pt4":
                    a = [lam, tau, theta, t]
                elif k == "pt5":
                    a = [lam, mu, tau, theta, t]
                else:
                    fr = src.choice([0.01, 0.1, 0.3, 1])
                    pi = self.leafv(tau.v * fr)
                    lt = self.leafv(0) if src.bool(0.15) else self.rate(d - 1)
                    a = [lam, lt, mu, tau, theta, self.prob(d - 2), pi,
                         X.leaf("bool", 1, {"value": "true"}) if src.bool(0.6)
                         else X.leaf("bool", 0, {"value": "false"}),
                         self.prob(d - 2), self.prob(d - 2), t]
            elif k == "clamp":
                y = self.num(d - 1)
                a = [self.leafv(1), self.mk("max", [y, self.leafv(0)])] if y else None
                op = "min"
            elif k == "sq":
                y = self.num(d - 1)
                a = [self.mk(src.choice(["sin", "cos"]), [y]),
                     X.leaf("int", 2, {"value": "2"})] if y else None
                op = "pow"
            elif k == "mulp":
                op, a = "mul", [self.prob(d - 1) for _ in range(src.int(2, 3))]
            elif k == "ite":
                op, a = "ite", [self.cond(d - 1), self.prob(d - 1), self.prob(d - 1)]
            elif k == "bool":
                return self.cond(d - 1) if src.bool() else self.const(0, 1)
            elif k == "mean":
                op, a = "mean", [self.prob(d - 1) for _ in range(src.int(2, 3))]
            elif k == "sub":
                op, a = "sub", [self.leafv(1), self.prob(d - 1)]
            else:
                return self.deviate(True) if self.devk != "none" else self.const(0, 1)
            if a is None or any(z is None for z in a):
                continue
            x = self.mk(op, a)
            if x is not None:
                return x
        return self.const(0, 1)


def is_prob(x):
    return 0 <= x.v <= 1 and x.lo >= 0 and x.hi <= 1


def model(params, basics, order=None):
    """params: named X; basics: (name, X); each basic event is a top of its own."""
    root = E("opsa-mef")
    ft = E("define-fault-tree", {"name": "ft"})
    for name, x in basics:
        ft.add(E("define-gate", {"name": "g_" + name}, E("basic-event", {"name": name})))
        ft.add(E("define-basic-event", {"name": name}, x.el()))
    root.add(ft)
    md = E("model-data")
    for p in params:
        md.add(E("define-parameter", {"name": p.name}, p.el(inline=False)))
    if params:
        root.add(md)
    return root.text()


def show(params, basics):
    return ("; ".join("%s=%s" % (p.name, p.body()) for p in params)
            + " | " + "; ".join("%s=%s" % (n, x.show()) for n, x in basics))


class C07(DrvCheck):
    id = "C07"
    rule = ("random expressions of depth up to 5 over every built-in operator, with shared "
            "parameters, the mission time and deviates, used as parameters and as "
            "basic-event probabilities; the mean (and, with deviates of width 1e-9, a "
            "sample) of each is compared with the reference value; non-trivial: the "
            "expressions use at least 3 different operators; distinct by structure")
    quick_cases = 60000
    quick_wall = 45
    thorough_cases = 3000000
    thorough_wall = 800
    assumptions = ["the reference evaluator of vlib/expr.py",
                   "ties and other discontinuities within 1e-9 are not compared"]

    def case(self, src):
        mission = src.choice([8760.0, 1.0, 100.0, 0.0, 24.5])
        narrow = src.bool(0.35)
        g = Gen(src, mission, "narrow" if narrow else src.choice(["none", "none", "all"]),
                narrow=narrow)
        depth = 1 + int(4 * src.size)
        basics, extra = [], []
        try:
            for i in range(src.int(1, 4)):
                x = g.num(src.int(0, depth))
                if x is None:
                    raise Discard("no expression")
                if x.name is None:
                    x.name = "p%d" % len(g.params)
                    g.params.append(x)
            for i in range(src.int(0, 3)):
                x = g.prob(src.int(0, depth))
                if x is not None and is_prob(x):
                    basics.append(("e%d" % i, x))
        except X.Amb as e:
            raise Discard("ambiguous: %s" % e)
        except X.Domain as e:
            raise Discard("domain: %s" % e)
        if not basics:
            basics.append(("e0", X.leaf("float", 0.5, {"value": "0.5"})))
        params = src.shuffle(g.params)
        text = model(params, basics)
        st = {"mission_time": mission, "probability": True, "seed": src.int(1, 99)}
        r = self.run_ok(text, st, dump=1, samples=1 if narrow else 0)
        d = r["dump"]
        ops = set()
        for table, xs in ((d["parameters"], [(p.name, p) for p in g.params]),
                          (d["basic_events"], basics)):
            for name, x in xs:
                for y in x.walk():
                    ops.add(y.op)
                got = table[name]
                mag = max(y.mag for y in x.walk())
                if mag > 1e5:
                    continue
                tol = 1e-9 * mag
                if not close(got["value"], x.v, 1e-9, tol):
                    self.fail("%s = %s evaluates to %r, expected %r"
                              % (name, x.body(), got["value"], x.v), sig="value " + x.op)
                if narrow and got.get("samples") is not None:
                    s = got["samples"][0]
                    if well(x) and not close(s, x.v, 1e-4, 1e-4 * mag):
                        self.fail("%s = %s samples to %r with degenerate deviates, mean %r"
                                  % (name, x.body(), s, x.v), sig="sample " + x.op)
        res = {z["gate"]: z["p"] for z in r["run"]["results"]}
        for name, x in basics:
            mag = max(y.mag for y in x.walk())
            if mag > 1e5:
                continue
            if not close(res["g_" + name], x.v, 1e-9, 1e-9 * mag):
                self.fail("the probability of %s = %s is reported as %r, expected %r"
                          % (name, x.body(), res["g_" + name], x.v), sig="reported")
        key = show(g.params, basics) if len(ops - {"float", "int", "bool"}) >= 3 else None
        return Result(key, key and key[:600] + " -> " + str(
            [(n, x.v) for n, x in basics])[:200], tags=sorted(ops))


def well(x):
    """Well conditioned enough for the comparison of a sample."""
    for y in x.walk():
        if y.soft and y.op in ("div", "pow", "tan", "log", "log10", "acos", "asin",
                               "exp", "sinh", "cosh", "sqrt", "Weibull", "mod"):
            a = y.args
            if y.op in ("acos", "asin") and abs(a[0].v) > 0.99:
                return False
            if y.op in ("log", "log10", "sqrt") and a[0].v < 1e-3:
                return False
            if y.op == "div" and any(abs(b.v) < 1e-2 for b in a[1:]):
                return False
            if y.op == "tan" and abs(y.v) > 100:
                return False
            if y.op == "pow" and (abs(a[0].v) < 1e-2 or abs(y.v) > 1e4):
                return False
            if y.op in ("exp", "sinh", "cosh") and abs(y.v) > 1e4:
                return False
            if y.op == "Weibull":
                t = a[3].v - a[2].v
                if abs(t) < 1e-2 * a[0].v or a[1].v < 0.05:
                    return False
    return True


NONPOS = "non-positive"
NEG = "negative"
NOTP = "not a probability"
VIOL = [
    ("exponential", 2, {0: NEG, 1: NEG}),
    ("GLM", 4, {0: NOTP, 1: NONPOS, 2: NEG, 3: NEG}),
    ("Weibull", 4, {0: NONPOS, 1: NONPOS, 2: NEG, 3: NEG}),
    ("periodic-test", 4, {0: NONPOS, 1: NONPOS, 2: NEG, 3: NEG}),
    ("periodic-test", 5, {0: NONPOS, 1: NEG, 2: NONPOS, 3: NEG, 4: NEG}),
    ("periodic-test", 11, {0: NONPOS, 1: NEG, 2: NEG, 3: NONPOS, 4: NEG, 5: NOTP,
                           6: NONPOS, 8: NOTP, 9: NOTP, 10: NEG}),
    ("log", 1, {0: NONPOS}), ("log10", 1, {0: NONPOS}), ("sqrt", 1, {0: NEG}),
    ("acos", 1, {0: "cos"}), ("asin", 1, {0: "cos"}),
    ("div", 2, {1: "zero"}), ("div", 3, {1: "zero", 2: "zero"}),
    ("mod", 2, {1: "zeroish"}),
    ("normal-deviate", 2, {1: NONPOS}),
    ("lognormal-deviate", 3, {0: NONPOS, 1: "ef", 2: "level"}),
    ("lognormal-deviate", 2, {1: NONPOS}),
    ("gamma-deviate", 2, {0: NONPOS, 1: NONPOS}),
    ("beta-deviate", 2, {0: NONPOS, 1: NONPOS}),
]
# Arguments within the domains of all the above.
OK = {("exponential", 2): [0.001, 10], ("GLM", 4): [0.1, 0.01, 0.02, 10],
      ("Weibull", 4): [100, 2, 1, 50], ("periodic-test", 4): [0.001, 24, 2, 100],
      ("periodic-test", 5): [0.001, 0.1, 24, 2, 100],
      ("periodic-test", 11): [0.001, 0.002, 0.1, 24, 2, 0.1, 3, 1, 0.9, 0.05, 100],
      ("log", 1): [1], ("log10", 1): [1], ("sqrt", 1): [1], ("acos", 1): [0],
      ("asin", 1): [0], ("div", 2): [1, 2], ("div", 3): [1, 2, 3], ("mod", 2): [7, 3],
      ("normal-deviate", 2): [0.5, 0.01], ("lognormal-deviate", 3): [0.1, 3, 0.95],
      ("lognormal-deviate", 2): [-5, 0.3], ("gamma-deviate", 2): [2, 0.01],
      ("beta-deviate", 2): [2, 5]}


class Raw:
    """An expression for the model text only."""

    dev = soft = False
    bounded = True
    name = None

    def __init__(self, op, args=(), attrs=None):
        self.op, self.args, self.attrs = op, list(args), attrs or {}

    el = X.X.el
    show = X.X.show
    body = X.X.body


def rawf(v):
    return Raw("float", (), {"value": repr(float(v)) if not isinstance(v, str) else v})


def uniform(a, b):
    return Raw("uniform-deviate", [rawf(a), rawf(b)])


def bad_arg(src, what, dist):
    """An argument that breaks the domain by its mean or by its sampling range."""
    ranged = src.bool(0.45) and not dist
    e = src.choice([1e-6, 0.01, 0.5, 3.0])
    if what == NONPOS:
        return uniform(-e, 5) if ranged else rawf(src.choice([0.0, -e]))
    if what == NEG:
        return uniform(-e, 5) if ranged else rawf(-e)
    if what == NOTP:
        if ranged:
            return uniform(0.2, 1 + e) if src.bool() else uniform(-min(e, 0.1), 0.5)
        return rawf(src.choice([-e, 1 + e]))
    if what == "cos":
        if ranged:
            return uniform(-0.5, 1 + e) if src.bool() else uniform(-1 - e, 0.2)
        return rawf(src.choice([-1 - e, 1 + e]))
    if what == "zero":
        k = src.int(0, 2)
        if ranged:
            return [uniform(-e, 1.1), uniform(-4, e), uniform(0, 1)][k]
        return rawf(0.0)
    if what == "zeroish":
        return uniform(-1.5, 4) if ranged else rawf(src.choice([0, 0.5, -0.9]))
    if what == "ef":
        return rawf(src.choice([1.0, 0.5, 0.0, -2.0]))
    if what == "level":
        return rawf(src.choice([0.0, 1.0, 1.5, -0.5, 0.5, 0.3]))
    raise ValueError(what)


def bad_expression(src):
    """An expression out of its domain, and what is wrong."""
    k = src.weighted([(12, "table"), (2, "pow"), (1, "uniform"), (2, "histogram"),
                      (1, "duration"), (1, "units")])
    if k == "table":
        op, n, viol = src.choice(VIOL)
        i = src.choice(sorted(viol))
        args = [rawf(v) for v in OK[(op, n)]]
        args[i] = bad_arg(src, viol[i], op.endswith("deviate"))
        return Raw(op, args), "argument %d of %s" % (i, op)
    if k == "pow":
        a = src.choice([
            [rawf(0), rawf(0)], [rawf(0), rawf(-1)], [rawf(-2), rawf(0.5)],
            [uniform(-1, 2), rawf(-1)], [uniform(-1, 2), rawf(0)],
            [uniform(-3, -1), rawf(1.5)], [uniform(0, 1), uniform(-1, 2)],
            [uniform(-2, -1), uniform(1, 2)], [rawf(-1.5), rawf(-0.25)],
            [uniform(0, 1), rawf(-2)]])
        return Raw("pow", a), "pow"
    if k == "uniform":
        return uniform(*src.choice([(1, 1), (2, 1), (0, -1)])), "uniform bounds"
    if k == "histogram":
        b = src.choice([([0, 1, 2], [1, -1]), ([0, 1, 2], [0, 0]), ([0, 2, 1], [1, 1]),
                        ([0, 1, 1], [1, 1]), ([0, 0, 1], [1, 1]), ([1, 0], [1]),
                        ([0, 1], [0]), ([0, 1], [-1])])
        return Raw("histogram", [rawf(v) for v in b[0] + b[1]]), "histogram"
    if k == "duration":
        v = list(OK[("periodic-test", 11)])
        a = [rawf(z) for z in v]
        a[6] = rawf(24.5) if src.bool() else uniform(20, 27)
        return Raw("periodic-test", a), "test duration"
    inf = src.choice(["NaN", "INF", "-INF"])
    op, n, viol = src.choice(VIOL[:6])
    args = [rawf(v) for v in OK[(op, n)]]
    i = src.choice(sorted(i for i in viol if viol[i] == NOTP or inf != "INF"))\
        if any(viol[i] == NOTP or inf != "INF" for i in viol) else None
    if i is None:
        return Raw("sqrt", [rawf("NaN")]), "NaN"
    args[i] = rawf(inf)
    return Raw(op, args), "argument %d of %s is %s" % (i, op, inf)


class C08(DrvCheck):
    id = "C08"
    rule = ("either one out-of-domain expression (by mean or by sampling range) at a random "
            "place of a valid random model, which must be rejected, or random expressions "
            "over deviates: accepted if all the ranges are within the domains, and if "
            "accepted every derived interval contains the mean and, for bounded "
            "distributions, 40 samples, all finite; non-trivial: a violation or at least "
            "one deviate; distinct by model")
    quick_cases = 60000
    quick_wall = 45
    thorough_cases = 3000000
    thorough_wall = 800
    assumptions = ["the domains and ranges of vlib/expr.py"]

    def case(self, src):
        return self.violation(src) if src.bool(0.45) else self.contain(src)

    def violation(self, src):
        g = Gen(src, 8760.0, src.choice(["none", "bounded"]))
        try:
            ok = [g.num(src.int(0, 2)) for _ in range(src.int(0, 2))]
            base = g.prob(1)
        except (X.Amb, X.Domain) as e:
            raise Discard(str(e))
        if base is None or not is_prob(base):
            base = g.const(0, 1)
        params = [p for p in g.params]
        basics = [("e0", base)]
        if src.bool(0.2):
            e = src.choice([1e-9, 0.01, 1.0])
            bad = src.choice([lambda: rawf(1 + e), lambda: rawf(-e), lambda: rawf("NaN"),
                              lambda: uniform(0.5, 1 + e), lambda: uniform(-e, 0.9),
                              lambda: rawf("INF")])()
            why = "basic-event probability"
            if src.bool(0.5):
                bad.name = "pbad"
                params.append(bad)
            basics.append(("ebad", bad))
        else:
            bad, why = bad_expression(src)
            top = bad
            for _ in range(src.int(0, 3)):
                if src.bool(0.3):
                    top.name = "pb%d" % len(params)
                    params.append(top)
                op = src.choice(["add", "max", "ite", "neg", "mul", "min", "switch", "cos"])
                z = rawf(0.5)
                top = Raw(op, {"ite": [z, z, top], "neg": [top], "cos": [top],
                               "switch": [z, top, z]}.get(op, [z, top]))
            k = src.weighted([(3, "param"), (2, "basic"), (1, "unused")])
            if k == "basic":
                # Clamped into the range of probabilities.
                basics.append(("ebad", Raw("min", [rawf(1), Raw("max", [top, rawf(0)])])))
            else:
                top.name = "pbad"
                params.append(top)
                if k == "param":
                    basics.append(("ebad", Raw("min", [rawf(1), Raw("max", [top, rawf(0)])])))
        text = model(src.shuffle(params), src.shuffle(basics))
        r = self.load(text, {"probability": True}, timeout=20)
        if "error" not in r:
            self.fail("accepted although %s is out of the domain: %s"
                      % (why, show(params, basics)), sig="accepted " + why)
        if r.get("kind") != "user":
            self.fail("rejected with an internal error (%s) for %s"
                      % (r["error"], why), sig="kind " + why)
        key = show(params, basics)
        return Result(key, "rejected (%s): %s" % (why, key[:300]), tags=["violation", why])

    def contain(self, src):
        safe = src.bool(0.5)
        g = Gen(src, src.choice([8760.0, 10.0]), src.choice(["bounded", "bounded", "all"]),
                safe=safe)
        g.name_p = 0.4
        depth = 1 + int(3 * src.size)
        basics = []
        try:
            for _ in range(src.int(1, 3)):
                x = g.num(src.int(1, depth))
                if x is None:
                    raise Discard("no expression")
                if x.name is None:
                    x.name = "p%d" % len(g.params)
                    g.params.append(x)
            for i in range(src.int(0, 2)):
                x = g.prob(src.int(0, depth))
                if x is not None and (is_prob(x) if safe else 0 <= x.v <= 1):
                    basics.append(("e%d" % i, x))
        except X.Amb as e:
            raise Discard("ambiguous: %s" % e)
        except X.Domain as e:
            raise Discard("domain: %s" % e)
        text = model(g.params, basics)
        st = {"mission_time": g.mission, "probability": True, "seed": src.int(1, 999)}
        r = self.load(text, st, dump=1, samples=40)
        if "error" in r:
            if safe:
                self.fail("rejected although every range is within the domains: %s: %s: %s"
                          % (r["error"], r.get("what"), show(g.params, basics)),
                          sig="rejected " + r["error"])
            return Result(None, tags=["rejected"])
        d = r["dump"]
        ndev = 0
        for table, xs in ((d["parameters"], [(p.name, p) for p in g.params]),
                          (d["basic_events"], basics)):
            for name, x in xs:
                mag = max(y.mag for y in x.walk())
                if mag > 1e6:
                    continue
                e = table[name]
                lo, hi = float(e["interval"][0]), float(e["interval"][1])
                tol = 1e-9 * mag
                ndev += x.dev
                if not lo - tol <= float(e["value"]) <= hi + tol:
                    self.fail("the interval [%r, %r] of %s = %s does not contain the mean %r"
                              % (lo, hi, name, x.body(), e["value"]), sig="mean " + x.op)
                for s in e.get("samples") or []:
                    s = float(s)
                    if s != s or (abs(s) == X.INF and x.bounded):
                        self.fail("%s = %s samples to %r" % (name, x.body(), s),
                                  sig="nan " + x.op)
                    if x.bounded and not lo - tol <= s <= hi + tol:
                        self.fail("the interval [%r, %r] of %s = %s does not contain the "
                                  "sample %r" % (lo, hi, name, x.body(), s),
                                  sig="sample " + x.op)
        key = show(g.params, basics) if ndev else None
        return Result(key, key and "accepted: " + key[:400],
                      tags=["accepted", "safe" if safe else "unsafe"])
