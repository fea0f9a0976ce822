"""C09 uncertainty analysis."""
import itertools
import math
import os
import xml.etree.ElementTree as ET

import numpy as np

from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Discard, Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c01 import literal_set
from .c06 import Group, expand, gen_factors, gen_plain


def fl(v):
    return E("float", {"value": repr(float(v))})


class Dev:
    """A random deviate with its distribution."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def xml(self):
        a = self.args
        if self.kind == "histogram":
            b, w = a
            return E("histogram", {}, fl(b[0]),
                     *[E("bin", {}, fl(x), fl(y)) for x, y in zip(b[1:], w)])
        return E(self.kind, {}, *[fl(x) for x in a])

    def lognormal(self):
        from scipy import stats
        a = self.args
        if len(a) == 2:
            return a
        s = math.log(a[1]) / stats.norm.ppf(a[2])
        return math.log(a[0]) - s * s / 2, s

    def frozen(self):
        from scipy import stats
        a = self.args
        k = self.kind
        if k == "uniform-deviate":
            return stats.uniform(a[0], a[1] - a[0])
        if k == "normal-deviate":
            return stats.norm(a[0], a[1])
        if k == "lognormal-deviate":
            mu, s = self.lognormal()
            return stats.lognorm(s, scale=math.exp(mu))
        if k == "gamma-deviate":
            return stats.gamma(a[0], scale=a[1])
        if k == "beta-deviate":
            return stats.beta(a[0], a[1])

    def mean(self):
        a = self.args
        k = self.kind
        if k == "histogram":
            b, w = a
            return sum((p + q) / 2 * v for p, q, v in zip(b, b[1:], w)) / sum(w)
        if k == "lognormal-deviate":
            mu, s = self.lognormal()
            return math.exp(mu + s * s / 2)
        return {"uniform-deviate": lambda: (a[0] + a[1]) / 2,
                "normal-deviate": lambda: a[0],
                "gamma-deviate": lambda: a[0] * a[1],
                "beta-deviate": lambda: a[0] / (a[0] + a[1])}[k]()

    def cdf(self, x):
        if self.kind == "histogram":
            b, w = self.args
            c = np.concatenate([[0.0], np.cumsum(w)]) / sum(w)
            return np.interp(x, b, c)
        return self.frozen().cdf(x)

    def sample(self, rng, n):
        a = self.args
        k = self.kind
        if k == "uniform-deviate":
            return rng.uniform(a[0], a[1], n)
        if k == "normal-deviate":
            return rng.normal(a[0], a[1], n)
        if k == "lognormal-deviate":
            mu, s = self.lognormal()
            return rng.lognormal(mu, s, n)
        if k == "gamma-deviate":
            return rng.gamma(a[0], a[1], n)
        if k == "beta-deviate":
            return rng.beta(a[0], a[1], n)
        b, w = self.args
        i = rng.choice(len(w), n, p=np.array(w) / sum(w))
        b = np.array(b)
        return rng.uniform(b[i], b[i + 1])

    def show(self):
        return "%s%s" % (self.kind, tuple(self.args))


def gen_dev(src, kinds=None):
    """A deviate whose range the tool takes for a probability."""
    k = src.choice(kinds or ["uniform-deviate", "beta-deviate", "histogram",
                             "normal-deviate", "lognormal-deviate",
                             "gamma-deviate"])
    if k == "uniform-deviate":
        a, b = sorted((src.int(0, 100), src.int(0, 100)))
        if a == b:
            a, b = (a - 1, b) if b else (0, 1)
        return Dev(k, (a / 100, b / 100))
    if k == "normal-deviate":
        return Dev(k, (src.int(30, 70) / 100, src.int(1, 4) / 100))
    if k == "lognormal-deviate":
        if src.bool():
            d = Dev(k, (src.int(1, 50) / 1000, 1 + src.int(1, 60) / 10,
                        src.choice([0.9, 0.95, 0.75, 0.99])))
        else:
            d = Dev(k, (-src.int(15, 80) / 10, src.int(1, 20) / 10))
        mu, s = d.lognormal()
        if mu + 3 * s > -0.05 or mu + s * s / 2 > -0.05:
            return Dev("uniform-deviate", (0.125, 0.25))
        return d
    if k == "gamma-deviate":
        d = Dev(k, (src.int(1, 80) / 10, src.int(1, 50) / 1000))
        if d.frozen().ppf(1 - 1e-3) > 0.9:
            return Dev(k, (2.0, 0.05))
        return d
    if k == "beta-deviate":
        return Dev(k, (src.int(1, 90) / 10, src.int(1, 90) / 10))
    n = src.int(1, 4)
    b = sorted({src.int(0, 100) for _ in range(n + 1)})
    while len(b) < 2:
        b.append(b[-1] + 1)
    w = [src.int(0, 8) for _ in b[1:]]
    if not sum(w):
        w[0] = 1
    return Dev("histogram", ([x / 101 for x in b], [float(x) for x in w]))


class Ev:
    """The expression of a basic event over deviates (by number)."""

    def __init__(self, op, devs=(), c=None):
        self.op, self.devs, self.c = op, list(devs), c

    def value(self, d):
        """d: the values of the deviates (arrays or floats)."""
        x = [d[i] for i in self.devs]
        c = self.c
        return {"const": lambda: c,
                "dev": lambda: x[0],
                "scale": lambda: x[0] * c,
                "not": lambda: 1 - x[0],
                "avg": lambda: (x[0] + x[1]) / 2,
                "prod": lambda: x[0] * x[1],
                "min": lambda: np.minimum(x[0], c),
                "exp": lambda: 1 - np.exp(-x[0] * c),
                "less": lambda: np.where(np.asarray(x[0]) < c, 0.75, 0.25),
                }[self.op]()

    def xml(self, refs):
        x = [refs[i] for i in self.devs]
        c = self.c
        if self.op == "const":
            return fl(c)
        if self.op == "dev":
            return x[0]()
        if self.op == "scale":
            return E("mul", {}, x[0](), fl(c))
        if self.op == "not":
            return E("sub", {}, fl(1), x[0]())
        if self.op == "avg":
            return E("mean", {}, x[0](), x[1]())
        if self.op == "prod":
            return E("mul", {}, x[0](), x[1]())
        if self.op == "min":
            return E("min", {}, x[0](), fl(c))
        if self.op == "exp":
            return E("exponential", {}, x[0](), fl(c))
        return E("ite", {}, E("lt", {}, x[0](), fl(c)), fl(0.75), fl(0.25))

    def show(self):
        return "%s(%s%s)" % (self.op, ",".join("d%d" % i for i in self.devs),
                             "" if self.c is None else ";%r" % self.c)


def prob(f, probs):
    """boolref.probability for arrays of event probabilities."""
    return B.probability(f, probs)


def arr_approx(ap, pps, n):
    if ap == "rare-event":
        return np.minimum(1.0, sum(pps, np.zeros(n)))
    m = np.ones(n)
    for q in pps:
        m = m * (1 - q)
    return 1 - m


class C09(DrvCheck):
    id = "C09"
    rule = ("random fault trees whose basic events are constants or "
            "expressions over 0..4 random deviates (own or shared "
            "parameters), or members of a CCF group with an uncertain "
            "distribution, x algorithm x approximation x seed, numbers of "
            "trials, quantiles and bins; every trial reproduced from the "
            "seed where the order of draws leaves at most 24 possibilities, "
            "an independent Monte Carlo otherwise; and goodness-of-fit of "
            "each deviate; non-trivial: the sampled top probability has "
            "spread and at least 10 trials; distinct by model and settings")
    quick_cases = 5000
    quick_wall = 45
    thorough_cases = 400000
    thorough_wall = 800
    assumptions = ["numpy and scipy distributions",
                   "the draws of one trial are made event by event"]

    def case(self, src):
        kind = src.weighted([(10, "exact"), (3, "fit"), (3, "monte"), (3, "ccf"),
                             (1, "constant")])
        if kind == "fit":
            return self.fit(src)
        ndev = {"exact": src.weighted([(4, 1), (3, 2), (2, 3)]), "monte": src.int(2, 4),
                "ccf": 1, "constant": 0}[kind]
        devs = [gen_dev(src) for _ in range(ndev)]
        nb = 6 if kind == "ccf" else 8
        ft = gen_ft(src, max_basic=nb, max_gates=9,
                    coherent=True if src.bool(0.5) else None)
        mission = src.choice([8760.0, 10.0])
        evs = {}
        budget = 99 if ndev == 1 else 4 if kind == "exact" else 99
        for b in ft.basics:
            op = src.weighted([(3, "const"), (4, "dev"), (2, "scale"), (1, "not"),
                               (1, "avg"), (1, "prod"), (1, "min"), (1, "exp"),
                               (1, "less")])
            if not ndev or not budget or op == "const":
                evs[b] = Ev("const", (), src.int(0, 100) / 100.0)
                continue
            budget -= 1
            ds = [src.draw(ndev)]
            if op in ("avg", "prod"):
                ds.append(src.draw(ndev))
            c = {"scale": lambda: src.int(1, 9) / 10.0,
                 "min": lambda: src.int(1, 9) / 10.0,
                 "exp": lambda: src.choice([0.5, 3.0]),
                 "less": lambda: round(devs[ds[0]].mean(), 3)}.get(op, lambda: None)()
            evs[b] = Ev(op, ds, c)
        shared = [True] * ndev
        uses = [sum(e.devs.count(i) for e in evs.values()) for i in range(ndev)]
        for i in range(ndev):
            if uses[i] <= 1:
                shared[i] = src.bool()
        groups = []
        if kind == "ccf" and len(ft.basics) >= 2:
            mem = src.sample(list(ft.basics), src.int(2, min(4, len(ft.basics))))
            model = src.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])
            g = Group("ccf0", model, mem, ("const", 0.5),
                      gen_factors(src, model, len(mem)))
            if g.levels() is None:
                g.factors = gen_plain(model, len(mem), [v for _, v in sorted(
                    (k or 0, v) for k, v in g.factors)])
            groups.append(g)
            for m in mem:
                evs[m] = Ev("dev", [0])
        text = self.xml(src, ft, evs, devs, shared, groups).text()
        limit = src.weighted([(4, 20), (1, src.int(1, 4))])
        mode = src.weighted([(4, "none"), (2, "rare-event"), (2, "mcub")])
        alg = src.choice(["bdd", "zbdd", "mocus"])
        n = src.weighted([(6, src.int(10, 300)), (1, src.int(1, 9)), (2, 1000)])
        if kind == "monte":
            n = src.choice([2000, 4000])
        if kind == "constant":
            n = src.int(1, 60)
        nq = src.weighted([(3, 20), (2, src.int(1, 60)), (1, src.int(1, 4))])
        nbin = src.weighted([(3, 20), (2, src.int(1, 60)), (1, src.int(1, 3))])
        seed = src.int(0, 100000)
        st = {"algorithm": alg, "approximation": mode, "limit_order": limit,
              "uncertainty": True, "probability": True, "num_trials": n,
              "num_quantiles": nq, "num_bins": nbin, "seed": seed,
              "mission_time": mission, "ccf": bool(groups)}
        if src.bool(0.15):
            st["time_step"] = mission / src.int(1, 4)
        if src.bool(0.2):
            st["importance"] = True
        kw = {}
        rep = src.bool(0.1)
        if rep:
            kw["report"] = self.drv.scratch.path("report.xml")
        if n <= 300 and src.bool(0.4):
            kw["repeat"] = "2"
        r = self.run_ok(text, st, **kw)
        desc = "%s; %s; %s; %s" % (
            show(ft), " ".join("%s=%s" % (b, e.show()) for b, e in evs.items()),
            " ".join("d%d=%s" % (i, d.show()) for i, d in enumerate(devs)),
            [(g.model, g.members, g.factors) for g in groups])
        results = {x["gate"]: x for x in r["run"]["results"]}
        if set(results) != set(ft.tops()):
            self.fail("tops %s in %s" % (sorted(results), desc), sig="tops")
        if "again" in r:
            again = {x["gate"]: x for x in r["again"]["results"]}
            for t in results:
                a, b = results[t]["unc"], again[t]["unc"]
                if not all(close(p, q, 1e-7, 1e-13) for k in ("mean", "sigma")
                           for p, q in [(a[k], b[k])]) or not all(
                               close(p, q, 1e-7, 1e-13)
                               for p, q in zip(a["quant"], b["quant"])):
                    self.fail("the same seed gives mean %r, then %r for %s in %s" % (
                        results[t]["unc"]["mean"], again[t]["unc"]["mean"], t,
                        desc), sig="repeat")
        spread = False
        for t, x in results.items():
            self.summary(x["unc"], st, "%s in %s %s" % (t, desc, st))
            spread = spread or x["unc"]["sigma"] > 0
        if rep:
            self.report(kw["report"], results, st, desc)
        how = "sums"
        if kind in ("exact", "constant", "ccf") and len(results) == 1:
            t, x = next(iter(results.items()))
            how = self.exact(text, st, ft, evs, groups, t, x, devs, desc)
        elif kind in ("monte", "exact", "ccf"):
            for t, x in results.items():
                self.monte(st, ft, evs, devs, groups, t, x, desc, src)
            how = "monte"
        return Result((desc, str(st)) if spread and n >= 10 else None,
                      {"model": desc, "settings": st,
                       "unc": {t: [x["unc"]["mean"], x["unc"]["sigma"]]
                               for t, x in results.items()}},
                      tags=[kind, how, alg, mode])

    # -- model -------------------------------------------------------------
    def xml(self, src, ft, evs, devs, shared, groups):
        root = E("opsa-mef")
        t = E("define-fault-tree", {"name": "ft"})
        mem = {m for g in groups for m in g.members}
        for g, f in ft.gates.items():
            t.add(E("define-gate", {"name": g}, ft.formula_xml(f)))
        for h, v in ft.houses.items():
            t.add(E("define-house-event", {"name": h},
                    E("constant", {"value": "true" if v else "false"})))
        data = E("model-data")
        refs = [(lambda i=i: E("parameter", {"name": "d%d" % i})) if shared[i]
                else (lambda i=i: devs[i].xml()) for i in range(len(devs))]
        for b, e in evs.items():
            if b not in mem:
                (t if src.bool() else data).add(
                    E("define-basic-event", {"name": b}, e.xml(refs)))
        for i, d in enumerate(devs):
            if shared[i]:
                data.add(E("define-parameter", {"name": "d%d" % i}, d.xml()))
        for g in groups:
            x = g.xml()
            for k in x.walk():
                if k.tag == "distribution":
                    k.kids = [refs[0]()]
            t.add(x)
        root.add(t)
        if data.kids:
            root.add(data)
        return root

    def trials(self, st, ft, evs, groups, top, x, event_values, n):
        """Top probabilities per trial from per-event sample arrays."""
        ref = ft
        if groups:
            g = groups[0]
            q = event_values[g.members[0]]
            g2 = Group(g.name, g.model, g.members, ("const", 1.0), g.factors)
            ref = expand(ft, [g2], 1.0)
            vals = {}
            for b, p in ref.basics.items():
                vals[b] = p * q if b.startswith("[") else event_values[b]
        else:
            vals = event_values
        names, tables = ref.tables()
        ps = [np.clip(np.broadcast_to(vals[b], n).astype(float), 0, 1)
              for b in names]
        if st["approximation"] == "none":
            y = prob(tables[top], ps)
        else:
            by = dict(zip(names, ps))
            pps = []
            for p in x["products"]:
                q = np.ones(n)
                for e, pos in literal_set(p):
                    q = q * (by[e] if pos else 1 - by[e])
                pps.append(q)
            y = arr_approx(st["approximation"], pps, n)
        return np.broadcast_to(y, n).astype(float)

    # -- oracles -----------------------------------------------------------
    def summary(self, u, st, where):
        """What holds for any sample."""
        n = st["num_trials"]
        q, h = u["quant"], u["hist"]
        vals = [u["mean"], u["sigma"], u["ef"]] + u["ci"] + q + [z for p in h for z in p]
        if not all(isinstance(v, (int, float)) and math.isfinite(v) for v in vals):
            self.fail("undefined statistics %s for %s" % (u, where), sig="nan")
        if len(q) != st["num_quantiles"]:
            self.fail("%d quantiles for %s" % (len(q), where), sig="nq")
        e = 1e-12
        if any(b < a - e for a, b in zip(q, q[1:])):
            self.fail("decreasing quantiles %s for %s" % (q, where), sig="quant order")
        if q[0] < -e or q[-1] > 1 + e or not -e <= u["mean"] <= 1 + e:
            self.fail("quantiles or mean outside [0,1] for %s" % where, sig="range")
        if len(h) != st["num_bins"] + 1:
            self.fail("%d bins for %s" % (len(h) - 1, where), sig="bins")
        if any(w < 0 for _, w in h):
            self.fail("negative weight in %s for %s" % (h, where), sig="weight<0")
        # The last entry is the upper bound of the last bin.
        tot = math.fsum(w for _, w in h[:-1])
        if abs(tot - 1) > 1e-9:
            self.fail("the histogram weights sum to %r for %s" % (tot, where),
                      sig="hist sum")
        if any(b[0] < a[0] for a, b in zip(h, h[1:])):
            self.fail("bins out of order for %s" % where, sig="bin order")
        if not (q[0] >= h[0][0] - e and q[-1] <= h[-1][0] + e):
            self.fail("quantiles outside of the sampled range for %s" % where,
                      sig="range")
        s = u["sigma"]
        z = 1.96
        if s < 0 or not close(u["ef"], math.exp(z * s), 1e-9) or \
                not close(u["ci"][0], u["mean"] - z * s / math.sqrt(n), 1e-9, 1e-15) or \
                not close(u["ci"][1], u["mean"] + z * s / math.sqrt(n), 1e-9, 1e-15):
            self.fail("inconsistent mean, sigma, range or factor %s for %s"
                      % (u, where), sig="derived")

    def differs(self, u, y, st):
        """Why the summary is not that of the sample y, or None."""
        n = len(y)
        # (mean square) - (mean)^2 loses up to half of the digits.
        if not close(u["mean"], float(np.mean(y)), 1e-9, 1e-13):
            return "mean", float(np.mean(y)), u["mean"]
        s = float(np.std(y, ddof=1)) if n > 1 else 0.0
        tol = 3e-7 * (abs(float(np.mean(y))) + 1e-12)
        if not close(u["sigma"], s, 1e-6, tol):
            return "sigma", s, u["sigma"]
        ys = np.sort(y)
        e = 1e-9 * max(1e-6, float(ys[-1]))
        nq = len(u["quant"])
        for i, g in enumerate(u["quant"]):
            k = (i + 1) * n / nq
            lo = ys[max(0, int(math.ceil(k - 1e-6)) - 1)]
            hi = ys[min(n - 1, int(math.floor(k + 1e-6)))]
            if not lo - e <= g <= hi + e:
                return "quantile %d/%d" % (i + 1, nq), (float(lo), float(hi)), g
        h = u["hist"]
        if not close(h[0][0], float(ys[0]), 1e-9, 1e-13) or \
                not close(h[-1][0], float(ys[-1]), 1e-9, 1e-12):
            return "histogram range", (float(ys[0]), float(ys[-1])), (h[0][0], h[-1][0])
        w = (ys[-1] - ys[0]) / (len(h) - 1)
        for i, (b, v) in enumerate(h[:-1]):
            if not close(b, float(ys[0] + i * w), 1e-9, 1e-12):
                return "bound of bin %d" % (i + 1), float(ys[0] + i * w), b
        if w > 1e-9 * abs(ys[-1]):
            # Cumulative counts, with slack for values at a bound.
            c = 0.0
            for i, (b, v) in enumerate(h[:-1]):
                c += v
                up = h[i + 1][0]
                d = 1e-9 * max(abs(up), 1e-6)
                lo = np.count_nonzero(ys < up - d) / n
                hi = np.count_nonzero(ys <= up + d) / n
                if not lo - 1e-9 <= c <= hi + 1e-9:
                    return "weight up to bin %d" % (i + 1), (lo, hi), c
        return None

    def exact(self, text, st, ft, evs, groups, top, x, devs, desc):
        """Reproduces the trials from the seed."""
        n = st["num_trials"]
        reach = ft.reachable_basics(top)
        mem = {m for g in groups for m in g.members}
        rnd = [b for b in reach if evs[b].op != "const"]
        one = len({i for b in rnd for i in evs[b].devs}) <= 1
        if len(rnd) > 4 and not one:
            return "skipped"
        if not rnd:
            y = self.trials(st, ft, evs, groups, top, x,
                            {b: e.value([]) for b, e in evs.items()
                             if e.op == "const"} |
                            {b: 0.5 for b, e in evs.items() if e.op != "const"}, n)
            d = self.differs(x["unc"], y, st)
            if d:
                self.fail("constant model: %s is %r, expected %r in %s %s"
                          % (d[0], d[2], d[1], desc, st), sig="constant " + d[0].split()[0])
            return "constant"
        orders = [rnd] if one else [list(p) for p in itertools.permutations(rnd)]
        if one and evs[rnd[0]].op == "less":
            pass
        r = self.drv.request(
            [("file", self.drv.scratch.path("m.xml")), ("set", "seed:%d" % st["seed"]),
             ("set", "ccf:%d" % bool(groups)),
             ("set", "mission_time:%r" % st["mission_time"]), ("set", "probability:1"),
             ("joint", str(n)), ("analyze", "0")]
            + [("order", " ".join(o)) for o in orders], 30)
        if "joint" not in r:
            raise Discard("joint")
        best = None
        for o, m in zip(orders, r["joint"]):
            m = np.array(m, dtype=float).reshape(n, len(o))
            vals = {b: e.value([]) if e.op == "const" else 0.5
                    for b, e in evs.items()}
            for i, b in enumerate(o):
                vals[b] = m[:, i]
            if groups and not any(b in mem for b in o):
                vals[groups[0].members[0]] = 0.5
            for g in groups:
                k = [b for b in o if b in mem]
                if k:
                    vals[g.members[0]] = vals[k[0]]
            y = self.trials(st, ft, evs, groups, top, x, vals, n)
            d = self.differs(x["unc"], y, st)
            if d is None:
                return "exact"
            best = best or d
        self.fail("the trials of seed %d give %s %r, reported %r in %s %s" % (
            st["seed"], best[0], best[1], best[2], desc, st),
            sig="trials " + best[0].split()[0])

    def monte(self, st, ft, evs, devs, groups, top, x, desc, src):
        """Compares with an independent Monte Carlo."""
        n, N = st["num_trials"], 40000
        if n < 50:
            return
        rng = np.random.default_rng(12345 + src.draw(1000))
        d = [v.sample(rng, N) for v in devs]
        vals = {b: e.value(d) for b, e in evs.items()}
        y = self.trials(st, ft, evs, groups, top, x, vals, N)
        u = x["unc"]
        m, s = float(np.mean(y)), float(np.std(y))
        k4 = float(np.mean((y - m) ** 4))
        # Heavy tails may hide from a sample; take the larger deviation.
        sd = max(s, u["sigma"])
        tol = 7 * sd * math.sqrt(1 / n + 1 / N) + 1e-12
        if abs(m - u["mean"]) > tol:
            self.fail("mean of %s is %r, an independent simulation gives %r "
                      "+- %r in %s %s" % (top, u["mean"], m, tol / 7, desc, st),
                      sig="monte mean")
        # Standard error of the variance, only for light tails.
        if n >= 1000 and s > 1e-9 and k4 < 12 * s ** 4:
            se = math.sqrt(max(k4 - s ** 4, 0.1 * s ** 4) * (1 / n + 1 / N))
            if abs(u["sigma"] ** 2 - s * s) > 9 * se + 1e-14:
                self.fail("sigma of %s is %r, an independent simulation gives "
                          "%r in %s %s" % (top, u["sigma"], s, desc, st),
                          sig="monte sigma")

    def report(self, path, results, st, desc):
        for me in ET.parse(path).iter("measure"):
            u = results[me.get("name")]["unc"]
            qs = me.findall("quantiles/quantile")
            bins = me.findall("histogram/bin")
            if len(qs) != st["num_quantiles"] or len(bins) != st["num_bins"]:
                self.fail("report with %d quantiles and %d bins in %s %s" % (
                    len(qs), len(bins), desc, st), sig="report numbers")
            tot = sum(float(b.get("value")) for b in bins)
            if abs(tot - 1) > 1e-4:
                self.fail("reported histogram weights sum to %r in %s %s" % (
                    tot, desc, st), sig="report hist sum")
            for i, (b, (lo, w)) in enumerate(zip(bins, u["hist"])):
                if not (close(float(b.get("value")), w, 1e-5) and
                        close(float(b.get("lower-bound")), lo, 1e-5) and
                        close(float(b.get("upper-bound")), u["hist"][i + 1][0], 1e-5)):
                    self.fail("reported bin %d differs in %s" % (i + 1, desc),
                              sig="report bin")
            for i, (b, v) in enumerate(zip(qs, u["quant"])):
                if not (close(float(b.get("value")), (i + 1) / len(qs), 1e-5) and
                        close(float(b.get("upper-bound")), v, 1e-5)):
                    self.fail("reported quantile %d differs in %s" % (i + 1, desc),
                              sig="report quantile")

    def fit(self, src):
        """Samples of one deviate follow its distribution."""
        from scipy import stats
        d = gen_dev(src)
        n = 4000
        root = E("opsa-mef", {}, E("define-fault-tree", {"name": "ft"},
                 E("define-gate", {"name": "g"}, E("basic-event", {"name": "e"})),
                 E("define-basic-event", {"name": "e"}, d.xml())))
        st = {"seed": src.int(0, 100000), "probability": True}
        r = self.run_ok(root.text(), st, dump="1", samples=str(n), analyze="0")
        y = np.array(r["dump"]["basic_events"]["e"]["samples"], dtype=float)
        if not np.all(np.isfinite(y)):
            self.fail("undefined samples of %s" % d.show(), sig="sample nan")
        p = stats.kstest(y, d.cdf).pvalue
        if p < 1e-10:
            self.fail("samples of %s do not follow it (p=%g, sample mean %r)"
                      % (d.show(), p, float(np.mean(y))), sig="fit " + d.kind)
        v = r["dump"]["basic_events"]["e"]["value"]
        if not close(v, d.mean(), 1e-9, 1e-14):
            self.fail("mean of %s is %r, expected %r" % (d.show(), v, d.mean()),
                      sig="mean " + d.kind)
        return Result(("fit", d.show(), st["seed"]),
                      {"deviate": d.show(), "p": p}, tags=["fit", d.kind])
