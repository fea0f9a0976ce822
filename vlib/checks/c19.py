"""C19 probability over time, SIL metrics."""
import math

from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c03 import approx

PFD = [0, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]
PFH = [0, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1]


def num(x):
    return E("float", {"value": repr(x)})


def mt():
    return E("system-mission-time")


def gen_law(src, tm):
    k = src.weighted([(3, "const"), (5, "exp"), (1, "glm"), (1, "lin"), (1, "weibull"),
                      (1, "step"), (1, "saw"), (1, "decay")])
    scale = 10.0 ** -src.weighted([(4, 0), (2, 1), (2, 3), (2, 5), (1, 8)])
    if k == "const":
        return ("const", src.weighted([
            (6, src.int(1, 99) / 100), (1, 0.0), (1, 1.0),
            (3, src.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-5])), (2, src.int(1, 9) * 1e-6)]))
    if k == "exp":
        return ("exp", scale * src.int(1, 300) / 100 / tm)
    if k == "glm":
        return ("glm", src.choice([0.0, 0.5, 1.0, 1e-3]), scale * src.int(1, 30) / 10 / tm,
                src.int(0, 30) / 10 / tm)
    if k == "lin":
        return ("lin", tm * src.int(1, 5) / scale)
    if k == "weibull":
        return ("weibull", tm * src.int(1, 4), src.choice([0.5, 1.0, 2.0, 3.0]))
    if k == "step":     # a constant that jumps
        return ("step", tm * src.int(1, 9) / 10, src.int(0, 10) / 10, src.int(0, 10) / 10)
    if k == "saw":      # periodically tested
        return ("saw", scale * src.int(1, 30) / 10 / tm, tm / src.int(2, 6))
    return ("decay", src.int(1, 30) / 10 / tm)


def law_xml(v):
    k = v[0]
    if k == "const":
        return num(v[1])
    if k == "exp":
        return E("exponential", {}, num(v[1]), mt())
    if k == "glm":
        return E("GLM", {}, num(v[1]), num(v[2]), num(v[3]), mt())
    if k == "lin":
        return E("div", {}, mt(), num(v[1]))
    if k == "weibull":
        return E("Weibull", {}, num(v[1]), num(v[2]), num(0.0), mt())
    if k == "step":
        return E("ite", {}, E("lt", {}, mt(), num(v[1])), num(v[2]), num(v[3]))
    if k == "saw":
        return E("periodic-test", {}, num(v[1]), num(v[2]), num(v[2]), mt())
    return E("exp", {}, E("neg", {}, E("mul", {}, num(v[1]), mt())))


def law(v, t):
    """Its value; a pair of values where t is too near a jump."""
    k = v[0]
    if k == "const":
        return v[1]
    if k == "exp":
        return -math.expm1(-v[1] * t)
    if k == "glm":
        g, lam, mu = v[1:]
        return (lam - (lam - g * (lam + mu)) * math.exp(-(lam + mu) * t)) / (lam + mu)
    if k == "lin":
        return t / v[1]
    if k == "weibull":
        return -math.expm1(-(t / v[1]) ** v[2]) if t > 0 else 0.0
    if k == "step":
        if abs(t - v[1]) < 1e-9 * v[1]:
            raise Jump
        return v[2] if t < v[1] else v[3]
    if k == "saw":
        lam, tau = v[1:]
        if t <= tau:
            return -math.expm1(-lam * t)
        n = t / tau
        if abs(n - round(n)) < 1e-9:
            raise Jump
        return -math.expm1(-lam * (t - math.floor(n) * tau))
    return math.exp(-v[1] * t)


class Jump(Exception):
    pass


def fractions(points, bounds):
    """Share of time the piecewise-linear curve spends in each (b0, b1]."""
    out = [0.0] * (len(bounds) - 1)
    for (y0, t0), (y1, t1) in zip(points, points[1:]):
        lo, hi = min(y0, y1), max(y0, y1)
        for i, (a, b) in enumerate(zip(bounds, bounds[1:])):
            if lo == hi:
                if (a < lo or (i == 0 and lo == 0)) and lo <= b:
                    out[i] += t1 - t0
            else:
                out[i] += (t1 - t0) * max(0.0, min(b, hi) - max(a, lo)) / (hi - lo)
    total = points[-1][1] - points[0][1]
    return [x / total for x in out]


def average(points):
    return sum((y0 + y1) * (t1 - t0) / 2 for (y0, t0), (y1, t1)
               in zip(points, points[1:])) / (points[-1][1] - points[0][1])


class C19(DrvCheck):
    id = "C19"
    rule = ("random fault trees whose events follow constant, exponential, "
            "GLM, Weibull, linear, decaying, stepping and periodically tested "
            "laws, random mission times and steps (dividing, not dividing, "
            "longer than the mission, mission time 0), all probability "
            "methods, with and without SIL; every point of the curve by truth "
            "tables at that time, one of them by a separate analysis, own "
            "averages and buckets; non-trivial: the curve has at least 3 "
            "points and changes; distinct by the model and settings")
    quick_cases = 60000
    quick_wall = 35
    thorough_cases = 2000000
    thorough_wall = 600
    assumptions = ["the truth tables of vlib/boolref.py and the laws of c19.py",
                   "the PFH curve is p(t)/t with 0 at time 0, and rates above "
                   "one per hour are in no bucket"]

    def case(self, src):
        ft = gen_ft(src, max_basic=6, max_gates=7)
        tm = src.weighted([(5, 8760.0), (2, 100.0), (1, 1.0), (1, 0.5), (1, 0.0),
                           (1, 3.3)])
        for b in ft.basics:
            ft.basics[b] = gen_law(src, tm or 1.0)
        how = src.weighted([(4, "div"), (4, "free"), (1, "long"), (1, "equal"), (1, "none")])
        step = {"div": lambda: tm / src.int(1, 40), "free": lambda: tm * src.int(30, 999) / 1000,
                "long": lambda: tm * 1.5 + 1, "equal": lambda: tm, "none": lambda: 0.0}[how]()
        if step == 0 and how != "none":
            step = 1.0
        mode = src.weighted([(4, "none"), (2, "rare-event"), (2, "mcub"), (1, "pi")])
        alg = "bdd" if mode == "pi" else src.choice(["bdd", "zbdd", "mocus"])
        limit = src.weighted([(4, 20), (1, src.int(1, 3))])
        st = {"algorithm": alg, "probability": True, "limit_order": limit,
              "approximation": mode if mode in ("rare-event", "mcub") else "none",
              "mission_time": tm}
        if step:
            st["time_step"] = step
            if src.bool(0.7):
                st["sil"] = True
        if mode == "pi":
            st["prime_implicants"] = True
        if src.bool(0.2):
            st["importance"] = True
        text = ft.xml(law_xml).text()
        r = self.run_ok(text, st, dump_after=1)
        desc = "%s; p=%s; %s" % (show(ft), ft.basics, st)
        if r["dump_after"]["mission_time"] != tm:
            self.fail("mission time %r afterwards in %s" % (
                r["dump_after"]["mission_time"], desc), sig="mission time")
        names, tables = ft.tables()
        n = len(names)
        res = {x["gate"]: x for x in r["run"]["results"]}
        moving = False
        want_t = None
        for t, x in res.items():
            pts = x["p_time"]
            if not step:
                if pts:
                    self.fail("a curve without a time step in %s" % desc, sig="curve")
                continue
            self.times([q for _, q in pts], tm, step, desc)
            if pts[-1][0] != x["p"] and not close(pts[-1][0], x["p"], 1e-12, 0):
                self.fail("the curve ends with %r, the probability is %r in %s" % (
                    pts[-1][0], x["p"], desc), sig="end")
            cs = [c for c in B.cut_sets(tables[t], n) if len(c) <= limit]
            for p, q in pts:
                if not 0 <= p <= 1:
                    self.fail("probability %r in %s" % (p, desc), sig="range")
                try:
                    probs = [law(ft.basics[b], q) for b in names]
                except Jump:
                    continue
                if mode in ("rare-event", "mcub"):
                    v = approx(mode, [math.prod(probs[j] for j in c) for c in cs])
                else:
                    v = B.probability(tables[t], probs)
                if not close(p, v, 1e-9, 1e-11):
                    self.fail("P(%s) at time %r is %r, expected %r in %s" % (
                        t, q, p, v, desc), sig="point")
            if len(pts) >= 3 and len({round(p, 12) for p, _ in pts}) >= 2:
                moving = True
            if "sil" in st:
                self.sil(x, pts, desc)
            elif "pfd_avg" in x:
                self.fail("SIL without a request in %s" % desc, sig="sil")
            want_t = src.choice(pts)[1]
        if want_t is not None and src.bool(0.3):
            st1 = {k: v for k, v in st.items() if k not in ("time_step", "sil")}
            st1["mission_time"] = want_t
            one = self.run_ok(text, st1)
            for x in one["run"]["results"]:
                p = [a for a, b in res[x["gate"]]["p_time"] if b == want_t][0]
                if not close(p, x["p"], 1e-10, 1e-15):
                    self.fail("P(%s) at %r is %r on the curve, %r by itself in %s"
                              % (x["gate"], want_t, p, x["p"], desc), sig="alone")
        return Result(desc if moving else None,
                      {"model": desc, "curves": {t: x["p_time"][:5] for t, x in res.items()}},
                      tags=[mode, how] + (["sil"] if "sil" in st else []))

    def times(self, ts, tm, step, desc):
        if any(not a < b for a, b in zip(ts, ts[1:])):
            self.fail("times do not ascend: %s in %s" % (ts, desc), sig="times")
        if not ts or ts[-1] != tm:
            self.fail("the curve ends at %s in %s" % (ts[-1:], desc), sig="times end")
        eps = 1e-9 * max(tm, step)
        for i, t in enumerate(ts[:-1]):
            if abs(t - i * step) > eps or t >= tm:
                self.fail("point %d is at %r in %s" % (i, t, desc), sig="times")
        # The last multiple that is clearly below the mission time is there.
        if len(ts) * step - step < tm - eps and (len(ts) - 1) * step < tm - eps:
            self.fail("times stop at %s in %s" % (ts[-3:], desc), sig="times")

    def sil(self, x, pts, desc):
        if len(pts) == 1:
            avg = pts[0][0]
            want = [float(a < avg <= b or (avg == 0 and a == 0))
                    for a, b in zip(PFD, PFD[1:])]
            if x["pfd_avg"] != avg or [f for _, f in x["pfd"]] != want:
                self.fail("a single value %r gives %s, expected %s in %s" % (
                    avg, x["pfd"], want, desc), sig="single")
            return
        pfh = [[p / t if t else 0.0, t] for p, t in pts]
        for what, curve, bounds, got, avg in (
                ("PFD", pts, PFD, x["pfd"], x["pfd_avg"]),
                ("PFH", pfh, PFH, x["pfh"], x["pfh_avg"])):
            if [b for b, _ in got] != bounds[1:]:
                self.fail("bounds %s" % got, sig="bounds")
            v = average(curve)
            if not close(avg, v, 1e-9, 1e-15):
                self.fail("average %s is %r, the curve gives %r in %s" % (
                    what, avg, v, desc), sig=what + " average")
            w = fractions(curve, bounds)
            fs = [f for _, f in got]
            if any(not close(a, b, 1e-8, 1e-9) for a, b in zip(fs, w)):
                self.fail("%s fractions %s, the curve gives %s in %s" % (
                    what, fs, w, desc), sig=what + " fractions")
            if any(f < 0 for f in fs) or (max(p for p, _ in curve) <= 1 and
                                          not close(sum(fs), 1, 1e-9)):
                self.fail("%s fractions %s sum to %r in %s" % (
                    what, fs, sum(fs), desc), sig=what + " sum")
