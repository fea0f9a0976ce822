"""C11 alignments and phases."""
import math
import xml.etree.ElementTree as ET

from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c01 import literal_set
from .c10 import Gen as EtGen, Tables, Walk, World, total, world_xml


class Order:
    """Keeps one shuffle for all renderings of a world."""

    def __init__(self, src):
        self.src, self.perm = src, {}

    def shuffle(self, xs):
        if len(xs) not in self.perm:
            self.perm[len(xs)] = self.src.shuffle(range(len(xs)))
        return [xs[i] for i in self.perm[len(xs)]]


def expr(v):
    """Probabilities: a number, or a time-dependent law."""
    if not isinstance(v, tuple):
        return E("float", {"value": repr(v)})
    mt = E("system-mission-time")
    num = lambda x: E("float", {"value": repr(x)})
    if v[0] == "exp":
        return E("exponential", {}, num(v[1]), mt)
    if v[0] == "par":
        return E("parameter", {"name": v[1]})
    if v[0] == "glm":
        return E("GLM", {}, num(v[1]), num(v[2]), num(v[3]), mt)
    return E("div", {}, mt, num(v[1]))     # linear


def law(v, t):
    if not isinstance(v, tuple):
        return v
    if v[0] in ("exp", "par"):
        return -math.expm1(-v[-1] * t)
    if v[0] == "glm":
        g, lam, mu = v[1:]
        return (lam - (lam - g * (lam + mu)) * math.exp(-(lam + mu) * t)) / (lam + mu)
    return t / v[1]


def params(w):
    """Parameters that events refer to."""
    out = []
    for v in w.ft.basics.values():
        if isinstance(v, tuple) and v[0] == "par":
            out.append(E("define-parameter", {"name": v[1]},
                         E("exponential", {}, E("float", {"value": repr(v[2])}),
                           E("system-mission-time"))))
    return [E("model-data", {}, *out)] if out else []


def gen_laws(src, ft, tmax):
    for b in ft.basics:
        k = src.weighted([(3, "const"), (4, "exp"), (2, "par"), (1, "glm"), (1, "lin")])
        ft.basics[b] = {
            "const": lambda: src.weighted([(9, src.int(1, 99) / 100), (1, 0.0), (1, 1.0)]),
            "exp": lambda: ("exp", src.int(1, 300) / 100 / tmax),
            "par": lambda: ("par", "q_" + b, src.int(1, 300) / 100 / tmax),
            "glm": lambda: ("glm", src.int(0, 4) / 4, src.int(1, 30) / 10 / tmax,
                            src.int(0, 30) / 10 / tmax),
            "lin": lambda: ("lin", tmax * src.int(1, 5)),
        }[k]()


def gen_phases(src, houses, nmax=4):
    """[(name, fraction, [(house, state)..])] ; fractions sum to 1."""
    n = src.int(1, nmax)
    cuts = sorted(src.sample(list(range(1, 16)), n - 1)) if n > 1 else []
    fr = [(b - a) / 16 for a, b in zip([0] + cuts, cuts + [16])]
    if src.bool(0.1):      # within the tolerance of the sum
        fr[0] *= 1 + src.choice([-1, 1]) * 5e-5
        if n == 1:
            fr[0] = min(fr[0], 1.0)
    out = []
    for i, f in enumerate(fr):
        ins = []
        if houses:
            for _ in range(src.weighted([(3, 1), (2, 0), (2, 2), (1, 4)])):
                ins.append((src.choice(houses), src.bool()))
        out.append(("P%d" % i, f, ins))
    return out


def alignment_xml(name, phases):
    return E("define-alignment", {"name": name}, *[
        E("define-phase", {"name": p, "time-fraction": repr(f)},
          *[E("set-house-event", {"name": h},
              E("constant", {"value": "true" if s else "false"})) for h, s in ins])
        for p, f, ins in phases])


def key(x):
    return x["gate"] if "gate" in x else (x["init"], x["seq"])


SAME = ("n", "distribution", "fta_warnings", "pa_warnings", "imp_warnings",
        "importance_len")


class C11(DrvCheck):
    id = "C11"
    rule = ("random fault trees, half of them under event trees, with "
            "time-dependent probabilities and 1..3 alignments of 1..4 phases "
            "that set house events; every phase's results against a separate "
            "analysis of the same model with the phase's house events and "
            "mission time written in, and against truth tables at the "
            "phase's mission time; the model afterwards, and a second "
            "analysis; non-trivial: at least 2 phases and two of them differ "
            "in a result; distinct by the model and settings")
    quick_cases = 30000
    quick_wall = 35
    thorough_cases = 1000000
    thorough_wall = 700
    assumptions = ["the interpreters of c10.py and the truth tables",
                   "results without alignments are as the other checks say"]

    def case(self, src):
        et = src.bool(0.5)
        if et:
            w = EtGen(src, src.bool(0.85)).w
        else:
            w = World()
            w.ft = gen_ft(src, max_basic=7, max_gates=8)
            hs = ["hx%d" % i for i in range(src.int(1, 3))]
            for h in hs:
                w.ft.houses[h] = src.bool()
            for g, (op, args, lo, hi) in list(w.ft.gates.items()):
                if op in ("and", "or", "nand", "nor") and src.bool(0.5):
                    h = src.choice(list(w.ft.houses))
                    if not any(a[2] == h for a in args):
                        w.ft.gates[g] = (op, args + [(src.bool(0.2), "h", h)], lo, hi)
        tm = src.choice([8760.0, 1.0, 100.0, 24.0])
        gen_laws(src, w.ft, tm)
        aligns = [("A%d" % i, gen_phases(src, list(w.ft.houses)))
                  for i in range(src.weighted([(6, 1), (2, 2), (1, 3)]))]
        mode = src.weighted([(4, "none"), (2, "rare-event"), (2, "mcub"), (1, "pi")])
        alg = "bdd" if mode == "pi" else src.choice(["bdd", "zbdd", "mocus"])
        st = {"algorithm": alg, "probability": True,
              "limit_order": src.weighted([(4, 20), (1, 2)]), "mission_time": tm,
              "approximation": mode if mode in ("rare-event", "mcub") else "none"}
        if mode == "pi":
            st["prime_implicants"] = True
        if src.bool(0.35):
            st["importance"] = True
        if src.bool(0.15):
            st["uncertainty"] = True
            st["num_trials"] = 3
        step = src.bool(0.25)
        if step:
            st["time_step"] = tm / src.choice([3, 7.5, 20])
            if src.bool():
                st["sil"] = True
        order = Order(src)
        base = dict(w.ft.houses)

        def text(houses, als):
            w.ft.houses = dict(base, **houses)
            root = world_xml(order, w, expr)
            root.kids += params(w)
            for a, ph in als:
                root.kids.insert(pos.setdefault(a, src.draw(len(root.kids) + 1)),
                                 alignment_xml(a, ph))
            return root.text()
        pos = {}
        full = text({}, aligns)
        rep = {}
        if st.get("importance") and src.bool(0.3):
            rep["report"] = self.drv.scratch.path("r.xml")
        r = self.run_ok(full, st, dump_after=1, repeat=2, **rep)
        desc = "%s inits %s trees %s seqs %s rules %s; p=%s; %s; %s" % (
            show(w.ft), w.inits, [(t.name, t.initial, t.branches) for t in w.trees],
            w.seqs, w.rules, w.ft.basics, aligns, st)
        self.last_files = [("m.xml", full)]
        d = r["dump_after"]
        if d["house_events"] != base:
            self.fail("house events %s afterwards, the model says %s in %s" % (
                d["house_events"], base, desc), sig="house events not restored")
        if d["mission_time"] != tm:
            self.fail("mission time %r afterwards in %s" % (d["mission_time"], desc),
                      sig="mission time not restored")
        if rep:
            self.report(rep["report"], w, {
                (a, p): f * tm for a, ph in aligns for p, f, _ in ph}, desc)
        by = {}
        for x in r["run"]["results"]:
            by.setdefault((x.get("alignment"), x.get("phase")), {})[key(x)] = x
        etas = {}
        for e in r["run"]["eta"]:
            etas.setdefault((e.get("alignment"), e.get("phase")), []).append(e)
        wanted = {(a, p) for a, ph in aligns for p, _, _ in ph}
        if set(by) - wanted or (by and set(by) != wanted):
            self.fail("results for phases %s, the model has %s in %s" % (
                sorted(by), sorted(wanted), desc), sig="phases")
        if len(r["run"]["results"]) != sum(map(len, by.values())):
            self.fail("a result is reported twice in %s" % desc, sig="twice")
        self.compare("second analysis", r["again"]["results"],
                     r["run"]["results"], desc, lambda x: (
                         key(x), x.get("alignment"), x.get("phase")))
        vary = {}
        for a, ph in aligns:
            for p, f, ins in ph:
                hs = dict(ins)
                s1 = dict(st, mission_time=f * tm)
                one = self.run_ok(text(hs, []), s1)
                self.last_files = [("m.xml", full), ("phase.xml", self.last_files[0][1])]
                got = by.get((a, p), {})
                self.compare("%s/%s" % (a, p), got.values(),
                             one["run"]["results"], desc, key)
                ge = sorted(etas.get((a, p), []), key=lambda e: e["init"])
                we = sorted(one["run"]["eta"], key=lambda e: e["init"])
                if [e["init"] for e in ge] != [e["init"] for e in we]:
                    self.fail("event trees of %s/%s differ in %s" % (a, p, desc),
                              sig="eta")
                for e, o in zip(ge, we):
                    g = {s["name"]: s for s in e["seqs"]}
                    for s in o["seqs"]:
                        x = g.pop(s["name"], None)
                        if not x or not close(x["p"], s["p"]) or \
                                x["expr_only"] != s["expr_only"]:
                            self.fail("sequence %s of %s/%s: %s, by itself %s in %s"
                                      % (s["name"], a, p, x, s, desc), sig="eta")
                    if g:
                        self.fail("extra sequences %s in %s" % (g, desc), sig="eta")
                self.absolute(w, dict(base, **hs), f * tm, got, mode,
                              st["limit_order"], "%s/%s in %s" % (a, p, desc))
                for k, x in got.items():
                    vary.setdefault(k, set()).add(round(x["p"], 10))
        n = sum(len(ph) for _, ph in aligns)
        big = n >= 2 and any(len(v) >= 2 for v in vary.values())
        return Result(desc if big else None,
                      {"model": desc, "p": {"%s/%s %s" % (a, p, k): x["p"]
                                            for (a, p), g in by.items()
                                            for k, x in g.items()}},
                      tags=["event tree" if et else "fault tree", mode])

    def compare(self, what, got, want, desc, key):
        g = {key(x): x for x in got}
        w = {key(x): x for x in want}
        if set(g) != set(w):
            self.fail("%s: results %s, by itself %s in %s" % (
                what, sorted(map(str, g)), sorted(map(str, w)), desc), sig="results")
        for k, b in w.items():
            a = g[k]
            for f in sorted(set(a) | set(b)):
                if f in ("gate", "init", "seq", "alignment", "phase", "unc"):
                    continue
                if not same(f, a, b):
                    self.fail("%s: %s of %s is %s, by itself %s in %s" % (
                        what, f, k, a.get(f), b.get(f), desc), sig=f)
            if ("unc" in a) != ("unc" in b):
                self.fail("%s: uncertainty of %s in %s" % (what, k, desc), sig="unc")
            if "unc" in a and not close(a["unc"]["mean"], b["unc"]["mean"], 1e-6):
                self.fail("%s: mean of %s in %s" % (what, k, desc), sig="unc")

    def report(self, path, w, times, desc):
        """Event probabilities of the report's importance tables."""
        for imp in ET.parse(path).getroot().find("results").iter("importance"):
            t = times[imp.get("alignment"), imp.get("phase")]
            for e in imp.iter("basic-event"):
                p = law(w.ft.basics[e.get("name")], t)
                if not close(float(e.get("probability")), p, 1e-5, 1e-12):
                    self.fail("report: event %s in %s has probability %s, %r at "
                              "the phase's time in %s" % (
                                  e.get("name"), imp.attrib, e.get("probability"),
                                  p, desc), sig="reported event probability")

    def absolute(self, w, houses, t, got, mode, limit, desc):
        """Exact probabilities and cut sets by truth table at time t."""
        w.ft.houses = houses
        T = Tables(w.ft)
        n = len(T.names)
        probs = [law(w.ft.basics[b], t) for b in T.names]
        want = {}
        for i, ti in w.inits:
            if ti is not None:
                for s, ps in Walk(w, i).run(ti).items():
                    if not w.formulas and any(x[0] for x in ps):
                        want[i, s] = ("e", min(1.0, total(ps)), min(1.0, total(ps, 1)))
                    else:
                        want[i, s] = ("t", T.sequence(ps) if w.formulas else T.full)
        tables = w.ft.tables()[1]
        for g in w.ft.tops():
            want[g] = ("t", tables[g])
        for k, x in got.items():
            v = want.get(k)
            if v is None:       # tops are as the other checks say
                continue
            if v[0] == "e":
                if v[1] == v[2] and not close(x["p"], v[1], 1e-9, 1e-12):
                    self.fail("P(%s) = %r, paths give %r, %s" % (k, x["p"], v[1], desc),
                              sig="p expression")
                continue
            if mode == "none" and not close(
                    x["p"], B.probability(v[1], probs), 1e-8, 1e-12):
                self.fail("P(%s) = %r, %r by truth table, %s" % (
                    k, x["p"], B.probability(v[1], probs), desc), sig="p")
            if mode != "pi":
                ws = {frozenset((T.names[j], True) for j in c)
                      for c in B.cut_sets(v[1], n) if len(c) <= limit}
                if {literal_set(p) for p in x["products"]} != ws:
                    self.fail("products of %s, %s" % (k, desc), sig="products")


def same(f, a, b):
    if f not in a or f not in b:
        return False
    x, y = a[f], b[f]
    if f in SAME:
        return x == y
    if f == "events":
        return sorted(x) == sorted(y)
    if f == "products":
        return sorted(map(sorted, x)) == sorted(map(sorted, y))
    if f == "pp":
        k = lambda r: sorted(zip(map(sorted, r["products"]), r["pp"]))
        return all(close(p, q) for (_, p), (_, q) in zip(k(a), k(b)))
    if f == "importance":
        # P - p MIF may cancel: compare the inverse of RRW.
        inv = lambda v: v[:5] + [1 / v[5] if v[5] else 0.0]
        return set(x) == set(y) and all(
            near(inv(x[e]), inv(y[e])) for e in x)
    return near(x, y)


def near(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and \
            all(near(x[k], y[k]) for k in x)
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and \
            all(near(p, q) for p, q in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return close(x, y, 1e-7, 1e-11)
    return x == y
