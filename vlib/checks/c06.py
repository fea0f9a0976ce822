"""C06 common-cause failure groups."""
import itertools
import math

from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Result
from ..ft import FT, gen_ft, show
from ..xmlw import E
from .c01 import literal_set
from .c03 import approx, product_p

MODELS = ["beta-factor", "MGL", "alpha-factor", "phi-factor"]


class Group:
    def __init__(self, name, model, members, q, factors):
        self.name, self.model, self.members = name, model, members
        self.q = q                      # ("const", p) | ("exp", lambda) | ("param", p)
        self.factors = factors          # [(level or None, value)]

    def value(self, mission):
        k, v = self.q
        return 1 - math.exp(-v * mission) if k == "exp" else v

    def levels(self):
        """The factors by level (or None if the group is malformed)."""
        n = len(self.members)
        lo = {"beta-factor": n, "MGL": 2}.get(self.model, 1)
        prev = 0
        out = {}
        for level, v in self.factors:
            lv = level if level is not None else (prev + 1 if prev else lo)
            if lv < lo or lv > n or lv in out:
                return None
            out[lv] = v
            prev = lv
        if sorted(out) != list(range(lo, lo + len(out))):
            return None
        return out

    def event_probs(self, mission):
        """Subset size -> probability of one common-cause event."""
        n = len(self.members)
        q = self.value(mission)
        f = self.levels()
        if self.model == "beta-factor":
            return {1: (1 - f[n]) * q, n: f[n] * q}
        if self.model == "phi-factor":
            return {k: v * q for k, v in f.items()}
        top = max(f)
        if self.model == "alpha-factor":
            tot = sum(k * v for k, v in f.items())
            return {k: k / math.comb(n - 1, k - 1) * f[k] / tot * q for k in f}
        out = {}
        for k in range(1, top + 1):
            v = q / math.comb(n - 1, k - 1)
            for j in range(2, k + 1):
                v *= f[j]
            if k < top:
                v *= 1 - f[k + 1]
            out[k] = v
        return out

    def xml(self):
        k, v = self.q
        if k == "const":
            d = E("float", {"value": repr(v)})
        elif k == "param":
            d = E("parameter", {"name": self.name + "_q"})
        else:
            d = E("exponential", {}, E("float", {"value": repr(v)}),
                  E("system-mission-time"))
        fs = []
        for i, (level, v) in enumerate(self.factors):
            at = {} if level is None else {"level": level}
            fs.append(E("factor", at, E("float", {"value": repr(v)})))
        return E("define-CCF-group", {"name": self.name, "model": self.model},
                 E("members", {}, *[E("basic-event", {"name": m})
                                    for m in self.members]),
                 E("distribution", {}, d),
                 fs[0] if len(fs) == 1 and self.single else E("factors", {}, *fs))

    single = False


def gen_factors(src, model, n):
    """Well-formed factors."""
    if model == "beta-factor":
        fs = [(n, src.int(0, 20) / 20.0)]
    else:
        lo = 2 if model == "MGL" else 1
        top = src.int(lo, n)
        if model == "phi-factor":
            k = top
            w = [src.int(0, 10) for _ in range(k)]
            if not sum(w):
                w[0] = 1
            fs = [(i + 1, x / sum(w)) for i, x in enumerate(w)]
        else:
            fs = [(i, src.int(0, 20) / 20.0) for i in range(lo, top + 1)]
            if model == "alpha-factor" and not sum(v for _, v in fs):
                fs[0] = (fs[0][0], 0.5)
    how = src.weighted([(3, "plain"), (2, "none"), (1, "shuffled"), (1, "mixed")])
    if how == "none":
        fs = [(None, v) for _, v in fs]
    elif how == "shuffled":
        fs = src.shuffle(fs)
    elif how == "mixed":
        fs = [(None if src.bool() else k, v) for k, v in fs]
    return fs


def gen_groups(src, names, budget):
    """Groups over the basic events with at most budget expanded events more."""
    groups = []
    free = src.shuffle(names)
    for i in range(src.weighted([(5, 1), (2, 2), (1, 3)])):
        if len(free) < 2:
            break
        n = min(len(free), src.weighted([(4, 2), (4, 3), (2, 4), (1, 5)]))
        model = src.choice(MODELS)
        mem = free[:n]
        q = src.weighted([(4, "const"), (2, "exp"), (1, "param")])
        v = src.int(0, 20) / 20.0 if q != "exp" else src.int(1, 50) * 1e-4
        g = Group("ccf%d" % i, model, mem, (q, v), gen_factors(src, model, n))
        g.single = src.bool()
        if g.levels() is None:
            g.factors = [(k, v) for k, v in sorted(
                (k if k is not None else 0, v) for k, v in g.factors)]
            g.factors = gen_plain(model, n, [v for _, v in g.factors])
        cost = sum(math.comb(n, k) for k in g.event_probs(1)) - n
        if cost > budget:
            continue
        budget -= cost
        groups.append(g)
        free = free[n:]
    return groups


def gen_plain(model, n, vals):
    lo = {"beta-factor": n, "MGL": 2}.get(model, 1)
    return [(lo + i, v) for i, v in enumerate(vals)]


def expand(ft, groups, mission):
    """The tree with each member an OR of its common-cause events."""
    out = FT()
    mem = {m for g in groups for m in g.members}
    out.houses = dict(ft.houses)
    for name, (op, args, lo, hi) in ft.gates.items():
        out.gates[name] = (op, [(n, "g" if k == "b" and r in mem else k, r)
                                for n, k, r in args], lo, hi)
    for b, p in ft.basics.items():
        if b not in mem:
            out.basics[b] = p
    for g in groups:
        parts = {m: [] for m in g.members}
        for k, p in g.event_probs(mission).items():
            for sub in itertools.combinations(g.members, k):
                nm = "[" + " ".join(sub) + "]"
                out.basics[nm] = p
                for m in sub:
                    parts[m].append((False, "b", nm))
        for m, args in parts.items():
            out.gates[m] = ("or", args, None, None)
    return out


def plain(ft, groups, mission):
    """Without common-cause analysis: members share the distribution."""
    out = FT()
    out.gates, out.houses = ft.gates, ft.houses
    out.basics = dict(ft.basics)
    for g in groups:
        for m in g.members:
            out.basics[m] = g.value(mission)
    return out


def model_xml(ft, groups, where):
    root = E("opsa-mef")
    mem = {m for g in groups for m in g.members}
    t = E("define-fault-tree", {"name": "ft"})
    for g, f in ft.gates.items():
        t.add(E("define-gate", {"name": g}, ft.formula_xml(f)))
    for h, v in ft.houses.items():
        t.add(E("define-house-event", {"name": h},
                E("constant", {"value": "true" if v else "false"})))
    data = E("model-data")
    for b, p in ft.basics.items():
        if b not in mem:
            data.add(E("define-basic-event", {"name": b},
                       E("float", {"value": repr(p)})))
    for g in groups:
        if g.q[0] == "param":
            data.add(E("define-parameter", {"name": g.name + "_q"},
                       E("float", {"value": repr(g.q[1])})))
    first = []
    for g in groups:
        if where == "top":
            first.append(g.xml())
        elif where == "component":
            t.add(E("define-component", {"name": "c_" + g.name}, g.xml()))
        else:
            t.add(g.xml())
    root.add(*first)
    root.add(t)
    if data.kids:
        root.add(data)
    return root


class C06(DrvCheck):
    id = "C06"
    rule = ("random fault trees whose basic events fall into 1..3 CCF groups "
            "of 2..5 members (all four models, levels given, omitted or "
            "shuffled, constant, parameter or time-dependent distributions) "
            "analysed with and without CCF analysis; malformed groups must be "
            "rejected; non-trivial: a member event is reachable from the "
            "analysed top and the expanded tree has a product of common-cause "
            "events; distinct by structure, factors and configuration")
    quick_cases = 40000
    quick_wall = 45
    thorough_cases = 2000000
    thorough_wall = 700
    assumptions = ["the truth-table reference of vlib/boolref.py",
                   "the factor formulas of the Open-PSA MEF in c06.py"]

    def case(self, src):
        if src.bool(0.15):
            return self.malformed(src)
        ft = gen_ft(src, max_basic=6, max_gates=9,
                    coherent=True if src.bool(0.6) else None)
        for b in ft.basics:
            ft.basics[b] = src.int(0, 50) / 50.0
        groups = gen_groups(src, list(ft.basics), 13 - len(ft.basics))
        mission = src.choice([8760.0, 100.0, 1.0])
        where = src.choice(["ft", "top", "component"])
        text = model_xml(ft, groups, where).text()
        ccf = src.bool(0.8)
        ref = expand(ft, groups, mission) if ccf else plain(ft, groups, mission)
        names, tables = ref.tables()
        n = len(names)
        probs = [ref.basics[b] for b in names]
        tops = ft.tops()
        mode = src.weighted([(4, "exact"), (2, "rare-event"), (2, "mcub"),
                             (1, "zexact"), (1, "pi")])
        if mode == "pi" and n > 9:
            mode = "exact"
        alg = "bdd" if mode in ("exact", "pi") else src.choice(["zbdd", "mocus", "bdd"])
        limit = src.weighted([(3, 20), (2, src.int(1, 4))])
        st = {"algorithm": alg,
              "approximation": mode if mode in ("rare-event", "mcub") else "none",
              "probability": True, "ccf": ccf, "limit_order": limit,
              "mission_time": mission, "importance": src.bool(0.3)}
        if mode == "pi":
            st["prime_implicants"] = True
        r = self.run_ok(text, st)
        desc = "%s; groups=%s; ccf=%s mission=%s" % (
            show(ft), [(g.model, g.members, g.q, g.factors) for g in groups],
            ccf, mission)
        got = {x["gate"]: x for x in r["run"]["results"]}
        if set(got) != set(tops):
            self.fail("tops %s expected %s in %s" % (sorted(got), tops, desc),
                      sig="tops")
        nontrivial = False
        for t, x in got.items():
            if mode == "pi":
                ws = {frozenset((names[j], s) for j, s in p)
                      for p in B.prime_implicants(tables[t], n) if len(p) <= limit}
            else:
                ws = {frozenset((names[j], True) for j in c)
                      for c in B.cut_sets(tables[t], n) if len(c) <= limit}
            prods = [literal_set(p) for p in x["products"]]
            if set(prods) != ws or len(prods) != len(ws):
                self.fail("%s %s: products of %s: missing %s, extra %s in %s" % (
                    alg, mode, t,
                    [sorted(p) for p in sorted(map(sorted, ws - set(prods)))[:4]],
                    [sorted(p) for p in sorted(map(sorted, set(prods) - ws))[:4]],
                    desc), sig="products")
            pps = [product_p(p, ref.basics) for p in prods]
            for p, q, g in zip(prods, pps, x["pp"]):
                if not close(q, g, 1e-10, 1e-300):
                    self.fail("product %s has probability %r, expected %r in %s"
                              % (sorted(p), g, q, desc), sig="product p")
            want = approx(mode, pps) if mode in ("rare-event", "mcub") \
                else B.probability(tables[t], probs)
            if not close(x["p"], want, 1e-9, 1e-13):
                self.fail("%s %s: P(%s) = %r, expanded tree gives %r in %s"
                          % (alg, mode, t, x["p"], want, desc), sig="p")
            if st["importance"] and mode in ("exact", "zexact", "pi"):
                for e, f in x["importance"].items():
                    j = names.index(e)
                    w = (B.probability(B.restrict(tables[t], n, j, 1), probs)
                         - B.probability(B.restrict(tables[t], n, j, 0), probs))
                    if not close(f[1], w, 1e-8, 1e-12):
                        self.fail("MIF of %s is %r, expanded tree gives %r in %s"
                                  % (e, f[1], w, desc), sig="mif")
            if any(e.startswith("[") and " " in e for p in prods for e, _ in p):
                nontrivial = True
        return Result((desc, str(st)) if nontrivial else None,
                      {"model": desc, "settings": st,
                       "p": {t: x["p"] for t, x in got.items()}},
                      tags=[mode, "ccf" if ccf else "no-ccf"]
                      + sorted({g.model for g in groups}))

    def malformed(self, src):
        """One defect in an otherwise good group: must be an error."""
        ft = gen_ft(src, max_basic=6, max_gates=6, min_basic=4)
        for b in ft.basics:
            ft.basics[b] = 0.1
        names = list(ft.basics)
        while len(names) < 4:
            names.append("x%d" % len(names))
            ft.basics[names[-1]] = 0.1
        n = src.int(2, 4)
        mem = src.sample(names, n)
        model = src.choice(MODELS)
        q = ("const", src.int(0, 20) / 20.0)
        g = Group("ccf0", model, mem, q, gen_factors(src, model, n))
        if g.levels() is None:
            g.factors = gen_plain(model, n, [v for _, v in g.factors])
        kind = src.choice(["one member", "level high", "level low", "repeat",
                           "missing", "factor>1", "factor<0", "q>1", "q<0",
                           "phi sum", "twice", "shared member", "many",
                           "beta two", "zero level", "alpha zero"])
        f = [(k, v) for k, v in sorted(g.levels().items())]
        lo, hi = f[0][0], f[-1][0]
        groups = [g]
        if kind == "one member":
            g.members = mem[:1]
            g.factors = [(None, 1.0)]
        elif kind == "level high":
            g.factors = f + [(n + src.int(1, 3), 0.0)]
        elif kind == "level low":
            if lo == 1:
                return Result(None)
            g.factors = [(src.int(1, lo - 1), 0.0)] + f
        elif kind == "zero level":
            g.factors = [(0, f[0][1])] + f[1:]
        elif kind == "repeat":
            g.factors = f + [f[src.draw(len(f))]]
        elif kind == "missing":
            if len(f) < 2:
                return Result(None)
            k = src.draw(len(f) - 1)
            g.factors = f[:k] + f[k + 1:]
        elif kind in ("factor>1", "factor<0"):
            k = src.draw(len(f))
            v = 1.0 + src.int(1, 10) / 1000.0 if kind == "factor>1" else -src.int(1, 10) / 1000.0
            g.factors = f[:k] + [(f[k][0], v)] + f[k + 1:]
        elif kind == "q>1":
            g.q = ("const", 1 + src.int(1, 10) / 1000.0)
        elif kind == "q<0":
            g.q = ("const", -src.int(1, 10) / 1000.0)
        elif kind == "phi sum":
            g.model = "phi-factor"
            fs = gen_factors(src, "phi-factor", n)
            d = src.choice([0.01, -0.01, 0.3, 0.001])
            k = src.draw(len(fs))
            v = fs[k][1] + d
            if not 0 <= v <= 1:
                return Result(None)
            g.factors = [(i + 1, w) for i, (_, w) in enumerate(fs)]
            g.factors[k] = (k + 1, v)
            if abs(sum(w for _, w in g.factors) - 1) < 5e-4:
                return Result(None)
        elif kind == "twice":
            groups = [g, Group("ccf0", model, src.sample([x for x in names if x not in mem], 2),
                               q, gen_plain("alpha-factor", 2, [0.5, 0.5]))]
            groups[1].model = "alpha-factor"
            if len(groups[1].members) < 2:
                return Result(None)
        elif kind == "shared member":
            groups = [g, Group("ccf1", "alpha-factor", [mem[0]] + [x for x in names if x not in mem][:1],
                               q, gen_plain("alpha-factor", 2, [0.5, 0.5]))]
            if len(groups[1].members) < 2:
                return Result(None)
        elif kind == "many":
            g.factors = [(None, v) for _, v in f] + [(None, 0.0)] * (n + 1 - hi)
        elif kind == "beta two":
            g.model = "beta-factor"
            g.factors = [(None, 0.1), (None, 0.1)]
        elif kind == "alpha zero":
            g.model = "alpha-factor"
            g.factors = [(i, 0.0) for i in range(1, src.int(1, n) + 1)]
        text = model_xml(ft, groups, src.choice(["ft", "top", "component"])).text()
        ccf = src.bool()
        r = self.load(text, {"probability": True, "ccf": ccf})
        if "error" not in r:
            self.fail("a malformed CCF group (%s) was accepted: %s %s %s %s"
                      % (kind, g.model, g.members, g.q, g.factors),
                      sig="accepted " + kind)
        if r["kind"] != "user":
            self.fail("a malformed CCF group (%s) gave %s: %s"
                      % (kind, r["error"], r.get("what")), sig="kind " + kind)
        return Result(("bad", kind, g.model, n, str(g.factors)), None,
                      tags=["malformed"])
