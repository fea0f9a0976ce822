"""C25 the analysis in the GUI: its settings, its results and their views."""
import os
import re
import xml.etree.ElementTree as ET

from ..base import DrvCheck, close
from ..driver import Driver
from ..engine import Discard, Fail, Result
from ..xmlw import E
from . import c22

DOT = " \u22c5 "
NEG = "\xac"


# --- the model, written from the reference state ---------------------------------------------

def one_tree(st, top):
    """The text of a model with what is below a gate."""
    gates = [top] + sorted(c22.reach(st, top))
    ft = E("define-fault-tree", {"name": "only"})
    used = set()
    for g in gates:
        x = st["gate"][g]
        kids = []
        for _, kind, n in x["args"]:
            used.add((kind, n))
            kids.append(E({"gate": "gate", "basic": "basic-event", "house": "house-event"}[kind], {"name": n}))
        e = E("define-gate", {"name": g})
        if x["conn"] == "null":
            e.add(*kids)
        else:
            e.add(E(x["conn"], {"min": str(x["min"])} if x["conn"] == "atleast" else {}, *kids))
        ft.add(e)
    data = E("model-data")
    for kind, n in sorted(used):
        if kind == "house":
            data.add(E("define-house-event", {"name": n},
                       E("constant", {"value": "true" if st["house"][n]["state"] else "false"})))
        elif kind == "basic":
            e = E("define-basic-event", {"name": n})
            x = expr_xml(st["basic"][n]["expr"])
            if x is not None:
                e.add(x)
            data.add(e)
    return E("opsa-mef", {}, ft, data).text()


def expr_xml(x):
    if x is None:
        return None
    if x == "time":
        return E("system-mission-time")
    if x[0] == "const":
        return E("float", {"value": repr(float(x[1]))})
    return E("exponential", {}, expr_xml(x[1]), expr_xml(x[2]))


# --- the settings ------------------------------------------------------------------------------

DEFAULTS = {"algorithm": "bdd", "approximation": "none", "pi": False, "prob": False, "imp": False,
            "order": 20, "time": 8760.0, "cut": 1e-8, "unc": False, "ccf": False, "sil": False,
            "step": 0.0, "trials": 1000, "quantiles": 20, "bins": 20, "seed": None}


def shown(S):
    """What the dialog shows of the settings."""
    return {"algorithm": S["algorithm"], "approx": S["approximation"] != "none",
            "kind": "mcub" if S["approximation"] == "mcub" else "rareEvent", "pi": S["pi"],
            "prob": S["prob"], "imp": S["imp"], "order": min(S["order"], 99),
            "time": max(1.0, round(S["time"], 1))}


def click(d, what):
    """What the dialog must show after an input."""
    d = dict(d)
    w, _, v = what.partition(":")
    on = v == "1"

    def approx(x):
        if d["approx"] != x:
            d["approx"] = x
            if x:
                d["pi"] = False
            elif d["algorithm"] != "bdd":
                d["algorithm"] = "bdd"

    def algorithm(x):
        old, d["algorithm"] = d["algorithm"], x
        if old == "bdd" and x != "bdd":
            approx(True)
            d["pi"] = False
    if w in ("bdd", "zbdd", "mocus"):
        algorithm(w)
    elif w == "primeImplicants":
        if on and not d["pi"]:
            d["pi"] = True
            algorithm("bdd")
            approx(False)
        d["pi"] = on
    elif w == "approximationsBox":
        approx(on)
    elif w in ("rareEvent", "mcub"):
        if d["approx"]:
            d["kind"] = w
    elif w == "probability":
        d["prob"] = on
        if not on:
            d["imp"] = False
    elif w == "importance":
        d["imp"] = on
        if on:
            d["prob"] = True
    elif w == "order":
        d["order"] = max(0, min(99, int(v)))
    elif w == "time":
        d["time"] = max(1.0, min(1e9, round(float(v), 1)))
    return d


def accept(S, first, d):
    """The settings after the dialog was accepted."""
    S = dict(S)
    S.update(algorithm=d["algorithm"], pi=d["pi"], prob=d["prob"], imp=d["imp"],
             approximation="none" if not d["approx"] else "mcub" if d["kind"] == "mcub" else "rare-event")
    if d["order"] != first["order"]:
        S["order"] = d["order"]
    if d["time"] != first["time"]:
        S["time"] = d["time"]
    if not d["prob"]:
        S["unc"] = S["sil"] = False
    return S


def gen_project(s, files):
    """A project file with valid options: (text, settings)."""
    S = dict(DEFAULTS)
    o = E("options")
    if s.bool(0.6):
        S["algorithm"] = s.choice(["bdd", "zbdd", "mocus"])
        o.add(E("algorithm", {"name": S["algorithm"]}))
        S["approximation"] = "none" if S["algorithm"] == "bdd" else "rare-event"
    if S["algorithm"] == "bdd" and s.bool(0.3):
        S["pi"] = True
        o.add(E("prime-implicants"))
    analysis, approx, limits = None, None, E("limits")
    if s.bool(0.7):
        f = {k: s.bool(0.5) for k in ("probability", "importance", "uncertainty", "ccf") if s.bool(0.7)}
        if s.bool(0.15):
            f["sil"] = True
        analysis = E("analysis", {k: "true" if v else "false" for k, v in f.items()})
        S.update(imp=f.get("importance", False), unc=f.get("uncertainty", False), ccf=f.get("ccf", False),
                 sil=f.get("sil", False))
        S["prob"] = any(f.get(k, False) for k in ("probability", "importance", "uncertainty", "sil"))
    if not S["pi"] and s.bool(0.4):
        S["approximation"] = s.choice(["rare-event", "mcub"])
        approx = E("approximation", {"name": S["approximation"]})
    if S["sil"] or s.bool(0.15):
        S["step"] = s.choice([100.0, 0.5, 3000.0])
    if s.bool(0.4):
        S["order"] = s.choice([0, 1, 2, 3, 5, 99, 100, 150])
        limits.add(E("product-order", {}, str(S["order"])))
    if s.bool(0.5):
        S["time"] = s.choice([0.0, 0.25, 1.0, 10.5, 123.456, 1000.0, 87600.0])
        limits.add(E("mission-time", {}, repr(S["time"])))
    if S["step"]:
        if S["time"] / S["step"] > 2000:
            S["step"] = 3000.0
        limits.add(E("time-step", {}, repr(S["step"])))
    if s.bool(0.4):
        S["cut"] = s.choice([0.0, 0.01, 0.5, 1e-12])
        limits.add(E("cut-off", {}, repr(S["cut"])))
    if S["unc"] or s.bool(0.2):
        S["trials"] = s.choice([1, 10, 50])
        limits.add(E("number-of-trials", {}, str(S["trials"])))
    if s.bool(0.2):
        S["quantiles"] = s.choice([1, 4, 7])
        limits.add(E("number-of-quantiles", {}, str(S["quantiles"])))
    if s.bool(0.2):
        S["seed"] = s.int(0, 1000)
        limits.add(E("seed", {}, str(S["seed"])))
    for x in (analysis, approx):
        if x is not None:
            o.add(x)
    if limits.kids:
        o.add(limits)
    return E("scram", {}, E("model", {}, *[E("file", {}, f) for f in files]), o).text(), S


INPUTS = ["bdd", "zbdd", "mocus", "primeImplicants:1", "primeImplicants:0", "approximationsBox:1",
          "approximationsBox:0", "rareEvent", "mcub", "probability:1", "probability:0", "importance:1",
          "importance:0"]


def gen_inputs(s):
    out = [s.choice(INPUTS) for _ in range(s.int(0, 5))]
    if s.bool(0.3):
        out.append("order:%s" % s.choice([0, 1, 2, 3, 7, 99, 120]))
    if s.bool(0.35):
        out.append("time:%s" % s.choice(["1", "10", "100.5", "0.3", "5000", "87600", "8760"]))
    if s.bool(0.6):
        out.append("probability:1")
    if s.bool(0.4):
        out.append("importance:1")
    return s.shuffle(out)


class Library(DrvCheck):
    """The analysis through the library."""
    id = "C25"

    def __init__(self, binary):
        self.drv = Driver(binary)


class C25(c22.C22):
    id = "C25"
    rule = ("at least one analysis whose results were shown and compared, with products, under settings "
            "other than the defaults or after an edit")
    quick_cases = 4000
    quick_wall = 90
    thorough_cases = 300000
    thorough_wall = 600
    targets = ("guidrv", "sdrv")
    assumptions = [
        "the windows run on Qt's offscreen platform",
        "the results are compared with those of the library for what is below each top gate (C01-C05 judge these)",
        "the results of an earlier analysis stay in view when only the settings change",
    ]

    def open(self):
        super().open()
        self.lib = Library(self.bins["rel"]["sdrv"])

    def close(self):
        super().close()
        self.lib.drv.close()

    def fail(self, msg, sig=None):
        raise Fail("C25: %s" % msg, sig=sig, detail={
            "files": [("m.xml", self.text)] + ([("project.xml", self.ptext)] if self.ptext else []),
            "settings": None, "extra": {"history": self.log}})

    def case(self, s):
        self.lab = False
        self.log = []
        self.ptext = ""
        self.S = dict(DEFAULTS)
        self.results = None  # the results in view
        self.kept = []  # the tabs of results
        self.compared = self.effective = self.back = self.saved = 0
        self.varied = False
        self.memo = {}
        self.text = c22.gen_model(s, True)
        path = self.drv.scratch.write("m.xml", self.text)
        try:
            if s.bool(0.4):
                self.ptext, S = gen_project(s, ["m.xml"])
                pp = self.drv.scratch.write("p.xml", self.ptext)
                self.ask("win", "")
                r = self.ask("project", "project=" + pp)
                st = self.ask("read", path)["read"]
                ok = not (S["prob"] and any(b["expr"] is None for b in st["basic"].values()))
                if r["out"]["accepted"] != ok:
                    self.fail("the project was %s: %s" % ("rejected" if ok else "accepted", r["boxes"]),
                              sig="project %s" % ok)
                if ok:
                    self.S = S
                    self.varied = True
                else:
                    r = self.ask("win", path)
            else:
                r = self.ask("win", path)
                st = self.ask("read", path)["read"]
            for b in st["basic"].values():
                b["expr"] = c22.canon_expr(b["expr"])
            self.ref = c22.Stack(st, 0)
            self.check(r, "opening")
            for _ in range(s.int(2, 10 if s.bool(0.7) else 25)):
                self.step(s)
            if not self.compared:
                self.run_(s)
                self.report(s)
        finally:
            if self.drv.p:
                self.drv.ask(["close"])
        key = None
        if self.compared and (self.varied or self.effective):
            key = str(hash(str(self.log)))
        return Result(key, sample={"text": self.text[:1200], "project": self.ptext[:600], "history": self.log[:25]},
                      tags=["alg:" + self.S["algorithm"], "approx:" + self.S["approximation"],
                            "compared %d" % min(self.compared, 5)])

    def check(self, r, what, notes=None):
        if r["index"] != getattr(self, "last_index", r["index"]) or what in ("opening",):
            self.results = None
            self.kept = []
        self.last_index = r["index"]
        super().check(r, what, notes)
        tops = -1 if self.results is None else len(self.results)
        if r["report"] != tops:
            self.fail("after %s: %d results in view, not %d" % (what, r["report"], tops), sig="stale:%s" % what)
        if r["export"] != (self.results is not None):
            self.fail("after %s: exporting is %s" % (what, r["export"]), sig="export:%s" % what)
        tabs = ["Gates", "Basic Events", "House Events"] + self.kept
        if sorted(r["tabs"]) != sorted(tabs):
            self.fail("after %s: the tabs are %s, not %s" % (what, r["tabs"], tabs), sig="tabs:%s" % what)

    def step(self, s):
        what = s.weighted([(3, "settings"), (4, "run"), (3 if self.results else 0, "report"),
                           (3, "edit"), (1, "travel"), (1 if self.results else 0, "export"), (1, "filter")])
        if what == "settings":
            self.settings(s)
        elif what == "run":
            self.run_(s)
            if self.results is not None and s.bool(0.7):
                self.report(s)
        elif what == "report":
            self.report(s)
        elif what == "edit":
            self.win_step(s)
        elif what == "travel":
            self.travel(s)
        elif what == "export":
            self.export(s)
        else:
            self.filter(s)

    def settings(self, s):
        inputs = gen_inputs(s)
        ok = s.bool(0.85)
        r = self.ask("settings", "do=" + ",".join(inputs), "accept=%d" % ok)
        if "out" not in r or "settings" not in r["out"]:
            self.fail("no settings dialog: %s" % r["boxes"], sig="no settings dialog")
        seen = r["out"]["settings"]
        first = d = shown(self.S)
        for i, got in enumerate(seen):
            if i:
                d = click(d, inputs[i - 1])
            if got != d:
                diff = {k: (got.get(k), d[k]) for k in d if got.get(k) != d[k]}
                self.fail("the settings dialog shows (is, must be) %s %s" %
                          (diff, "after " + inputs[i - 1] if i else "at first"),
                          sig="dialog:%s:%s" % (inputs[i - 1].split(":")[0] if i else "", sorted(diff)))
        if ok:
            new = accept(self.S, first, d)
            self.varied |= new != self.S
            self.S = new
        self.check(r, "settings", [])

    def run_(self, s):
        r = self.ask("run")
        st = self.ref.st
        missing = self.S["prob"] and any(b["expr"] is None for b in st["basic"].values())
        box = any(b[0] == "box" for b in r["boxes"])
        if missing != box:
            self.fail("run: %s" % (r["boxes"] or "no message about missing expressions"), sig="run:%s" % missing)
        if not missing:
            self.kept = []
            tops = [g for t in st["ft"].values() for g in t["tops"]]
            self.results = {g: (one_tree(st, g), dict(self.S)) for g in tops}
        self.check(r, "run", [])

    def expected(self, g):
        """The results of the library."""
        text, S = self.results[g]
        st = {"algorithm": S["algorithm"]}
        if S["pi"]:
            st["prime_implicants"] = True
        st["approximation"] = S["approximation"]
        st.update(probability=S["prob"], importance=S["imp"], limit_order=S["order"], mission_time=S["time"])
        k = text + str(st)
        if k not in self.memo:
            if "<atleast" not in text and "<or" not in text and len(text) > 30000:
                raise Discard("large")
            r = self.lib.run_ok(text, st)
            x = [x for x in r["run"]["results"] if x.get("gate") == g]
            if len(x) != 1:
                raise AssertionError("no result for %s" % g)
            self.memo[k] = x[0]
        return self.memo[k], S

    def report(self, s):
        if not self.results:
            return
        keep = s.bool(0.3)
        sort = s.choice(["0:a", "0:d", "1:a", "1:d", "2:a", "2:d", "3:d", "6:a", "7:d"])
        find = self.pattern(s)
        r = self.ask("report", "keep=%d" % keep, "sort=" + sort, "find=" + find)
        rep = r["out"]["report"]
        names = [x[0] for x in rep]
        if sorted(names) != sorted(self.results):
            self.fail("report: results for %s, not %s" % (names, sorted(self.results)), sig="report:gates")
        for g, kids in rep:
            x, S = self.expected(g)
            if len(kids) != 1 + S["prob"] + S["imp"]:
                self.fail("report: %d results of %s with %s" % (len(kids), g, S), sig="report:kinds")
            self.products(g, kids[0], x, S, sort, find)
            if S["prob"]:
                m = re.fullmatch(r"Probability \((.*)\)", kids[1]["text"])
                if not m or not close(float(m.group(1)), x["p"], 1e-5):
                    self.fail("report: %s of %s, not %r" % (kids[1]["text"], g, x["p"]), sig="report:p")
                if "tab" in kids[1]:
                    self.fail("report: the probability opens a tab", sig="report:ptab")
            if S["imp"]:
                self.importance(g, kids[2], x, sort, find)
            if keep:
                self.kept += [k["tab"] for k in kids if "tab" in k]
            self.compared += bool(x["products"])
        self.check(r, "report", [])

    def pattern(self, s):
        st = self.ref.st
        n = s.choice(sorted(c22.used_names(st)) or ["a"])
        return s.choice([n, n[0], "^" + n, n[-1] + "$", n + "|a", "zzz", "[ab]", NEG if s.bool(0.5) else "p.*1"])

    def found(self, g, what, e, find):
        rows = e["rows"][1:]
        want = [x for x in rows if re.search(find, x[0])]
        if sorted(e["found"][1:]) != sorted(want):
            self.fail("report: the search for %r in the %s of %s shows %s, not %s"
                      % (find, what, g, e["found"][1:6], want[:5]), sig="report:search")

    def order(self, what, rows, col, desc, number):
        v = [float(x[col]) if number else x[col] for x in rows]
        if any((a < b if desc else a > b) for a, b in zip(v, v[1:])):
            self.fail("report: the %s are not sorted by column %d: %s" % (what, col, v[:8]), sig="report:sort %s %d" % (what, col))

    def products(self, g, e, x, S, sort, find):
        if e["text"] != "Products (%d)" % x["n"]:
            self.fail("report: %s of %s, not %d" % (e["text"], g, x["n"]), sig="report:count")
        if e.get("tab") != "Products: " + g:
            self.fail("report: the products of %s open %s" % (g, e.get("tab")), sig="report:tab")
        head = ["Product", "Order"] + (["Probability", "Contribution"] if S["prob"] else [])
        rows = e["rows"][1:]
        if e["rows"][0] != head:
            self.fail("report: columns %s" % e["rows"][0], sig="report:columns")
        got = {}
        for row in rows:
            k = frozenset(row[0].split(DOT)) if row[0] else frozenset()
            if k in got:
                self.fail("report: the product %s is there twice" % row[0], sig="report:twice")
            got[k] = row
        want = {}
        for i, p in enumerate(x["products"]):
            want[frozenset(l.replace("~", NEG) for l in p)] = (len(p), x["pp"][i] if S["prob"] else 0)
        if set(got) != set(want):
            self.fail("report: the products of %s are %s, not %s" % (
                g, [sorted(k) for k in set(got) - set(want)][:4], [sorted(k) for k in set(want) - set(got)][:4]),
                sig="report:products")
        total = sum(p for _, p in want.values())
        for k, row in got.items():
            n, p = want[k]
            if int(row[1]) != max(n, 1):
                self.fail("report: %s has order %s" % (row[0], row[1]), sig="report:order")
            if S["prob"]:
                if not close(float(row[2]), p, 1e-9):
                    self.fail("report: %s has probability %s, not %r" % (row[0], row[2], p), sig="report:pp")
                if not close(float(row[3]), p / total if total else 0, 1e-9):
                    self.fail("report: %s has contribution %s, not %r" % (row[0], row[3], p / total if total else 0),
                              sig="report:contribution")
        self.order("products", rows, *((2, True, True) if S["prob"] else (1, False, True)))
        c, d = sort.split(":")
        if "sorted" in e:
            if sorted(e["sorted"][1:]) != sorted(rows):
                self.fail("report: sorting changes the products", sig="report:sort set")
            self.order("products", e["sorted"][1:], int(c), d == "d", c != "0")
        self.found(g, "products", e, find)

    def importance(self, g, e, x, sort, find):
        want = x["importance"]
        if e["text"] != "Importance Factors (%d)" % len(want):
            self.fail("report: %s of %s, not %d" % (e["text"], g, len(want)), sig="report:imp count")
        if e.get("tab") != "Importance: " + g:
            self.fail("report: the importance of %s opens %s" % (g, e.get("tab")), sig="report:tab")
        if e["rows"][0] != ["ID", "Occurrence", "Probability", "MIF", "CIF", "DIF", "RAW", "RRW"]:
            self.fail("report: columns %s" % e["rows"][0], sig="report:columns")
        rows = e["rows"][1:]
        if sorted(r[0] for r in rows) != sorted(want):
            self.fail("report: importance of %s, not %s" % (sorted(r[0] for r in rows), sorted(want)), sig="report:imp ids")
        st = self.ref.st
        T = self.results[g][1]["time"]
        for row in rows:
            w = want[row[0]]
            p = prob(st["basic"][row[0]]["expr"], T)
            v = [w[0], p] + w[1:6]
            for i, (a, b) in enumerate(zip(row[1:], v)):
                if not close(float(a), b, 1e-9):
                    self.fail("report: %s of %s is %s, not %r" % (e["rows"][0][i + 1], row[0], a, b),
                              sig="report:imp %s" % e["rows"][0][i + 1])
        c, d = sort.split(":")
        if "sorted" in e:
            if sorted(e["sorted"][1:]) != sorted(rows):
                self.fail("report: sorting changes the factors", sig="report:sort set")
            if not any(v != v for r in rows for v in [float(r[int(c)]) if c != "0" else 0]):
                self.order("importance", e["sorted"][1:], int(c), d == "d", c != "0")
        self.found(g, "importance", e, find)

    def export(self, s):
        if not self.results:
            return
        path = self.drv.scratch.path("out.xml")
        if os.path.exists(path):
            os.unlink(path)
        r = self.ask("export", "path=" + (path if s.bool(0.9) else ""))
        if any(b[0] == "box" for b in r["boxes"]):
            self.fail("export: %s" % r["boxes"], sig="export:box")
        if os.path.exists(path):
            self.compare_report(ET.parse(path).getroot())
            os.unlink(path)
        self.check(r, "export", [])

    def compare_report(self, root):
        S = next(iter(self.results.values()))[1]
        info = root.find("information")

        def text(p):
            x = info.find(p)
            return None if x is None else x.text
        quantities = {c.get("name"): c for c in info.findall("calculated-quantity")}
        lim = {}
        alg = None
        for c in quantities.values():
            for m in c.findall("calculation-method"):
                lim.update({l.tag: l.text for l in m.iter() if l.text and l.text.strip()})
                alg = alg or m.get("name")
        qualitative = {"zbdd": "Zero-Suppressed Binary Decision Diagram", "bdd": "Binary Decision Diagram",
                       "mocus": "MOCUS"}[S["algorithm"]]
        if alg != qualitative:
            self.fail("export: the method is %s, not %s" % (alg, S["algorithm"]), sig="export:algorithm")
        named = " ".join(quantities)
        for flag, word in (("pi", "Prime Implicants"), ("prob", "Probability"), ("imp", "Importance"),
                           ("unc", "Uncertainty")):
            if (word in named) != S[flag]:
                self.fail("export: the quantities are %s with %s" % (sorted(quantities), S), sig="export:" + flag)
        want = {"product-order": S["order"]}
        if S["prob"]:
            want["mission-time"] = S["time"]
            if S["step"]:
                want["time-step"] = S["step"]
        if S["unc"]:
            want["number-of-trials"] = S["trials"]
            if S["seed"] is not None:
                want["seed"] = S["seed"]
        for k, v in want.items():
            if k not in lim or not close(float(lim[k]), v, 1e-5):
                self.fail("export: %s is %s, not %s" % (k, lim.get(k), v), sig="export:" + k)
        sums = {x.get("name"): x for x in root.iter("sum-of-products")}
        if set(sums) != set(self.results):
            self.fail("export: results for %s" % sorted(sums), sig="export:gates")
        for g, x in sums.items():
            w, S = self.expected(g)
            got = set()
            for p in x.findall("product"):
                lits = set()
                for c in p:
                    lits.add(NEG + c[0].get("name") if c.tag == "not" else c.get("name"))
                got.add(frozenset(lits))
            want = {frozenset(l.replace("~", NEG) for l in p) for p in w["products"]}
            if got != want or int(x.get("products")) != w["n"]:
                self.fail("export: the products of %s differ" % g, sig="export:products")
            if S["prob"] and not close(float(x.get("probability")), w["p"], 1e-5):
                self.fail("export: probability %s, not %r" % (x.get("probability"), w["p"]), sig="export:p")

    def filter(self, s):
        st = self.ref.st
        kind = s.choice(["gate", "basic", "house"])
        find = self.pattern(s)
        sort = s.choice(["0:a", "0:d"])
        r = self.ask("filter", "kind=" + kind, "find=" + find, "sort=" + sort)
        o = r["out"]
        names = [x[0] for x in o["rows"][1:]]
        if sorted(names) != sorted(st[kind]):
            self.fail("filter: rows %s" % names, sig="filter:rows")
        got = sorted(x[0] for x in o["found"][1:])
        if got != sorted(n for n in st[kind] if re.search(find, n)):
            self.fail("filter: the search for %r shows %s of %s" % (find, got, names), sig="filter:search")
        self.order(kind + " table", o["sorted"][1:], 0, sort[-1] == "d", False)
        self.check(r, "filter", [])


def prob(x, T):
    import math
    if x is None:
        return float("nan")
    if x[0] == "const":
        return float(x[1])
    lam = float(x[1][1])
    t = T if x[2] == "time" else float(x[2][1])
    return -math.expm1(-lam * t)
