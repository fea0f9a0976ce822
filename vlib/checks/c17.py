"""C17 contents and validity of reports."""
import hashlib
import math
import os
import xml.etree.ElementTree as ET

from .. import sink
from ..base import DrvCheck
from ..build import REPO
from ..driver import Cli
from ..engine import Result
from ..ft import show
from ..results import CCF
from .c18 import command_line, settings, strip

SCHEMA = os.path.join(REPO, "share/report.rng")
METHOD = {"none": "Binary Decision Diagram", "rare-event": "Rare-Event Approximation",
          "mcub": "MCUB Approximation"}
ALGORITHM = {"bdd": "Binary Decision Diagram", "mocus": "MOCUS",
             "zbdd": "Zero-Suppressed Binary Decision Diagram"}


def number(text):
    """xs:double"""
    return {"INF": math.inf, "-INF": -math.inf, "NaN": math.nan}.get(text) \
        if text in ("INF", "-INF", "NaN") else float(text)


def printed(text, value):
    """Whether the text is the value to the printed precision."""
    v = float(value)
    x = number(text)
    if math.isnan(v) or math.isnan(x):
        return math.isnan(v) and math.isnan(x)
    if math.isinf(v) or math.isinf(x):
        return v == x
    return abs(x - v) <= 6e-6 * abs(v) + 1e-300


class C17(DrvCheck):
    id = "C17"
    rule = ("an analysed model with results of at least two kinds, or several top events, "
            "sequences or phases; distinct by inputs and settings")
    quick_cases = 9000
    quick_wall = 45
    thorough_cases = 250000
    thorough_wall = 700
    targets = ("sdrv", "scram", "clidrv")
    assumptions = [
        "validity is decided by libxml2's RELAX NG validator with share/report.rng",
        "numbers have the six significant digits of the report; order within a report is not significant",
        "the results themselves (API) are judged by C01 to C12; products, counts, distribution, contributions and the order of top events are recomputed here",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])

    def close(self):
        super().close()
        self.cli.close()

    def case(self, s):
        y = sink.gen_sys(s, ets=0.3, ccf=0.3, aligns=0.2, subs=0.1, devs=0.5,
                         max_basic=s.choice([6, 8]), max_gates=s.choice([6, 10]))
        if y.world and not y.world.formulas and s.bool(0.4):
            y.ft.gates.clear()      # sequences of expressions alone
        nd = any(sub.source for sub in y.subs)
        st = settings(s, nd)
        if s.bool(0.2):
            st["limit_order"] = s.choice([0, 1, 2])
        if s.bool(0.1):
            st["mission_time"] = s.choice([0.0, 1e-3, 1e6])
            if st.get("time_step"):
                st["time_step"] = st["mission_time"] / 3 or 1.0
        if not st.get("time_step") and s.bool(0.1):
            st["time_step"] = st["mission_time"] or 1.0
            st["sil"] = True
        lay = sink.Layout(s, y, depth=s.int(0, 2), names=s.choice(["plain", "fancy"]),
                          meta=s.choice([0, 0.3]), nfts=s.choice([1, 3]))
        files, use = lay.files(n=s.choice([1, 2]))
        indent = s.bool()
        path = self.drv.scratch.path("report.xml")
        r = self.run_ok(files, st, use=use, report=path, indent=indent, validate=path,
                        schema=SCHEMA)
        with open(path, "rb") as f:
            text = f.read()
        self.text = text
        if not r["valid"]:
            self.bad("the report is not valid: " + r["valid_errors"], self.schema_sig(r["valid_errors"]))
        if "run" not in r:
            self.fail("no results: %r" % r)
        root = ET.fromstring(text)
        self.information(root.find("information"), y, lay, files, st, r["run"])
        n = self.results(root.find("results"), y, lay, st, r["run"])
        if s.bool(0.12) and (st["algorithm"] == "bdd" or st["approximation"] != "none"):
            self.command(s, st, files, use, indent, text)
        kinds = [k for k in ("probability", "importance", "uncertainty", "sil", "time_step") if st.get(k)]
        key = None
        if len(r["run"]["results"]) > 1 or len(kinds) > 1:
            key = hashlib.sha1(repr((files, st)).encode()).hexdigest()
        tags = kinds + (["indent"] if indent else ["compact"])
        tags += [t for t, v in (("event tree", y.world), ("ccf", y.groups and st["ccf"]),
                                ("phases", y.aligns), ("substitutions", y.subs),
                                ("complements", b"<not>" in text),
                                ("ccf events", b"<ccf-event" in text),
                                ("warnings", b"warning" in text)) if v]
        return Result(key, {"tree": show(y.ft)[:300], "settings": st, "entries": n}, tags)

    def bad(self, msg, sig):
        self.fail(msg, sig=sig, extra={"report": self.text.decode("utf-8", "replace")[:30000]})

    def schema_sig(self, e):
        import re
        e = re.sub(r"line \d+: ", "", e)
        e = re.sub(r"[-+]?\d[\d.e+-]*", "#", e)
        return "schema: " + e.replace("\n", " ")[:150]

    def same(self, el, attr, value, what, tag=None):
        t = el.get(attr)
        if t is None or not printed(t, value):
            self.bad("%s: %s=%r; computed %r" % (what, attr, t, value),
                     "%s %s" % (tag or el.tag, attr))

    # -- the information section ------------------------------------------------

    def information(self, info, y, lay, files, st, run):
        q = [(e.get("name"), e) for e in info.findall("calculated-quantity")]
        want = ["Prime Implicants" if st.get("prime_implicants") else "Minimal Cut Sets"]
        if st.get("ccf"):
            want.append("Common Cause Failure Analysis")
        # The analyses that need probabilities bring the probability analysis.
        prob = st["probability"]
        for k, n in (("importance", "Importance Analysis"), ("uncertainty", "Uncertainty Analysis"),
                     ("sil", "Safety Integrity Levels")):
            if st.get(k):
                want.append(n)
                prob = True
        if prob:
            want.append("Probability Analysis")
        self.prob = prob
        if sorted(want) != sorted(n for n, _ in q):
            self.bad("quantities %s; asked for %s" % (sorted(n for n, _ in q), sorted(want)),
                     "calculated quantities")
        q = dict(q)

        def text(n, p):
            e = q[n].find("calculation-method/" + p)
            return None if e is None else e.text

        def meth(n, v):
            m = q[n].find("calculation-method").get("name")
            if m != v:
                self.bad("%s by %r; asked for %r" % (n, m, v), "method of " + n)

        def limit(n, k, v):
            t = text(n, "limits/" + k)
            if (t is None) != (v is None) or (t is not None and not printed(t, v)):
                self.bad("%s: %s is %r; asked for %r" % (n, k, t, v), "limit " + k)
        meth(want[0], ALGORITHM[st["algorithm"]])
        limit(want[0], "product-order", st["limit_order"])
        if prob:
            n = "Probability Analysis"
            meth(n, METHOD[st["approximation"]])
            if q[n].get("approximation") != st["approximation"]:
                self.bad("approximation %r" % q[n].get("approximation"), "approximation")
            limit(n, "mission-time", st["mission_time"])
            limit(n, "time-step", st.get("time_step") or None)
        if st.get("uncertainty"):
            n = "Uncertainty Analysis"
            limit(n, "number-of-trials", st["num_trials"])
            limit(n, "seed", st.get("seed"))
        # Features.
        feat = info.find("model-features")
        if feat.get("name") != lay.model_name:
            self.bad("model %r; named %r" % (feat.get("name"), lay.model_name), "model name")
        count = {}
        for n, t in files:
            for e in ET.fromstring(t).iter():
                k = e.tag.replace("define-", "")
                if e.tag.startswith("define-"):
                    count[k] = count.get(k, 0) + 1
                elif e.tag == "members":
                    count["basic-event"] = count.get("basic-event", 0) + len(e)
        names = {"gate": "gates", "basic-event": "basic-events", "house-event": "house-events",
                 "CCF-group": "ccf-groups", "fault-tree": "fault-trees",
                 "event-tree": "event-trees", "functional-event": "functional-events",
                 "sequence": "sequences", "rule": "rules",
                 "initiating-event": "initiating-events", "substitution": "substitutions"}
        want = {v: count[k] for k, v in names.items() if k in count}
        got = {e.tag: int(e.text) for e in feat}
        if got != want:
            self.bad("features %s; the files have %s" % (got, want), "model features")
        # Unused elements.
        want = {k: v for k, v in self.unused(y, lay).items() if v}
        got = {}
        for w in info.findall("warning"):
            h, _, t = w.text.partition(": ")
            if h in got:
                self.bad("two warnings: " + h, "warnings")
            got[h] = t.split(" ")
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()}:
            k = [k for k in sorted(set(got) | set(want)) if sorted(got.get(k, [])) != sorted(want.get(k, []))][0]
            self.bad("%s: %s; expected %s" % (k, got.get(k), want.get(k)), "warning: " + k)
        # Timings: one entry for each result.
        perf = info.find("performance")
        times = [] if perf is None else [self.entry_id(e) for e in perf]
        if sorted(times, key=repr) != sorted((self.result_id(x) for x in run["results"]), key=repr):
            self.bad("timings of %s" % times, "timings")

    def unused(self, y, lay):
        used = {"g": set(), "b": set(), "h": set(), "p": set()}
        rules, trees, seqs, inits = set(), set(), set(), set()

        def formula(f):
            for _, k, r in f[1]:
                if k != "c":
                    used[k].add(r)

        def expr(a):
            if a is not None:
                used["p"] |= sink.expr_params(a)

        def instr(i):
            if i is None:
                return
            k = i[0]
            if k == "collect" and y.world.formulas:
                formula(i[1])
            elif k == "if":
                instr(i[2])
                instr(i[3])
            elif k == "block":
                for x in i[1]:
                    instr(x)
            elif k == "rule":
                rules.add(i[1])
            elif k == "link":
                trees.add(y.world.trees[i[1]].name)
        for f in y.ft.gates.values():
            formula(f)
        for b, a in y.ft.basics.items():
            if b not in y.members():
                expr(a)
        for a in y.params.values():
            expr(a)
        for g in y.groups:
            if g.q[0] == "param":
                used["p"].add(g.name + "_q")
        for sub in y.subs:
            for n in self.sub_events(sub):
                used["b"].add(n)
        out = {}
        if y.world:
            w = y.world
            for n, ti in w.inits:
                if ti is not None:
                    inits.add(n)
                    trees.add(w.trees[ti].name)
            for t in w.trees:
                brs, fes = set(), set()

                def branch(b):
                    for i in b[0]:
                        instr(i)
                    if b[1][0] == "seq":
                        seqs.add(b[1][1])
                    elif b[1][0] == "branch":
                        brs.add(b[1][1])
                    else:
                        fes.add(b[1][1])
                        for _, x in b[1][2]:
                            branch(x)
                branch(t.initial)
                for b in t.branches.values():
                    branch(b)
                head = "In event tree %s, unused " % t.name
                out[head + "branches"] = [b for b in t.branches if b not in brs]
                out[head + "functional events"] = [f for f in t.fes if f not in fes]
            for ins in list(w.seqs.values()) + list(w.rules.values()):
                for i in ins:
                    instr(i)
            out["Unused initiating events"] = [n for n, _ in w.inits if n not in inits]
            out["Unused event trees"] = [t.name for t in w.trees if t.name not in trees]
            out["Unused sequences"] = [q for q in w.seqs if q not in seqs]
            out["Unused rules"] = [r for r in w.rules if r not in rules]
        for k, n in (("b", "Unused basic events"), ("h", "Unused house events"),
                     ("p", "Unused parameters")):
            out[n] = [e.id for (kk, x), e in lay.ents.items() if kk == k and x not in used[k]]
        return out

    def sub_events(self, sub):
        """Basic events of a substitution."""
        return set(sub.events()) | set(sub.source or ()) | \
            ({sub.target} if isinstance(sub.target, str) else set())

    # -- the results section ----------------------------------------------------

    def entry_id(self, e):
        return (e.get("name"), e.get("initiating-event"), e.get("alignment"), e.get("phase"))

    def result_id(self, x):
        return (x.get("gate", x.get("seq")), x.get("init"), x.get("alignment"), x.get("phase"))

    def results(self, el, y, lay, st, run):
        phases = [(a, p[0]) for a, ph in y.aligns for p in ph] or [(None, None)]
        tops = {lay.ents["g", g].id for g in lay.tops()}
        for ph in phases:
            got = sorted(x["gate"] for x in run["results"]
                         if "gate" in x and (x.get("alignment"), x.get("phase")) == ph)
            if got != sorted(tops):
                self.bad("top events %s analysed in %s; expected %s" % (got, ph, sorted(tops)),
                         "top events")
        want = {}
        for x in run["results"]:
            i = self.result_id(x)
            if "products" in x:
                want["sum-of-products", i] = x
            if x.get("p_time"):
                want["curve", i] = x
            if "pfd" in x:
                want["safety-integrity-levels", i] = x
            if "importance" in x:
                want["importance", i] = x
            if "unc" in x:
                want["measure", i] = x
        if self.prob:
            for e in run["eta"]:
                want["initiating-event", (e["init"], None, e.get("alignment"), e.get("phase"))] = e
        got = {}
        for e in ([] if el is None else el):
            k = (e.tag, self.entry_id(e))
            if k in got:
                self.bad("two entries for %s" % (k,), "entries")
            got[k] = e
        if set(got) != set(want):
            d = sorted(set(got) ^ set(want), key=repr)[0]
            self.bad("%s entry for %s" % ("an unexpected" if d in got else "no", d), "entries of " + d[0])
        for k in sorted(got, key=repr):
            getattr(self, "e_" + k[0].replace("-", "_"))(got[k], want[k], st, lay)
        # What was asked for must be there (given what can be analysed).
        for x in run["results"]:
            only = "products" not in x
            for f, on in (("p", self.prob), ("unc", st.get("uncertainty")),
                          ("importance", st.get("importance") and not only)):
                if (f in x) != bool(on):
                    self.bad("%s of %s" % (f, self.result_id(x)), "analyses performed")
            if only and "init" not in x:
                self.bad("no products of %s" % (self.result_id(x),), "analyses performed")
            if bool(x.get("p_time")) != bool(self.prob and st.get("time_step")):
                self.bad("curve of %s" % (self.result_id(x),), "analyses performed")
            if ("pfd" in x) != bool(st.get("sil")):
                self.bad("SIL of %s" % (self.result_id(x),), "analyses performed")
        return len(got)

    def event(self, e, lay):
        """The id of a reported event."""
        if e.tag == "basic-event":
            return e.get("name")
        m = [x.get("name") for x in e]
        if int(e.get("order")) != len(m) or len(set(m)) != len(m):
            self.bad("common-cause event of order %s: %s" % (e.get("order"), m), "ccf order")
        for n, g in lay.groups.items():
            if g.id != e.get("ccf-group"):
                continue
            members = [x.name for x in lay.ents.values() if x.group is g]
            if not set(m) <= set(members) or int(e.get("group-size")) != len(members):
                self.bad("group %s of size %s has members %s; %s are reported"
                         % (g.id, e.get("group-size"), members, m), "ccf group")
            return ("" if g.public else g.base + ".", frozenset(m))
        self.bad("no group %s" % e.get("ccf-group"), "ccf group")

    def ident(self, i):
        """The same for an id."""
        c = CCF.match(i)
        if not c:
            return i
        return (c.group(1) + "." if c.group(1) else "", frozenset(c.group(2).split(" ")))

    def e_sum_of_products(self, e, x, st, lay):
        prods = {}
        for p in e.findall("product"):
            lits = []
            for k in p:
                neg = k.tag == "not"
                lits.append((neg, self.event(k[0] if neg else k, lay)))
            if len(set(lits)) != len(lits):
                self.bad("a literal is listed twice", "products")
            if int(p.get("order")) != (len(lits) or 1):
                self.bad("order %s of %s" % (p.get("order"), lits), "product order")
            f = frozenset(lits)
            if f in prods:
                self.bad("the product %s is listed twice" % lits, "products")
            prods[f] = p
        want = {}
        for i, p in enumerate(x["products"]):
            f = frozenset((l[0] == "~", self.ident(l.lstrip("~"))) for l in p)
            want[f] = x["pp"][i] if self.prob else None
        if set(prods) != set(want):
            d = list(set(prods) ^ set(want))[0]
            self.bad("products: %s %s" % (sorted(d, key=repr), "reported" if d in prods else "computed"), "products")
        if int(e.get("products")) != len(want):
            self.bad("products=%s; there are %d" % (e.get("products"), len(want)), "number of products")
        evs = {l[1] for f in want for l in f}
        if int(e.get("basic-events")) != len(evs):
            self.bad("basic-events=%s; the products have %d" % (e.get("basic-events"), len(evs)),
                     "number of events")
        orders = [max(1, len(f)) for f in want]
        dist = [orders.count(i + 1) for i in range(max(orders))] if orders else None
        d = e.get("distribution")
        if (None if d is None else [int(v) for v in d.split()]) != dist:
            self.bad("distribution=%r; expected %s" % (d, dist), "distribution")
        if self.prob:
            self.same(e, "probability", x["p"], "top event")
            tot = math.fsum(want.values())
            for f, p in prods.items():
                self.same(p, "probability", want[f], "product")
                if tot:
                    self.same(p, "contribution", want[f] / tot, "product")
        elif e.get("probability") is not None or any(
                p.get("probability") or p.get("contribution") for p in prods.values()):
            self.bad("probabilities without an analysis", "probability not asked for")
        self.warning(e, x["fta_warnings"], x.get("pa_warnings", ""))
        trivial = not x["products"] or x["products"] == [[]]
        kind = "EMPTY" if not x["products"] else "UNITY" if trivial else ""
        w = (e.get("warning") or "").upper()
        for k in ("EMPTY", "UNITY"):
            if (k in w) != (k == kind):
                self.bad("warning %r for %d products" % (e.get("warning"), len(x["products"])), "warning of a trivial set")

    def warning(self, e, *parts):
        w = e.get("warning")
        parts = [p for p in parts if p]
        if (w is None) != (not parts) or any(p not in w for p in parts):
            self.bad("warning %r; expected %s" % (w, parts), "warning of " + e.tag)

    def e_curve(self, e, x, st, lay):
        pts = e.findall("point")
        if len(pts) != len(x["p_time"]):
            self.bad("%d points; %d computed" % (len(pts), len(x["p_time"])), "curve")
        for a, (p, t) in zip(sorted(pts, key=lambda a: number(a.get("X"))),
                             sorted(x["p_time"], key=lambda v: v[1])):
            self.same(a, "X", t, "curve")
            self.same(a, "Y", p, "curve")
        if e.get("X-unit") != "hours" or e.get("Y-unit"):
            self.bad("units of the curve", "curve units")

    def intervals(self, el, want, what):
        """want: [(lower, upper, value)]"""
        b = list(el)
        if int(el.get("number")) != len(want) or len(b) != len(want):
            self.bad("%s: %s bins, %d listed; %d computed" % (what, el.get("number"), len(b), len(want)), what)
        for i, (a, (lo, hi, v)) in enumerate(zip(b, want)):
            self.same(a, "number", i + 1, what, what)
            self.same(a, "lower-bound", lo, what, what)
            self.same(a, "upper-bound", hi, what, what)
            self.same(a, "value", v, what, what)

    def e_safety_integrity_levels(self, e, x, st, lay):
        self.same(e, "PFD-avg", x["pfd_avg"], "SIL")
        self.same(e, "PFH-avg", x["pfh_avg"], "SIL")
        for h, k in zip(e.findall("histogram"), ("pfd", "pfh")):
            lo = 0
            want = []
            for b, v in x[k]:
                want.append((lo, b, v))
                lo = b
            self.intervals(h, want, k + " histogram")

    def e_importance(self, e, x, st, lay):
        got = {}
        for k in e:
            i = self.event(k, lay)
            if i in got:
                self.bad("%s listed twice" % (i,), "importance")
            got[i] = k
        want = {self.ident(i): v for i, v in x["importance"].items()}
        if set(got) != set(want):
            self.bad("importance of %s; computed for %s" % (list(got), list(want)), "importance events")
        if int(e.get("basic-events")) != len(want):
            self.bad("basic-events=%s of %d" % (e.get("basic-events"), len(want)), "importance events")
        for i, v in want.items():
            for k, a in zip(("occurrence", "MIF", "CIF", "DIF", "RAW", "RRW"), v):
                self.same(got[i], k, a, "importance of %s" % (i,), "importance")
        self.warning(e, x["imp_warnings"])

    def e_measure(self, e, x, st, lay):
        u = x["unc"]
        self.same(e.find("mean"), "value", u["mean"], "mean", "mean")
        self.same(e.find("standard-deviation"), "value", u["sigma"], "sigma", "sigma")
        c = e.find("confidence-range")
        self.same(c, "percentage", 95, "confidence")
        self.same(c, "lower-bound", u["ci"][0], "confidence")
        self.same(c, "upper-bound", u["ci"][1], "confidence")
        f = e.find("error-factor")
        self.same(f, "percentage", 95, "error factor")
        self.same(f, "value", u["ef"], "error factor")
        n = len(u["quant"])
        if n != st["num_quantiles"]:
            self.bad("%d quantiles" % n, "quantiles")
        lo, want = 0, []
        for i, v in enumerate(u["quant"]):
            want.append((lo, v, (i + 1) / n))
            lo = v
        self.intervals(e.find("quantiles"), want, "quantiles")
        h = u["hist"]
        if len(h) - 1 != st["num_bins"]:
            self.bad("%d bins" % (len(h) - 1), "bins")
        self.intervals(e.find("histogram"),
                  [(h[i][0], h[i + 1][0], h[i][1]) for i in range(len(h) - 1)], "histogram")
        self.warning(e, u["warnings"])

    def e_initiating_event(self, e, x, st, lay):
        got = {}
        for q in e.findall("sequence"):
            if q.get("name") in got:
                self.bad("sequence %s listed twice" % q.get("name"), "sequences")
            got[q.get("name")] = q
        want = {q["name"]: q["p"] for q in x["seqs"]}
        if set(got) != set(want) or int(e.get("sequences")) != len(want):
            self.bad("sequences=%s: %s; computed %s" % (e.get("sequences"), sorted(got), sorted(want)), "sequences")
        for n, p in want.items():
            self.same(got[n], "value", p, "sequence " + n)

    # -- the tool ---------------------------------------------------------------

    def command(self, s, st, files, use, indent, text):
        """The command line writes the same report to files and standard output."""
        names = []
        for i, (n, t) in enumerate(files):
            p = self.cli.scratch.write(n, t)
            if use is None or i in use:
                names.append(p)
        args = command_line(st) + names
        if not indent:
            args.append("--no-indent")
        out = None
        if s.bool():
            out = self.cli.scratch.path("cli.xml")
            args += ["-o", out]
        rc, got, err = self.cli.run(args)
        if rc != 0:
            self.bad("the tool failed: %s" % err.decode("utf-8", "replace"), "tool status")
        if out:
            with open(out, "rb") as f:
                got = f.read()
        norm = lambda b: b"".join(sorted(strip(b).split(b"\n")))
        if norm(got) != norm(text) and st.get("seed") is not None:
            self.bad("the tool's report differs from the library's:\n" + got.decode("utf-8", "replace")[:5000],
                     "tool report")

