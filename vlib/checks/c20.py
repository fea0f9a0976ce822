"""C20 options from the command line and the project file."""
import os
import re
import xml.etree.ElementTree as ET

from ..driver import Cli, run_cli
from ..engine import Check, Fail, Result
from ..xmlw import E, esc
from .c18x import canon, differs

DEFAULTS = {"algo": "bdd", "pi": False, "approx": "none", "order": 20,
            "cut-off": 1e-8, "mission": 8760.0, "step": 0.0, "trials": 1000,
            "quantiles": 20, "bins": 20, "seed": 0, "prob": False, "imp": False,
            "unc": False, "ccf": False, "sil": False}
ALGOS = ("bdd", "zbdd", "mocus")
FLAGS = {"prob": "probability", "imp": "importance", "unc": "uncertainty",
         "ccf": "ccf", "sil": "sil"}
LIMITS = {"order": ("product-order", "limit-order"), "cut-off": ("cut-off", "cut-off"),
          "mission": ("mission-time", "mission-time"), "step": ("time-step", "time-step"),
          "trials": ("number-of-trials", "num-trials"),
          "quantiles": ("number-of-quantiles", "num-quantiles"),
          "bins": ("number-of-bins", "num-bins"), "seed": ("seed", "seed")}
REAL = ("cut-off", "mission", "step")
LOW = {"order": 0, "trials": 1, "quantiles": 1, "bins": 1, "seed": 0}


class Reject(Exception):
    pass


def text_real(src, v):
    s = repr(v)
    return src.choice([s, s, "%.17e" % v, "0" + s if v else s])


def int_ok(s):
    return re.fullmatch(r"[+-]?\d+", s) is not None


def limit(src, k, bad):
    """(text, value): value None when it must be rejected."""
    if bad:
        pool = ["-1", "-2147483648", "2147483648", "99999999999999999999", "x", "5x",
                "", "1.5", "0x10", "1e2"]
        if k in REAL:
            pool = ["-1", "-1e-300", "nan", "NaN", "x", "1x", "", "--1"]
            if k == "cut-off":
                pool += ["1.0000001", "2", "inf", "INF"]
        elif LOW[k] == 1:
            pool.append("0")
        return src.choice(pool), None
    if k == "cut-off":
        v = src.choice([0.0, 1.0, 0.5, 1e-8, 1e-300])
    elif k == "mission":
        v = src.choice([0.0, 1.0, 24.0, 100.5, 8760.0, 1e4])
    elif k == "step":
        v = src.weighted([(4, 500.0), (2, 1000.5), (2, 25.0), (2, 0.0)])
    elif k == "order":
        v = src.choice([0, 1, 2, 3, 20, 100, 2147483647])
    elif k == "trials":
        v = src.choice([1, 2, 10, 50, 77])
    elif k == "seed":
        v = src.choice([0, 1, 5, 2147483647])
    else:
        v = src.choice([1, 2, 5, 31])
    if k in REAL:
        return text_real(src, v), v
    return src.choice(["%d", "%d", "+%d", "00%d"]) % v, v


def gen_project(src, cur):
    """The elements of a project file, and what they mean (None: rejected)."""
    p = {"xml": [], "o": {}, "bad": None}
    o = p["o"]
    bad = src.bool(0.25)
    kind = src.choice(["limit", "limit", "algo", "attr", "combo", "version", "order",
                       "unknown", "flag"]) if bad else None

    def reject(why):
        p["bad"] = p["bad"] or why
    if src.bool(0.6):
        o["algo"] = src.choice(ALGOS)
        p["xml"].append(E("algorithm", {"name": o["algo"]}))
    if kind == "algo":
        p["xml"].insert(0, E("algorithm", {"name": src.choice(["best", "BDD", "", "mocus2"])}))
        reject("algorithm")
    if src.bool(0.25) and (kind == "combo" or o.get("algo", "bdd") == "bdd"):
        o["pi"] = True
        p["xml"].append(E("prime-implicants"))
    if src.bool(0.75):
        a = {}
        for k, n in FLAGS.items():
            if src.bool(0.4 if k != "sil" else 0.3):
                t = src.choice(["true", "false", "true", "1", "0"])
                o[k] = t in ("true", "1")
                a[n] = t
        if kind == "attr":
            a[src.choice(["probabilities", "prime-implicants", "CCF"])] = "true"
            reject("attribute")
        if kind == "flag":
            a["probability"] = src.choice(["yes", "2", "True", ""])
            reject("flag")
        p["xml"].append(E("analysis", a))
    if src.bool(0.35) and (kind == "combo" or not o.get("pi")):
        o["approx"] = src.choice(["rare-event", "mcub"])
        p["xml"].append(E("approximation", {"name": o["approx"]}))
    lim = E("limits")
    for k in src.shuffle(list(LIMITS)):
        if k == "step" and o.get("sil"):
            if src.bool(0.15 if kind == "combo" else 0):
                continue
        elif not src.bool(0.4):
            continue
        t, v = limit(src, k, kind == "limit" and src.bool(0.3))
        if k == "step" and o.get("sil") and v == 0 and kind != "combo":
            t, v = "500", 500.0
        if v is None:
            if t == "1e2" or (k in REAL and t == "--1"):
                t = "x"
            reject("%s=%s" % (k, t))
        else:
            o[k] = v
        lim.add(E(LIMITS[k][0], {}, src.choice(["%s", " %s ", "%s", "\n%s\n"]) % t))
    if kind == "unknown":
        lim.add(E(src.choice(["number-of-runs", "time", "limit-order"]), {}, "5"))
        reject("unknown limit")
    if lim.kids or src.bool(0.3):
        p["xml"].append(lim)
    if kind == "order" and len(p["xml"]) > 1:
        p["xml"].reverse()
        reject("element order")
    # Numbers are checked by the schema, then the rules in the order of elements.
    algo = o.get("algo", "bdd")
    if o.get("pi") and algo != "bdd":
        reject("prime implicants with " + algo)
    if o.get("pi") and "approx" in o:
        reject("prime implicants with an approximation")
    if o.get("sil") and not o.get("step"):
        reject("sil without a time step")
    p["version"] = None
    if kind == "version":
        p["version"] = src.choice([
            "%d.%d.%d" % (cur[0], cur[1], cur[2] + 1), "%d.%d" % (cur[0], cur[1] + 1),
            "%d" % (cur[0] + 1), "%d.0.0" % (cur[0] + 100), "99999999999",
            "4294967296", "4294967296.1", "0.4294967297", "0.0.4294967296",
            "a", "0.", "0.1.", ".1", "1..0", "0.0.0.0", "0.1.1a", "-1", "0,1", "v0.1",
            "%d.%d.%d." % cur, "0 1"])
        reject("version " + p["version"])
    elif src.bool(0.3):
        p["version"] = src.choice(["%d.%d.%d" % cur, "%d.%d" % cur[:2], "0", "0.0", "0.0.1",
                                   "00.0%d" % cur[1], " %d.%d.%d " % cur, ""])
    return p


def effective(proj, cli):
    """The settings of a run."""
    s = dict(DEFAULTS)
    if proj is not None:
        if proj["bad"]:
            raise Reject(proj["bad"])
        s.update(proj["o"])
        if "approx" not in proj["o"]:
            s["approx"] = "none" if s["algo"] == "bdd" else "rare-event"
    if cli["bad"]:
        raise Reject(cli["bad"])
    c = cli["o"]
    if len(cli["algos"]) > 1:
        raise Reject("two algorithms")
    if len(cli["approx"]) > 1:
        raise Reject("two approximations")
    if cli["algos"]:                      # an algorithm comes with its defaults
        s["algo"] = cli["algos"][0]
        if s["algo"] == "bdd":
            s["approx"] = "none"
        else:
            s["pi"] = False
            if s["approx"] == "none":
                s["approx"] = "rare-event"
    if c.get("pi"):
        if s["algo"] != "bdd":
            raise Reject("prime implicants with " + s["algo"])
        s["pi"], s["approx"] = True, "none"
    if cli["approx"]:
        if s["pi"]:
            raise Reject("prime implicants with an approximation")
        s["approx"] = cli["approx"][0]
    for k in LIMITS:
        if k in c:
            s[k] = c[k]
    for k in FLAGS:
        if c.get(k):
            s[k] = True
    if s["sil"] and not s["step"]:
        raise Reject("sil without a time step")
    s["prob"] = s["prob"] or s["imp"] or s["unc"] or s["sil"]
    return s


def gen_cli(src):
    c = {"o": {}, "algos": [], "approx": [], "args": [], "bad": None}
    o = c["o"]
    bad = src.choice(["limit", "limit", "two", "combo", "unknown", "twice", "missing"]
                     ) if src.bool(0.2) else None
    if src.bool(0.4):
        c["algos"] = src.sample(ALGOS, 2 if bad == "two" and src.bool() else 1)
    if src.bool(0.3):
        c["approx"] = src.sample(["rare-event", "mcub"],
                                 2 if bad == "two" and src.bool() else 1)
    if src.bool(0.2):
        o["pi"] = True
    for k in FLAGS:
        if src.bool(0.25):
            o[k] = True
    groups = [["--" + a] for a in c["algos"] + c["approx"]]
    if o.get("pi"):
        groups.append(["--prime-implicants"])
    groups += [["--" + FLAGS[k]] for k in FLAGS if o.get(k)]
    for k in LIMITS:
        if not src.bool(0.25) and not (k == "step" and o.get("sil") and src.bool(0.8)):
            continue
        t, v = limit(src, k, bad == "limit" and src.bool(0.4))
        if v is None:
            if t == "":
                t = "x"
            c["bad"] = c["bad"] or "%s=%s" % (k, t)
        else:
            o[k] = v
        name = "--" + LIMITS[k][1]
        how = src.draw(3)
        if k == "order" and how == 2:
            groups.append(["-l" + t] if src.bool() else ["-l", t])
        elif how == 0 or t.startswith("-"):
            groups.append([name + "=" + t])
        else:
            groups.append([name, t])
        if bad == "twice" and v is not None and src.bool(0.3):
            groups.append([name + "=" + t])
            c["bad"] = c["bad"] or name + " twice"
    if bad == "unknown":
        groups.append([src.choice(["--best", "--bddd", "--sils", "--no-such=1", "-q"])])
        c["bad"] = "unknown option"
    c["groups"] = src.shuffle(groups)
    if bad == "missing":
        c["groups"].append([src.choice(["--seed", "--limit-order", "--time-step", "-l"])])
        c["bad"] = c["bad"] or "missing value"
    return c


def explicit(s):
    """Command line options that give exactly these settings."""
    out = ["--" + s["algo"]]
    if s["pi"]:
        out.append("--prime-implicants")
    if s["approx"] != "none":
        out.append("--" + s["approx"])
    out += ["--" + FLAGS[k] for k in FLAGS if s[k]]
    for k in LIMITS:
        out.append("--%s=%r" % (LIMITS[k][1], s[k]))
    return out


def num(v):
    return E("float", {"value": repr(v)})


def exp(rate):
    return E("exponential", {}, num(rate), E("system-mission-time"))


def models(src):
    """Files that show every setting: (name, text) pairs."""
    ft = E("define-fault-tree", {"name": "ft"})
    n = src.int(4, 7)
    ev = ["e%d" % i for i in range(n)]

    def ref(e):
        r = E("event", {"name": e})
        return E("not", {}, r) if e[0] == "e" and src.bool(0.12) else r
    subs = []
    for i in range(src.int(1, 3)):
        a = src.sample(ev, src.int(2, 3))
        subs.append("g%d" % i)
        ft.add(E("define-gate", {"name": "g%d" % i},
                 E(src.choice(["and", "and", "or"]), {}, *[ref(x) for x in a])))
    ft.add(E("define-gate", {"name": "pair"}, E("and", {}, *[
        E("event", {"name": x}) for x in ev[:2]])))
    ft.add(E("define-gate", {"name": "some"}, E("and", {}, *[
        ref(x) for x in src.sample(ev, 3)])))
    top = E("define-gate", {"name": "top"},
            E(src.choice(["or", "or", "and"]), {},
              *[E("event", {"name": g}) for g in subs + ["pair", "some"]]))
    ft.kids.insert(0, top)
    data = E("model-data")
    for i, e in enumerate(ev):
        if i < 2:
            continue
        k = src.draw(3)
        data.add(E("define-basic-event", {"name": e},
                   exp(src.int(1, 40) * 1e-5) if k == 0 else
                   E("lognormal-deviate", {}, num(0.01 * src.int(1, 9)), num(3.0), num(0.95))
                   if k == 1 else num(src.int(1, 9) / 10)))
    g = E("define-CCF-group", {"name": "ccf", "model": "beta-factor"},
          E("members", {}, *[E("basic-event", {"name": x}) for x in ev[:2]]),
          E("distribution", {}, num(src.int(1, 9) / 10)),
          E("factor", {"level": "2"}, num(src.int(1, 9) / 10)))
    files = [("a.xml", E("opsa-mef", {}, ft, g).text()), ("b b.xml", E("opsa-mef", {}, data).text())]
    return files


class C20(Check):
    id = "C20"
    rule = ("a case counts when its settings come from both a project file and the "
            "command line, or when they must be rejected")
    assumptions = [
        "an algorithm on the command line brings its own defaults (documented): bdd no "
        "approximation, zbdd and mocus rare-event unless the project has one, and no prime implicants",
        "a project file must be valid by itself (its SIL needs its own time step)",
        "the cut-off has no visible effect, so only its range is checked"]
    quick_cases = 12000
    thorough_cases = 200000
    quick_wall = 40
    targets = ("scram", "clidrv")

    def open(self):
        self.cli = Cli(self.bins["rel"]["clidrv"])
        rc, o, _ = run_cli(self.bins["rel"]["scram"], ["--version"], "/")
        self.cur = tuple(int(x) for x in
                         re.match(rb"SCRAM (\d+)\.(\d+)\.(\d+)", o).groups())
        d = self.cli.scratch.dir
        for x in ("in", "in/sub", "other"):
            os.mkdir(os.path.join(d, x))

    def close(self):
        self.cli.close()

    def fail(self, msg, sig=None):
        raise Fail("C20: " + msg, sig=sig, detail=self.detail)

    def case(self, src):
        sc = self.cli.scratch
        proj = gen_project(src, self.cur) if src.bool(0.8) else None
        cli = gen_cli(src)
        files = models(src)
        split = src.draw(3) if proj is not None else 0     # files of the command line
        if src.bool(0.5):
            files.reverse()
        in_proj, in_cli = files[split:], files[:split]
        if proj is None:
            in_proj, in_cli = [], files
        if proj is not None and not in_proj:      # the schema wants a file
            in_proj, in_cli = files[:1], files[1:]
        cwd = os.path.join(sc.dir, src.choice(["in", "other", "in/sub"]))
        pdir = os.path.join(sc.dir, src.choice(["in", "in/sub"]))
        where = {}
        self.detail = {"cwd": os.path.relpath(cwd, sc.dir)}
        args = []
        for name, text in files:
            d = src.choice(["in", "in/sub"])
            where[name] = os.path.join(sc.dir, d, name)
            with open(where[name], "w") as f:
                f.write(text)
        clash = None
        if proj is not None:
            fs = []
            for name, _ in in_proj:
                rel = os.path.relpath(where[name], pdir)
                p = src.weighted([(5, rel), (1, "./" + rel), (1, where[name]),
                                  (1, "../%s/%s" % (os.path.basename(pdir), rel)),
                                  (1, rel.replace("/", "\\"))])
                fs.append("<file>" + src.choice(["%s", " %s ", "\n  %s\n", "<![CDATA[%s]]>"])
                          % esc(p) + "</file>")
            if src.bool(0.04):
                clash = src.choice(["missing", "twice"])
                fs.append("<file>%s</file>" % ("none.xml" if clash == "missing"
                                               else esc(where[in_proj[0][0]])))
            opts = []
            for e in proj["xml"]:
                e.render(opts)
            text = "<?xml version=\"1.0\"?>\n<scram%s>\n<model>%s</model>\n<options>%s</options>\n</scram>\n" % (
                "" if proj["version"] is None else ' version="%s"' % proj["version"],
                "".join(fs), "".join(opts))
            pf = os.path.join(pdir, "project.xml")
            with open(pf, "w") as f:
                f.write(text)
            self.detail["project"] = text
            rel = os.path.relpath(pf, cwd)
            p = src.choice([pf, rel, "./" + rel])
            cli["groups"].insert(src.draw(len(cli["groups"]) + 1)
                                 if cli["bad"] != "missing value" else 0,
                                 src.choice([["--project", p], ["--project=" + p]]))
        pos = [os.path.relpath(where[n], cwd) if src.bool(0.7) else where[n]
               for n, _ in in_cli]
        groups = cli["groups"]
        k = src.draw(len(groups) + 1) if cli["bad"] != "missing value" else 0
        args = [a for g in groups[:k] for a in g] + pos + [a for g in groups[k:] for a in g]
        self.detail["args"] = args
        self.detail["files"] = files
        try:
            if clash:
                raise Reject(clash)
            want = effective(proj, cli)
            why = None
        except Reject as e:
            want, why = None, str(e)
        desc = "%s%s" % (" ".join(args), (" with " + re.sub(r"\s+", " ", self.detail["project"]))
                         if proj else "")
        out = sc.path("r.xml")
        if os.path.exists(out):
            os.unlink(out)
        rc, o, err = self.cli.run(["-o", out] + args, cwd=cwd)
        if rc not in (0, 1):
            self.fail("the tool died (%s) with %s: %s" % (rc, desc, err[-500:]), sig="died")
        if why is not None:
            if rc == 0:
                self.fail("accepted (%s): %s" % (why, desc),
                          sig="accepted " + re.sub(r"[=\d].*", "", why))
            if os.path.exists(out):
                self.fail("a report was written for rejected options: %s" % desc, sig="late")
            return Result(("reject", why, desc), {"rejected": why, "args": args,
                                                  "project": self.detail.get("project")},
                          tags=["rejected: " + re.sub(r"[=\d].*", "", why).strip()])
        if rc != 0:
            self.fail("rejected: %s: %s" % (desc, err.decode("utf-8", "replace")[-500:]),
                      sig="rejected")
        got = ET.parse(out).getroot()
        self.inspect(got, want, desc)
        ref = sc.path("ref.xml")
        order = [where[n] for n, _ in in_proj + in_cli]
        rc, o, err = self.cli.run(["-o", ref] + explicit(want) + order)
        if rc != 0:
            self.fail("explicit options are rejected: %s: %s" % (
                explicit(want), err[-500:]), sig="explicit rejected")
        d = differs(canon(got), canon(ET.parse(ref).getroot()))
        if d:
            self.fail("%s differs from %s: %s" % (desc, explicit(want), d),
                      sig="differs")
        both = proj is not None and len(groups) > 1
        return Result(desc if both else None, {"args": args, "settings": want,
                                               "project": self.detail.get("project")},
                      tags=["both" if both else "one source", want["algo"]])

    def inspect(self, root, s, desc):
        """The report shows the settings."""
        q = {x.get("name"): x for x in root.findall("information/calculated-quantity")}
        names = {"Minimal Cut Sets" if not s["pi"] else "Prime Implicants"}
        for k, n in (("prob", "Probability Analysis"), ("sil", "Safety Integrity Levels"),
                     ("imp", "Importance Analysis"), ("unc", "Uncertainty Analysis"),
                     ("ccf", "Common Cause Failure Analysis")):
            if s[k]:
                names.add(n)
        if set(q) != names:
            self.fail("analyses %s instead of %s: %s" % (sorted(q), sorted(names), desc),
                      sig="analyses")

        def same(what, got, want):
            if got is None or float(got) != float("%.6g" % want if want != int(want)
                                                  else want):
                if got is None or abs(float(got) - want) > 1e-5 * abs(want):
                    self.fail("%s is %s instead of %r: %s" % (what, got, want, desc),
                              sig="setting " + what)
        m = q["Prime Implicants" if s["pi"] else "Minimal Cut Sets"]
        meth = m.find("calculation-method")
        alg = {"bdd": "Binary Decision Diagram", "mocus": "MOCUS",
               "zbdd": "Zero-Suppressed Binary Decision Diagram"}[s["algo"]]
        if meth.get("name") != alg:
            self.fail("the algorithm is %s instead of %s: %s" % (
                meth.get("name"), s["algo"], desc), sig="algorithm")
        same("order", meth.findtext("limits/product-order"), s["order"])
        for x in root.findall("results/sum-of-products/product"):
            if int(x.get("order")) > max(1, s["order"]):
                self.fail("a product of order %s: %s" % (x.get("order"), desc), sig="order")
        ccf = root.find("results//ccf-event") is not None
        if ccf and not s["ccf"]:
            self.fail("CCF events in products: %s" % desc, sig="ccf")
        if s["prob"]:
            p = q["Probability Analysis"]
            if p.get("approximation") != s["approx"]:
                self.fail("approximation %s instead of %s: %s" % (
                    p.get("approximation"), s["approx"], desc), sig="approximation")
            same("mission", p.findtext("calculation-method/limits/mission-time"), s["mission"])
            st = p.findtext("calculation-method/limits/time-step")
            if s["step"]:
                same("step", st, s["step"])
            elif st is not None:
                self.fail("a time step %s: %s" % (st, desc), sig="step")
        has = {"measure": s["unc"], "importance": s["imp"],
               "safety-integrity-levels": s["sil"], "curve": bool(s["prob"] and s["step"])}
        res = root.find("results")
        for k, v in has.items():
            n = len(res.findall(k))
            if (n > 0) != v:
                self.fail("%d %s elements: %s" % (n, k, desc), sig="elements " + k)
        sp = res.find("sum-of-products")
        if (sp.get("probability") is not None) != s["prob"]:
            self.fail("probability %s: %s" % (sp.get("probability"), desc), sig="probability")
        if s["unc"]:
            u = q["Uncertainty Analysis"]
            same("trials", u.findtext("calculation-method/limits/number-of-trials"), s["trials"])
            same("seed", u.findtext("calculation-method/limits/seed"), s["seed"])
            ms = res.find("measure")
            same("quantiles", ms.find("quantiles").get("number"), s["quantiles"])
            nb = len(ms.findall("histogram/bin"))
            same("bins", ms.find("histogram").get("number"), s["bins"])
            if nb != s["bins"]:
                self.fail("%d bins: %s" % (nb, desc), sig="bins")
