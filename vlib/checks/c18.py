"""C18 determinism and absence of traces."""
import hashlib
import re

from .. import sink
from ..base import DrvCheck
from ..driver import Cli, run_cli, settings_fields
from ..engine import Discard, Result
from ..ft import show

TIMES = re.compile(rb"\s*<time>[^<]*</time>|\s*<performance>.*?</performance>|\s*<performance/>",
                   re.S)


def settings(s, nd, mc=0.35):
    """Settings of an analysis (also those that need more than one run)."""
    alg = s.choice(["bdd", "zbdd", "mocus"])
    ap = s.choice(["none", "rare-event", "mcub"] if not nd else ["rare-event", "mcub"])
    pi = alg == "bdd" and ap == "none" and s.bool(0.25)
    st = {"algorithm": alg, "approximation": ap}
    if pi:
        st["prime_implicants"] = True
    st["limit_order"] = s.weighted([(5, 20), (1, 3), (1, 2)])
    st["mission_time"] = float(s.choice([8760, 100, 1000]))
    st["probability"] = s.bool(0.85)
    st["importance"] = s.bool(0.4)
    st["uncertainty"] = s.bool(mc)
    st["ccf"] = s.bool()
    if s.bool(0.3):
        st["time_step"] = st["mission_time"] / s.choice([2, 3, 7])
        st["sil"] = s.bool()
    if s.bool(0.7) or st["uncertainty"]:
        st["seed"] = s.choice([0, 1, 7, 372, 2147483647])
    if st["uncertainty"]:
        st["num_trials"] = s.choice([1, 2, 10, 37, 200])
        st["num_bins"] = s.choice([1, 3, 20])
        st["num_quantiles"] = s.choice([1, 4, 20])
    return st


FLAG = {"prime_implicants": "--prime-implicants", "probability": "--probability",
        "importance": "--importance", "uncertainty": "--uncertainty", "ccf": "--ccf",
        "sil": "--sil"}
VALUE = {"limit_order": "--limit-order", "mission_time": "--mission-time",
         "time_step": "--time-step", "num_trials": "--num-trials", "seed": "--seed",
         "num_bins": "--num-bins", "num_quantiles": "--num-quantiles"}


def command_line(st):
    a = ["--" + st["algorithm"]]
    if st["approximation"] != "none":
        a.append("--" + st["approximation"])
    for k, f in FLAG.items():
        if st.get(k):
            a.append(f)
    for k, f in VALUE.items():
        if k in st:
            a += [f, repr(st[k])]
    return a


def strip(report):
    return TIMES.sub(b"", report)


def first_difference(a, b):
    x, y = a.split(b"\n"), b.split(b"\n")
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return i, p.decode("utf-8", "replace").strip(), q.decode("utf-8", "replace").strip()
    return min(len(x), len(y)), "%d lines" % len(x), "%d lines" % len(y)


def order_only(a, b):
    return sorted(x.strip() for x in a.split(b"\n")) == sorted(x.strip() for x in b.split(b"\n"))


def kind_of(a, b):
    """Which part differs."""
    if order_only(a, b):
        return "order"
    i, p, q = first_difference(a, b)
    m = re.match(r"</?([\w-]+)", p)
    return m.group(1) if m else "text"


class C18(DrvCheck):
    id = "C18"
    rule = ("the same model and options again: in processes with other heap layouts, with "
            "other verbosity, indentation and destination of the report, or after and "
            "between other analyses in one process; with something analysed")
    quick_cases = 9000
    quick_wall = 45
    thorough_cases = 250000
    thorough_wall = 700
    targets = ("sdrv", "scram", "clidrv")
    assumptions = [
        "a process with a disturbed heap (random holes, other addresses) stands for a fresh process; one case in 60 runs really fresh ones",
        "time stamps (<time>) and timings (<performance>) are cut from reports",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])

    def close(self):
        super().close()
        self.cli.close()

    def case(self, s):
        if s.bool(0.6):
            return self.fresh(s)
        return self.history(s)

    def system(self, s, small=False):
        return sink.gen_sys(s, ets=0.3, ccf=0.4, aligns=0.2, subs=0.1, devs=0.7,
                            max_basic=s.choice([6, 8, 14]) if not small else 7,
                            max_gates=s.choice([8, 12, 20]) if not small else 8)

    # -- the command line tool ---------------------------------------------

    def fresh(self, s):
        y = self.system(s)
        nd = any(sub.source for sub in y.subs)
        st = settings(s, nd)
        lay = sink.Layout(s, y, depth=s.int(0, 2), names=s.choice(["plain", "fancy"]),
                          meta=s.choice([0, 0, 0.3]), nfts=s.choice([1, 3]))
        files, use = lay.files(n=s.choice([1, 2]))
        self.last_files, self.last_settings = files, st
        names = []
        for i, (n, t) in enumerate(files):
            p = self.cli.scratch.write(n, t)
            if use is None or i in use:
                names.append(p)
        args = command_line(st) + names
        out = self.cli.scratch.path("report.xml")
        really = s.bool(1 / 60)
        base = self.one(args, s, 0, really)
        runs = 2
        for i in range(runs):
            heap = s.int(1, 1 << 30)
            r = self.one(args, s, heap, really)
            if r != base:
                n, p, q = first_difference(base, r)
                self.fail("two runs of %s differ (%s) at line %d: %s | %s" % (
                    " ".join(args), kind_of(base, r), n, p, q),
                    sig="fresh: " + kind_of(base, r),
                    extra={"first": base.decode()[:20000], "second": r.decode()[:20000]})
        # Variants that must not matter.
        v = list(args)
        what = []
        if s.bool():
            n = s.int(0, 5)
            v += ["--verbosity", str(n)]
            what.append("verbosity %d" % n)
        noindent = s.bool()
        if noindent:
            v.append("--no-indent")
            what.append("no indentation")
        to_file = s.bool()
        if to_file:
            v += ["-o", out]
            what.append("to a file")
        if s.bool(0.3):
            k = s.draw(len(names) + 1)
            v = names[:k] + [a for a in v if a not in names] + names[k:]
            what.append("other order of arguments")
        if what:
            rc, o, e = self.cli.run(v, 20)
            if rc != 0:
                self.fail("%s: exit status %s with %s" % (" ".join(v), rc, what),
                          sig="variant fails", extra=e[-2000:].decode("utf-8", "replace"))
            if to_file:
                if o.strip():
                    self.fail("output with -o: %r" % o[:200], sig="output")
                o = open(out, "rb").read()
                with open(out, "wb") as f:
                    pass
            o = strip(o)
            a, b = base, o
            if noindent:
                a, b = [re.sub(rb">\s+<", b"><", x).strip() for x in (a, b)]
            if a != b:
                n, p, q = first_difference(a, b)
                self.fail("the report differs with %s at line %d: %s | %s" % (what, n, p, q),
                          sig="variant: " + kind_of(a, b))
        key = hashlib.sha1(repr((files, args)).encode()).hexdigest()
        tags = ["fresh processes"] if really else ["disturbed heap"]
        tags += self.tags(y, st)
        return Result(key if b"<results>" in base else None,
                      {"args": args[:12], "tree": show(y.ft)[:200], "report bytes": len(base)}, tags)

    def one(self, args, s, heap, really):
        if really:
            rc, o, e = run_cli(self.bins["rel"]["scram"], args, self.cli.scratch.dir, 30)
        else:
            rc, o, e = self.cli.run(args, 20, heap=heap)
        if rc != 0:
            self.fail("%s: exit status %s on a valid model" % (" ".join(args), rc),
                      sig="exit", extra=e[-2000:].decode("utf-8", "replace"))
        return strip(o)

    def tags(self, y, st):
        t = []
        t += ["event tree"] if y.world else []
        t += ["ccf"] if y.groups and st["ccf"] else []
        t += ["phases"] if y.aligns else []
        t += ["uncertainty"] if st["uncertainty"] else []
        t += ["time"] if "time_step" in st else []
        t += ["prime implicants"] if st.get("prime_implicants") else [st["algorithm"]]
        return t

    # -- histories in one process --------------------------------------------

    def history(self, s):
        try:
            return self.histories(s)
        except BaseException:
            self.drv.kill()        # also the session
            raise

    def histories(self, s):
        n = s.int(1, 3)
        jobs = []
        for i in range(n):
            y = self.system(s, True)
            st = settings(s, any(sub.source for sub in y.subs))
            lay = sink.Layout(s, y, depth=s.int(0, 2), nfts=s.choice([1, 3]))
            text = lay.files()[0][0][1]
            if s.bool(0.15):           # not loadable
                text = s.choice([
                    lambda: text[:s.int(1, len(text) - 1)],
                    lambda: text.replace("</opsa-mef>", "<define-fault-tree name='n'><define-gate name='n0'>"
                                         "<gate name='n0'/></define-gate></define-fault-tree></opsa-mef>"),
                    lambda: text.replace("<opsa-mef>", "<opsa-mef><define-parameter name='n1'>"
                                         "<parameter name='n2'/></define-parameter>")])()
            jobs.append((y, st, text))
        steps = [s.draw(n) for _ in range(s.int(2, 5))]
        ref = {}
        analysed = False
        self.last_files = [("m%d.xml" % i, j[2]) for i, j in enumerate(jobs)]
        self.last_settings = {"steps": steps, "jobs": [j[1] for j in jobs]}
        # The reference: each model alone in a process.
        for i in sorted(set(steps)):
            self.drv.begin()
            ref[i] = self.request(jobs[i], i, steps)
            self.drv.end()
            if "error" not in ref[i]:
                analysed = True
                self.untouched(ref[i], jobs[i])
        self.drv.begin(s.int(1, 1 << 30))
        for k, i in enumerate(steps):
            r = self.request(jobs[i], i, steps)
            d = self.compare(ref[i], r)
            if d:
                self.fail("model %d analysed as number %d of %s: %s" % (i, k + 1, steps, d),
                          sig="history: " + re.sub(r"[^a-z_].*", "", d))
        self.drv.end()
        key = hashlib.sha1(repr((self.last_files, self.last_settings)).encode()).hexdigest()
        tags = ["history"] + (["failing load"] if any("error" in r for r in ref.values()) else [])
        for i in set(steps):
            tags += [t for t in self.tags(jobs[i][0], jobs[i][1]) if t not in tags]
        return Result(key if analysed else None,
                      {"steps": steps, "trees": [show(j[0].ft)[:100] for j in jobs]}, tags)

    def request(self, job, i, steps):
        y, st, text = job
        p = self.drv.scratch.write("m%d.xml" % i, text)
        r = self.drv.request([("file", p)] + settings_fields(st) +
                             [("analyze", "1"), ("dump", "1"), ("dump_after", "1"),
                              ("repeat", "2")], 20)
        if "timeout" in r:
            self.fail("no answer", sig="hang")
        if "crash" in r:
            self.fail("the tool died (status %s)" % r["crash"], sig="crash", extra=r["stderr"])
        return r

    def compare(self, a, b):
        if set(a) != set(b):
            return "replies %s and %s" % (sorted(a), sorted(b))
        for k in sorted(a):
            if a[k] != b[k]:
                return "%s: %s" % (k, where(a[k], b[k]))
        return None

    def untouched(self, r, job):
        if r["dump"] != r["dump_after"]:
            self.fail("the analysis changed the model: %s" % where(r["dump"], r["dump_after"]),
                      sig="trace in the model")
        if r["run"] != r["again"]:
            self.fail("the second analysis of the same model differs: %s"
                      % where(r["run"], r["again"]), sig="second analysis")


def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s only in one" % (path, k)
            if a[k] != b[k]:
                return where(a[k], b[k], path + "." + k)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d and %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, "%s[%d]" % (path, i))
    return "%s: %s and %s" % (path, str(a)[:200], str(b)[:200])
