"""C23 the generator of fault trees (scripts/fault_tree_generator.py)."""
import hashlib
import math
import os
import re
import statistics
import xml.etree.ElementTree as ET

from .. import build
from ..base import DrvCheck
from ..driver import run_cli
from ..engine import Result

OPS = ["and", "or", "atleast", "not", "xor"]
PYTHON = "/usr/bin/python3"


def parse_xml(text):
    """(name, gates, basic events, house events, groups, comments) of a document.

    A gate is (connective, min, arguments); an argument is (kind, name) or a
    nested formula."""
    root = ET.fromstring(text)
    assert root.tag == "opsa-mef"
    ft = root.find("define-fault-tree")

    def formula(e):
        if e.tag in ("gate", "basic-event", "house-event", "event"):
            return (e.tag, e.get("name"))
        return (e.tag, e.get("min"), tuple(formula(x) for x in e))
    gates, dup = {}, []
    for g in ft.findall("define-gate"):
        if g.get("name") in gates:
            dup.append(g.get("name"))
        body = [x for x in g]
        assert len(body) == 1, "a gate without one formula"
        gates[g.get("name")] = formula(body[0])
    basics, houses = {}, {}
    data = root.find("model-data")
    for b in data.findall("define-basic-event"):
        if b.get("name") in basics:
            dup.append(b.get("name"))
        basics[b.get("name")] = float(b.find("float").get("value"))
    for h in data.findall("define-house-event"):
        if h.get("name") in houses:
            dup.append(h.get("name"))
        houses[h.get("name")] = h.find("constant").get("value")
    groups = {}
    for c in ft.findall("define-CCF-group"):
        if c.get("name") in groups:
            dup.append(c.get("name"))
        groups[c.get("name")] = (
            c.get("model"), [m.get("name") for m in c.find("members")],
            float(c.find("distribution").find("float").get("value")),
            [(f.get("level"), float(f.find("float").get("value")))
             for f in c.find("factors")])
    return ft.get("name"), gates, basics, houses, groups, dup


def parse_aralia(text):
    """(name, gates, basic events, house events) of the Aralia format."""
    lines = [l for l in text.split("\n") if l.strip()]
    name, gates, basics, houses = lines[0], {}, {}, {}

    def args(t, sep):
        return tuple(x.strip() for x in t.split(sep))
    for l in lines[1:]:
        m = re.fullmatch(r"p\((\S+)\) = (\S+)", l)
        if m:
            basics[m.group(1)] = float(m.group(2))
            continue
        m = re.fullmatch(r"s\((\S+)\) = (\S+)", l)
        if m:
            houses[m.group(1)] = m.group(2)
            continue
        g, f = l.split(" := ")
        assert g not in gates
        m = re.fullmatch(r"@\((\d+), \[(.*)\]\)", f)
        if m:
            gates[g] = ("atleast", m.group(1), args(m.group(2), ","))
            continue
        m = re.fullmatch(r"~\((.*)\)", f)
        if m:
            gates[g] = ("not", None, args(m.group(1), "&"))
            continue
        m = re.fullmatch(r"\((.*)\)", f)
        assert m, l
        for op, c in (("and", "&"), ("or", "|"), ("xor", "^")):
            if c in m.group(1):
                gates[g] = (op, None, args(m.group(1), c))
                break
        else:
            raise AssertionError(l)
    return name, gates, basics, houses


class C23(DrvCheck):
    id = "C23"
    rule = ("an accepted parameter set whose tree has common nodes, or a parameter set "
            "outside of the documented ranges; distinct by the parameters")
    quick_cases = 5000
    quick_wall = 120
    thorough_cases = 400000
    thorough_wall = 600
    targets = ("sdrv",)
    assumptions = [
        "the parser of the generated XML and Aralia documents in c23.py",
        "the expected size of a tree is limited to 2000 gates; trees of 800 and more events are "
        "compared with the requested averages within tolerances measured on the tree",
    ]

    def gen(self, args, name):
        """Runs the generator: (status, output, stderr)."""
        path = self.drv.scratch.path(name)
        if os.path.exists(path):
            os.unlink(path)
        script = os.path.join(build.REPO, "scripts/fault_tree_generator.py")
        rc, o, e = run_cli(PYTHON, [script] + args + ([] if self.stdout else ["-o", path]),
                           self.drv.scratch.dir, timeout=90,
                           env={"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "random"})
        if rc is None:
            self.fail("the generator does not end", sig="hang")
        text = o.decode("utf-8", "replace")
        if not self.stdout and rc == 0:
            if o:
                self.fail("output beside the file: %r" % text[:200], sig="stdout")
            text = open(path).read()
        return rc, text, e.decode("utf-8", "replace")

    def case(self, s):
        self.last_files, self.last_settings = None, None
        self.stdout = s.bool(0.2)
        p = self.parameters(s)
        if s.bool(0.25):
            return self.reject(s, p)
        args = self.arguments(s, p)
        self.last_settings = {"args": " ".join(args)}
        what = " ".join(args)
        rc, text, err = self.gen(args, "a.xml")
        if rc != 0:
            if rc == 1 and "Error in factors" in text and self.may_reject(p):
                return Result(None, None, ["rejected"])
            self.fail("%s: status %s: %s %s" % (what, rc, text[:200], err[-600:]),
                      sig="failed: %s" % re.sub(r"\d+", "#", (err.strip() or text).split("\n")[-1])[:80])
        if err:
            self.fail("%s: messages: %s" % (what, err[-300:]), sig="stderr")
        try:
            doc = parse_xml(text)
        except Exception as e:
            self.fail("%s: cannot read the output: %r" % (what, e), sig="unreadable")
        common = self.tree(p, what, doc, text)
        k = s.int(0, 3)
        if k == 0 or s.bool(0.2):
            rc, again, _ = self.gen(args, "b.xml")
            if again != text:
                self.fail("%s: not the same output for the same seed" % what, sig="not reproducible")
        if k == 1:
            r = self.load([("m.xml", text)], analyze=0)
            if "error" in r:
                self.fail("%s: the tool rejects the tree: %s" % (what, r.get("what")),
                          sig="rejected by the tool")
        if k == 2:
            rc, t, e = self.gen(args + ["--nest"], "n.xml")
            if rc:
                self.fail("%s --nest: status %s %s" % (what, rc, e[-300:]), sig="nest fails")
            self.nested(what, doc, parse_xml(t))
            r = self.load([("m.xml", t)], analyze=0)
            if "error" in r:
                self.fail("%s --nest: the tool rejects the tree: %s" % (what, r.get("what")),
                          sig="nested rejected by the tool")
        if k == 3:
            rc, t, e = self.gen(args + ["--aralia"], "n.txt")
            if rc:
                self.fail("%s --aralia: status %s %s" % (what, rc, e[-300:]), sig="aralia fails")
            try:
                al = parse_aralia(t)
            except Exception as e:
                self.fail("%s --aralia: cannot read the output: %r" % (what, e), sig="aralia unreadable")
            self.aralia(what, doc, al)
        key = hashlib.sha1(what.encode()).hexdigest() if common else None
        return Result(key, {"args": what, "gates": len(doc[1])},
                      ["big" if p["b"] >= 800 else "small", "g" if p.get("g") else "free",
                       ("repeat", "tool", "nest", "aralia")[k]])

    def parameters(self, s):
        """A set of values in the documented ranges."""
        p = {"seed": s.int(0, 100000)}
        big = s.bool(0.06)
        p["b"] = s.int(800, 1200) if big else s.weighted(
            [(4, lambda: s.int(10, 60)), (3, lambda: s.int(3, 15)), (2, lambda: s.int(60, 200)),
             (1, lambda: s.int(1, 4))])()
        p["a"] = s.choice([3, 2, 2.3, 2.5, 3.5, 4, 4.7, 6]) if not big else \
            s.choice([3, 2.5, 3.5, 4, 6])
        if s.bool(0.7):
            while True:
                n = s.int(1, 5)
                w = [s.choice([1, 0, 2, 0.5, 0.1, 3]) for _ in range(n)]
                if sum(w[:3]):
                    break
                w[0] = 1
                break
            p["w"] = w
            if big:
                p["w"] = s.choice([[1, 1], [1, 1, 1, 0.1, 0.1], [1, 0, 1], [1, 2, 1, 1, 1], [2, 1],
                                   [0, 1], [1, 1, 0, 0.5], [0.5, 0.5, 1], [0, 0, 1], [1]])
        for k, r in (("cb", (0.1, 0.05, 0.2, 0.4, 0.7, 0.9)), ("cg", (0.1, 0.02, 0.2, 0.4, 0.7, 0.9))):
            if s.bool(0.5):
                p[k] = s.choice(r[:4] if big else r)
        for k in ("pb", "pg"):
            if s.bool(0.5):
                p[k] = s.choice([2, 3, 4] if big else [2, 2.5, 3, 5, 10, 100])
        if s.bool(0.6):
            x = sorted([s.choice([0.01, 0, 0.1, 0.5, 0.9, 1, 1e-7]) for _ in range(2)])
            p["min"], p["max"] = x
        if s.bool(0.35) and p["b"] > 1:
            p["h"] = min(p["b"] - 1, s.int(1, 8))
        if s.bool(0.35):
            top = int(p["b"] / p["a"] + 1e-9)
            while top > p["b"] / p["a"]:
                top -= 1
            if top:
                p["c"] = top if s.bool(0.3) else s.int(1, min(top, 8))
        p["comfy"] = False
        if s.bool(0.2):
            if s.bool(0.5) or big:
                # In the middle of what can be satisfied.
                p["a"] = 3
                p["b"] = max(p["b"], 30)
                p.pop("cb", None), p.pop("cg", None)
                p["g"] = int(p["b"] * s.choice([1, 0.8, 1.3]))
                p["comfy"] = True
                if p.get("c", 0) > p["b"] / 3:
                    del p["c"]
            else:
                p["g"] = s.int(1, 3 * p["b"] + 5)
        # Not too many gates.
        if not p.get("g"):
            for k in ("cg", "pg"):
                r = self.ratio(p)
                if r > 0 and self.gates(p) > 2000:
                    p.pop(k, None)
            if self.ratio(p) > 0 and self.gates(p) > 2000:
                p["a"] = 3
                p.pop("c", None)
        if s.bool(0.3):
            p["ft"] = s.choice(["Tree", "f_t-1", "\u00c4rger"])
        if s.bool(0.3):
            p["root"] = s.choice(["top", "TOP-gate_1", "B", "G", "\u00fcber"])
        return p

    def ratio(self, p):
        cg, pg = p.get("cg", 0.1), p.get("pg", 2)
        return p["a"] * (1 - cg + cg / pg) - 1

    def gates(self, p):
        r = self.ratio(p)
        cb, pb = p.get("cb", 0.1), p.get("pb", 2)
        return p["b"] / (r / (1 + r) * p["a"] * (1 - cb + cb / pb))

    def may_reject(self, p):
        """Whether the factors may be impossible to satisfy together."""
        if p["b"] < 3:
            return True         # fewer events than the arguments of a gate
        if p.get("g"):
            return not p["comfy"]
        return self.ratio(p) <= 1e-9

    NAMES = {"seed": ["--seed"], "b": ["-b", "--num-basic"], "a": ["-a", "--num-args"],
             "cb": ["--common-b"], "cg": ["--common-g"], "pb": ["--parents-b"],
             "pg": ["--parents-g"], "g": ["-g", "--num-gate"], "max": ["--max-prob"],
             "min": ["--min-prob"], "h": ["--num-house"], "c": ["--num-ccf"],
             "ft": ["--ft-name"], "root": ["--root"]}

    def arguments(self, s, p):
        parts = []
        for k, names in self.NAMES.items():
            if k in p:
                n = s.choice(names)
                v = p[k] if isinstance(p[k], str) else repr(p[k])
                parts.append([n + "=" + v] if n.startswith("--") and s.bool(0.3) else [n, v])
        if "w" in p:
            parts.append(["--weights-g"] + [x if isinstance(x, str) else repr(x) for x in p["w"]])
        return [x for part in s.shuffle(parts) for x in part]

    def reject(self, s, p):
        """One value outside of its range."""
        p = dict(p)
        p["b"] = max(p["b"], 3)
        for k in ("g", "h", "c"):
            p.pop(k, None)
        p.setdefault("min", 0.01), p.setdefault("max", 0.1)
        if self.ratio(p) <= 0:
            p["cg"] = 0.1
        neg = s.choice([-0.1, -1, -1e-9, float("-inf")])
        over = s.choice([1.1, 2, 1 + 1e-9, float("inf"), float("nan")])
        k = s.choice(["min", "max", "swap", "cb", "cg", "pb", "pg", "a", "b", "h", "c", "w", "g", "words"])
        want = 1
        if k in ("min", "max"):
            p[k] = s.choice([neg, over])
        elif k == "swap":
            p["min"], p["max"] = s.choice([(0.5, 0.1), (0.2, 0.2 - 1e-9), (1, 0)])
        elif k in ("cb", "cg"):
            p[k] = s.choice([0, neg, 0.9 + 1e-6, 0.95, 1, over])
        elif k in ("pb", "pg"):
            p[k] = s.choice([1.9, 2 - 1e-9, 0, neg, 100.5, 101, float("inf"), float("nan")])
        elif k == "a":
            p[k] = s.choice([1.9, 2 - 1e-9, 1, 0, neg, float("nan"), float("inf")])
        elif k == "b":
            p[k] = s.choice([0, -1, -10])
        elif k == "h":
            p[k] = s.choice([-1, -5, p["b"], p["b"] + 1])
        elif k == "c":
            p[k] = s.choice([-1, -3, int(p["b"] / p["a"]) + 1, p["b"]])
        elif k == "w":
            p[k] = s.choice([[0], [0, 0, 0], [1, -1], [1, 1, 1, 1, -0.5], [0, 0, 0, 1, 1], [0, 0, 0, 1],
                             [1] * 6, [0] * 5, [float("nan"), 1], [1, float("inf")], [-1, 1, 1]])
        elif k == "g":
            p[k] = s.choice([-1, -10, max(1, int(p["b"] / p["a"]) - 1)])
            if p[k] * p["a"] > p["b"]:
                p[k] = -1
        else:
            want = 2
            k = s.choice(["b", "a", "cb", "cg", "pb", "pg", "g", "max", "min", "h", "c", "seed"])
            p[k] = s.choice(["x", "", "1,5", "0x", "--"])
        args = self.arguments(s, p)
        what = " ".join(args)
        self.last_settings = {"args": what}
        rc, text, err = self.gen(args, "r.xml")
        if k == "w" and rc == 2 and ("-1" in what or "-0.5" in what):
            want = 2        # taken for an option
        if rc not in ((1, 2) if want == 2 or k in ("min", "max", "cb", "cg", "pb", "pg", "a") else (want,)) \
                or "Traceback" in err:
            self.fail("%s: status %s for %s: %s %s" % (what, rc, k, text[-200:] if rc else "", err[-300:]),
                      sig="not rejected: %s %s" % (k, rc))
        if rc == 1 and "rror" not in text + err:
            self.fail("%s: no message" % what, sig="no message")
        if not self.stdout and os.path.exists(self.drv.scratch.path("r.xml")) and \
                open(self.drv.scratch.path("r.xml")).read():
            self.fail("%s: output in spite of the error" % what, sig="output with an error")
        return Result(hashlib.sha1(what.encode()).hexdigest(), {"args": what, "rejected": k},
                      ["reject " + k])

    def tree(self, p, what, doc, text):
        """The generated tree against the parameters; whether it has common nodes."""
        name, gates, basics, houses, groups, dup = doc

        def bad(msg, sig):
            self.last_files = [("m.xml", text)]
            self.fail("%s: %s" % (what, msg), sig=sig)
        if dup:
            bad("defined twice: %s" % dup, "defined twice")
        root = p.get("root", "root")
        if name != p.get("ft", "Autogenerated"):
            bad("the tree's name is %r" % name, "tree name")
        if root not in gates:
            bad("no root gate", "no root")
        # Connectives and references.
        w = (list(p.get("w", [1, 1])) + [0] * 5)[:5]
        allowed = {op for op, x in zip(OPS, w) if x > 0}
        used = {"gate": set(), "basic-event": set(), "house-event": set()}
        parents = {}
        count = dict.fromkeys(OPS, 0)
        for g, (op, lo, args) in gates.items():
            if op not in allowed:
                bad("gate %s is %s, weights %s" % (g, op, w), "gate type without weight")
            count[op] += 1
            if len(set(args)) != len(args):
                bad("repeated arguments of %s" % g, "repeated argument")
            n = len(args)
            ok = {"not": n == 1, "xor": n == 2, "atleast": n >= 3}.get(op, n >= 2)
            if not ok:
                bad("gate %s: %s of %d arguments" % (g, op, n), "number of arguments")
            if op == "atleast" and not (lo and 2 <= int(lo) <= n - 1):
                bad("gate %s: %s out of %d" % (g, lo, n), "min number")
            for a in args:
                if len(a) != 2 or a[0] not in used:
                    bad("argument %s of %s" % (a, g), "kind of argument")
                used[a[0]].add(a[1])
                parents.setdefault(a, set()).add(g)
        if used["gate"] - set(gates) or set(gates) - used["gate"] - {root} or root in used["gate"]:
            bad("gates: undefined %s, unused %s" % (sorted(used["gate"] - set(gates))[:5],
                                                    sorted(set(gates) - used["gate"])[:5]), "gates")
        # Reachable without cycles.
        state, stack = {}, [(root, iter([a[1] for a in gates[root][2] if a[0] == "gate"]))]
        state[root] = 1
        while stack:
            g, it = stack[-1]
            for c in it:
                if state.get(c) == 1:
                    bad("a cycle through %s" % c, "cycle")
                if c not in state:
                    state[c] = 1
                    stack.append((c, iter([a[1] for a in gates[c][2] if a[0] == "gate"])))
                    break
            else:
                state[g] = 2
                stack.pop()
        if len(state) != len(gates):
            bad("%d gates of %d reached from the root" % (len(state), len(gates)), "not connected")
        # Events.
        members = [m for _, ms, _, _ in groups.values() for m in ms]
        events = list(basics) + members
        if len(set(events)) != len(events):
            bad("a basic event with two definitions", "event defined twice")
        if len(events) != p["b"]:
            bad("%d basic events for %d" % (len(events), p["b"]), "number of basic events")
        if set(events) != used["basic-event"]:
            bad("basic events defined and not used, or used and not defined: %s"
                % sorted(set(events) ^ used["basic-event"])[:5], "basic events")
        if len(houses) != p.get("h", 0) or set(houses) != used["house-event"]:
            bad("house events %s, used %s, for %d" % (sorted(houses), sorted(used["house-event"]),
                                                      p.get("h", 0)), "house events")
        if set(houses.values()) - {"true", "false"}:
            bad("states %s" % houses, "house event states")
        for h in houses:
            if len(parents[("house-event", h)]) != 1:
                bad("house event %s in several gates" % h, "house event shared")
        names = [root] + list(houses) + list(groups)
        if len(set(list(gates) + events + names)) != len(gates) + len(events) + len(houses) + len(groups):
            bad("two elements with the same name", "same name")
        # Values.
        lo, hi = p.get("min", 0.01), p.get("max", 0.1)
        for n, v in list(basics.items()) + [(c, g[2]) for c, g in groups.items()]:
            if not lo <= v <= hi:
                bad("probability %r of %s outside of [%r, %r]" % (v, n, lo, hi), "probability bounds")
        if len(groups) != p.get("c", 0):
            bad("%d CCF groups for %d" % (len(groups), p.get("c", 0)), "number of groups")
        for c, (model, ms, _, fs) in groups.items():
            if model != "MGL" or len(ms) < 2 or not 1 <= len(fs) <= len(ms) - 1:
                bad("CCF group %s: %s" % (c, (model, ms, fs)), "CCF group")
            if [l for l, _ in fs] != [str(i + 2) for i in range(len(fs))] or \
                    not all(0 <= f <= 1 for _, f in fs):
                bad("factors of CCF group %s: %s" % (c, fs), "CCF factors")
        self.comments(p, bad, text, gates, count, len(events), houses, groups)
        nb = len({len(parents[x]) for x in parents})
        if p["b"] >= 800:
            basics = dict(basics, **{c: g[2] for c, g in groups.items()})
            self.averages(p, bad, gates, parents, basics)
        return nb > 1

    def comments(self, p, bad, text, gates, count, nb, houses, groups):
        """The description and the summary before the tree."""
        def num(key, where):
            m = re.search(r"^ *%s: (.*)$" % key, where, re.M)
            return m.group(1).strip() if m else None
        cut = text.split("-->")
        if len(cut) < 3:
            bad("no description or summary", "comments")
        for key, want in (("The seed of the random number generator", p["seed"]),
                          ("The number of basic events", p["b"]),
                          ("The number of house events", p.get("h", 0)),
                          ("The number of CCF groups", p.get("c", 0)),
                          ("The average number of gate arguments", p["a"]),
                          ("Maximum probability for basic events", p.get("max", 0.1)),
                          ("Minimum probability for basic events", p.get("min", 0.01))):
            got = num(key, cut[0])
            if got is None or float(got) != want:
                bad("described %s: %s for %s" % (key, got, want), "description: " + key)
        args = sum(len(a) for _, _, a in gates.values())
        for key, want in (("The number of basic events", nb), ("The number of house events", len(houses)),
                          ("The number of CCF groups", len(groups)), ("The number of gates", len(gates)),
                          ("AND gates", count["and"]), ("OR gates", count["or"]),
                          ("K/N gates", count["atleast"]), ("NOT gates", count["not"]),
                          ("XOR gates", count["xor"]),
                          ("The average number of gate arguments", args / len(gates))):
            got = num(key, cut[1])
            if got is None or not math.isclose(float(got), want, rel_tol=1e-9):
                bad("summary %s: %s for %s" % (key, got, want), "summary: " + key)

    @staticmethod
    def measures(gates, parents, basics):
        """Characteristics of a tree."""
        m = {"gates": len(gates), "args": sum(len([x for x in a if x[0] != "house-event"])
                                              for _, _, a in gates.values()),
             "ops": {op: sum(g[0] == op for g in gates.values()) for op in OPS},
             "prob": sum(basics.values()) / len(basics), "basics": len(basics)}
        for kind in ("basic-event", "gate"):
            fr = []
            for _, _, a in gates.values():
                k = [x for x in a if x[0] == kind]
                if k:
                    fr.append(sum(len(parents[x]) > 1 for x in k) / len(k))
            c = [len(v) for x, v in parents.items() if x[0] == kind and len(v) > 1]
            m["fraction", kind] = sum(fr) / max(1, len(fr))
            m["common", kind] = len(c)
            m["parents", kind] = sum(c) / max(1, len(c))
        return m

    def compare(self, p, ms):
        """What is not as requested in big trees: [(message, signature)]."""
        out = []
        w = p.get("w", [1, 1])
        w = [x / sum(w) for x in w + [0] * (5 - len(w))]
        a, n = p["a"], sum(m["gates"] for m in ms)
        k = sum(m["basics"] for m in ms)
        lo, hi = p.get("min", 0.01), p.get("max", 0.1)
        lowest = sum(x * y for x, y in zip(w, (2, 2, 3, 1, 2)))
        avg = sum(m["args"] for m in ms) / n
        # The largest number of arguments, if all types can have the average.
        top = (2 * a - 2 * w[0] - 2 * w[1] - 3 * w[2] - 2 * (w[3] + 2 * w[4])) / sum(w[:3])
        if top >= (3 if w[2] else 2):
            sd = math.sqrt(self.variance(w, top, a) / n)
            if abs(avg - a) > 0.03 * a + (4 if len(ms) == 1 else 6) * sd:
                out.append(("%.3f arguments on average for %s" % (avg, a), "average of arguments"))
        elif abs(avg / a - 1) > 0.2 and not (avg > a and lowest > 0.8 * a):
            out.append(("%.2f arguments on average for %s" % (avg, a), "average of arguments"))
        for op, q in zip(OPS, w):
            x = sum(m["ops"][op] for m in ms)
            if abs(x / n - q) > 7 * math.sqrt(max(q * (1 - q), 1 / n) / n) + len(ms) / n:
                out.append(("%d %s gates of %d for weights %s" % (x, op, n, w), "gate types"))
        if p.get("g") and abs(n / len(ms) / p["g"] - 1) > 0.25:
            out.append(("%.0f gates for %d" % (n / len(ms), p["g"]), "number of gates"))
        if hi > lo:
            x = sum(m["prob"] * m["basics"] for m in ms) / k
            if abs(x - (lo + hi) / 2) > 7 * (hi - lo) / math.sqrt(12 * k):
                out.append(("mean probability %r in [%r, %r]" % (x, lo, hi), "mean probability"))
        if p.get("g") or lowest >= a:
            return out      # the other factors give way
        r = self.ratio(p)
        kinds = (("basic-event", "cb", "pb", r / (1 + r)), ("gate", "cg", "pg", 1 / (1 + r)))
        # Few common nodes of one kind leave their parents to the other kind.
        few = min(p.get(f, 0.1) * share * a * self.gates(p) / p.get(pf, 2) for _, f, pf, share in kinds) < 20
        for kind, f, pf, share in kinds:
            want, par = p.get(f, 0.1), p.get(pf, 2)
            got = statistics.median(m["fraction", kind] for m in ms)
            if not -0.13 < got - want < (0.2 if few else 0.13):
                out.append(("fraction %.3f of common %ss for %s" % (got, kind, want),
                            "fraction of common " + kind))
            num = want * share * a * self.gates(p) / par
            if num < 50:
                continue
            got = statistics.median(m["parents", kind] for m in ms)
            if not 0.85 < got / par < (3 if few else 1.9):
                out.append(("common %ss have %.3f parents for %s" % (kind, got, par),
                            "parents of common " + kind))
            got = statistics.median(m["common", kind] for m in ms)
            if not 0.7 < got / num < 1.3:
                out.append(("%.0f common %ss for %.1f" % (got, kind, num), "number of common " + kind))
        return out

    @staticmethod
    def variance(w, top, a):
        """Of the number of arguments of a gate."""
        def square(lo):
            r = 0
            for m, q in ((int(top), 1 - top % 1), (int(top) + 1, top % 1)):
                m = max(m, lo)
                r += q * sum(x * x for x in range(lo, m + 1)) / (m - lo + 1)
            return r
        return max(0, (w[0] + w[1]) * square(2) + w[2] * square(3) + w[3] + 4 * w[4] - a * a)

    def averages(self, p, bad, gates, parents, basics):
        """Big trees have the requested averages: suspects are tried with eight more seeds."""
        first = self.measures(gates, parents, basics)
        if not self.compare(p, [first]):
            return
        ms = [first]
        for i in range(8):
            q = dict(p, seed=p["seed"] + 1 + i)
            args = [x for k, n in self.NAMES.items() if k in q for x in (n[0], str(q[k]))]
            if "w" in q:
                args += ["--weights-g"] + [str(x) for x in q["w"]]
            rc, text, err = self.gen(args, "c.xml")
            if rc:
                continue
            _, gates, basics, _, groups, _ = parse_xml(text)
            parents = {}
            for g, (_, _, a) in gates.items():
                for x in a:
                    parents.setdefault(x, []).append(g)
            ms.append(self.measures(gates, parents, dict(basics, **{c: g[2] for c, g in groups.items()})))
        for msg, sig in self.compare(p, ms):
            bad("%s in %d trees" % (msg, len(ms)), sig)

    def nested(self, what, doc, doc2):
        """NOT gates written in place of references (except in NOT gates)."""
        gates = doc[1]

        def expand(op, args):
            return sorted((gates[x[1]] if op != "not" and x[0] == "gate"
                           and gates.get(x[1], ("",))[0] == "not" else x for x in args), key=repr)
        want = {g: (op, lo, expand(op, args)) for g, (op, lo, args) in gates.items()}
        got = {g: (op, lo, expand(op, args)) for g, (op, lo, args) in doc2[1].items()}
        if got != want or doc[0] != doc2[0] or doc[2:] != doc2[2:]:
            d = [(g, want.get(g), got.get(g)) for g in want if want[g] != got.get(g)]
            self.fail("%s --nest: another tree: %s" % (what, d[:3]), sig="nested")
        for g, (op, lo, args) in doc2[1].items():
            plain = [x if len(x) == 2 else x[2][0] for x in args] + list(gates[g][2])
            for x in args:
                if op != "not" and x[0] == "gate" and gates[x[1]][0] == "not" and \
                        gates[x[1]][2][0] not in plain:
                    self.fail("%s --nest: %s is not nested in %s" % (what, x[1], g), sig="not nested")

    def aralia(self, what, doc, al):
        name, gates, basics, houses = al
        want = {g: (op, lo, sorted(n for _, n in args)) for g, (op, lo, args) in doc[1].items()}
        got = {g: (op, lo, sorted(args)) for g, (op, lo, args) in gates.items()}
        if got != want or name != doc[0] or houses != doc[3]:
            d = [(g, want.get(g), got.get(g)) for g in want if want[g] != got.get(g)]
            self.fail("%s --aralia: another tree: %s" % (what, d[:3]), sig="aralia")
        members = {m for _, ms, _, _ in doc[4].values() for m in ms}
        if {b: v for b, v in basics.items() if b not in members} != doc[2] or \
                set(basics) != set(doc[2]) | members:
            self.fail("%s --aralia: other basic events" % what, sig="aralia events")
