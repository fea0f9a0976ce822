"""C15 no input crashes the tool."""
import copy
import hashlib
import os
import re

from .. import ft, rng, sink
from ..base import DrvCheck, crash_sig
from ..build import REPO
from ..driver import Cli, Driver
from ..engine import Discard, Fail, Result
from ..xmlw import E
from .c20 import ALGOS, FLAGS, LIMITS

NUMBERS = ["0", "1", "2", "3", "0.5", "0.1", "0.01", "1e-3", "1e-9", "-1", "-0.5", "10", "100",
           "8760", "1.5", "1e3", "5", "20", "0.9", "0.75", "1e-5", "7", "500", "2.5"]
WILD = ["NaN", "1e308", "1e200", "-1e308", "-0", "1e-308", "1e-20", "2147483647",
        "2147483648", "-2147483648", "4294967296", "9223372036854775807",
        "-9223372036854775808", "1e19", "0.9999999999999999", "1e-6", "3.7e-9",
        "1.0000000000000002", "65536", "1e10", "1e16", "5e9", "1e5"]
ODD = ["INF", "-INF", "1e400", "5e-324", " 1 ", "+1", "18446744073709551616", "1e-400"]
INTS = ["0", "1", "2", "3", "4", "5", "-1", "10", "100"]
WILD_INTS = ["2147483647", "-2147483648", "-2147483647", "00002", "+2", "65536", "100000"]
ODD += ["2147483648", "-2147483649", "4294967297", "99999999999999999999"]
NAMES = ["a", "b", "c", "root", "x.y", "a.b.c", "_", "I", "__clone__", "H1", "true", "NaN", "null",
         "name", "\u03b1\u03b2", "a-b", "x" * 300]
TEXTS = ["", " ", "label", "a&b<c>\"'", "\u00e9\u4e2d", "\t\n", "]]>", "x" * 5000, "%s%n", "--"]

KIND = {"define-gate": "g", "define-basic-event": "b", "define-house-event": "h",
        "define-parameter": "p", "define-fault-tree": "t", "define-component": "c",
        "define-event-tree": "e", "define-rule": "r", "define-sequence": "s",
        "define-branch": "n", "define-functional-event": "f", "define-initiating-event": "i",
        "define-CCF-group": "k", "define-alignment": "a", "define-phase": "y",
        "define-substitution": "u", "define-extern-library": "l", "define-extern-function": "x"}


class Value:
    """Attribute values and texts for the grammar."""

    def __init__(self, s, wild):
        self.s, self.wild = s, wild

    def __call__(self, typ, where):
        s, w = self.s, s_bool(self.s, self.wild)
        if typ == "double":
            return s.choice(ODD if s.bool(0.02) else WILD) if w else s.choice(NUMBERS)
        if typ in ("integer", "positiveInteger", "nonNegativeInteger"):
            if w:
                return s.choice(ODD if s.bool(0.02) else WILD_INTS)
            return s.choice(INTS if typ == "integer" else ["1", "2", "3", "4", "5"])
        if typ == "boolean":
            return s.choice(["true", "false", "true", "1", "0"])
        if typ == "NCName":
            if where.endswith("/@state"):
                return s.choice(["s0", "s1", "s2"])
            return s.choice(NAMES if w else ["a", "b", "c"])
        if typ == "anyURI":
            return s.choice(["libnone", "./x", "/dev/null", "m.xml", "../x", "c"])
        return s.choice(TEXTS) if w else s.choice(["text", "s0", "s1", "l\u00e4bel"])


def s_bool(s, p):
    return p > 0 and s.bool(p)


class Linker:
    """Gives definitions their own names, and references something to refer to."""

    def __init__(self, s, root, slack):
        self.s, self.root, self.slack = s, root, slack
        self.defs = {}         # kind -> [names]
        self.keep = set()      # references already made

    def off(self):
        return s_bool(self.s, self.slack)

    def run(self):
        n = {}
        for x in self.root.walk():
            if x.tag == "attributes":
                for i, a in enumerate(x.kids):
                    a.attrs["name"] = "a%d" % i
            if x.tag in ("label", "attribute") and not self.off():
                if x.tag == "label" and not (x.kids and str(x.kids[0]).strip()):
                    x.kids = ["text"]
                for a in ("value", "type"):
                    if a in x.attrs and not x.attrs[a].strip():
                        x.attrs[a] = "text"
            k = KIND.get(x.tag)
            if k and not self.off():
                n[k] = n.get(k, 0) + 1
                x.attrs["name"] = "%s%d" % (k.upper(), n[k])
        self.visit(self.root, None, "")
        self.missing()
        return self.root

    def some(self, kind, own=None, later=False):
        m = [x.attrs["name"] for x in self.scope if KIND.get(x.tag) == kind]
        if later and own in m and not self.off():
            m = m[m.index(own) + 1:]
        return self.s.choice(m) if m else None

    def visit(self, x, p, own):
        """Top-down; own is the name of the definition around."""
        s = self.s
        if p is None or x.tag == "define-event-tree":
            self.tree = x if p is not None else None
        if p is None:
            self.all = list(x.walk())
        if x.tag.startswith("define-"):
            own = x.attrs.get("name", "")
        self.scope = self.all
        if x.tag == "define-basic-event" and not self.off():
            self.bound(x)
        elif x.tag == "define-CCF-group" and not self.off():
            self.group(x)
        elif x.tag == "define-initiating-event" and "event-tree" in x.attrs:
            x.attrs["event-tree"] = self.some("e") or "E9"
            if x.attrs["event-tree"] == "E9":
                del x.attrs["event-tree"]
        elif x.tag == "define-event-tree" and not self.off():
            fe = [k.attrs["name"] for k in x.kids if k.tag == "define-functional-event"]
            for k in x.kids:
                if k.tag in ("define-branch", "initial-state"):
                    self.forks(k, fe)
        elif x.tag == "define-substitution" and not self.off():
            self.substitution(x)
        elif x.tag == "define-alignment" and not self.off():
            ph = [k for k in x.kids if k.tag == "define-phase"]
            for k in ph:
                k.attrs["time-fraction"] = repr(1.0 / len(ph))
        elif x.tag in ("and", "or", "nand", "nor", "xor", "iff", "imply", "atleast",
                       "cardinality", "periodic-test", "extern-function", "min", "max") \
                and not self.off():
            self.arity(x)
        if x.tag in ("gate", "basic-event", "house-event", "parameter", "event", "rule",
                     "event-tree", "sequence", "branch", "extern-function",
                     "set-house-event", "test-initiating-event", "test-functional-event") \
                and not (p is not None and p.tag == "members") and id(x) not in self.keep \
                and not self.off():
            self.refer(x, own)
        if p is not None and p.tag == "model-data":
            x.attrs.pop("role", None)
        if x.tag == "define-extern-function":
            x.attrs["library"] = self.some("l") or "L1"
        for k in list(x.kids):
            if isinstance(k, E):
                self.visit(k, x, own)

    def refer(self, x, own):
        s = self.s
        if x.tag == "event":
            t = x.attrs.get("type")
            kind = {"gate": "g", "basic-event": "b", "house-event": "h"}.get(t) or \
                s.choice(["g", "b", "h"])
        else:
            kind = {"gate": "g", "basic-event": "b", "house-event": "h", "parameter": "p",
                    "rule": "r", "event-tree": "e", "sequence": "s", "branch": "n",
                    "extern-function": "x", "set-house-event": "h",
                    "test-initiating-event": "i", "test-functional-event": "f"}[x.tag]
        if kind in ("s", "n", "f") and self.tree is not None:
            self.scope = list(self.tree.walk())
        n = self.some(kind, own, later=kind in "gprne")
        self.scope = self.all
        if n is None:
            if kind == "g":
                x.tag, x.attrs = "basic-event", {}
                n = self.some("b") or "B1"
            elif kind == "p":
                x.tag, x.attrs = "float", {"value": s.choice(NUMBERS)}
                return
            elif kind == "n":
                x.tag, kind = "sequence", "s"
                self.scope = list(self.tree.walk()) if self.tree is not None else self.all
                n = self.some("s") or "S1"
            elif kind in "re":
                x.tag, x.attrs = "block", {}
                return
            else:
                n = kind.upper() + "1"
        x.attrs["name"] = n

    def bound(self, x):
        """Probabilities of basic events within bounds, most of the time."""
        s = self.s
        if not any(k.tag not in ("label", "attributes") for k in x.kids):
            x.kids.append(E("float", {"value": "0.1"}))
        for i, k in enumerate(x.kids):
            if k.tag in ("label", "attributes"):
                continue
            m = s.weighted([(4, "const"), (3, "test"), (2, "as is")])
            if m == "const":
                x.kids[i] = E("float", {"value": s.choice(["0", "1", "0.1", "0.5", "1e-9"])})
            elif m == "test":
                x.kids[i] = E(s.choice(["lt", "geq", "df"]), {}, k,
                              E("float", {"value": s.choice(NUMBERS)}))

    def group(self, x):
        s = self.s
        for k in x.kids:
            if k.tag == "members":
                k.kids = [E("basic-event", {"name": "%sm%d" % (x.attrs["name"], i)})
                          for i in range(s.int(2, 5))]
                n = len(k.kids)
            elif k.tag == "distribution":
                k.kids = [E("float", {"value": s.choice(["0.1", "0", "1", "0.5"])})]
            elif k.tag in ("factors", "factor"):
                beta = x.attrs["model"] == "beta-factor"
                lo = 2 if x.attrs["model"] in ("beta-factor", "MGL") else 1
                k.tag, k.attrs = "factors", {}
                lv = [n] if beta else list(range(lo, n + 1))
                k.kids = [E("factor", {"level": str(v)},
                            E("float", {"value": repr(1.0 / len(lv)) if lo == 1 else
                                        s.choice(["0.2", "0", "1"])})) for v in lv]

    def substitution(self, x):
        """A hypothesis over basic events, and distinct events."""
        s = self.s
        n = iter(s.sample(["B%d" % i for i in range(1, 9)], 8))
        made = []

        def ev():
            made.append(E("basic-event", {"name": next(n)}))
            return made[-1]
        for k in x.kids:
            if k.tag == "hypothesis":
                k.kids = [E(s.choice(["and", "or"]), {}, ev(), ev()) if s.bool(0.7) else ev()]
                if s.bool(0.2):
                    k.kids = [E("atleast", {"min": "2"}, ev(), ev(), ev())]
            elif k.tag == "source":
                k.kids = [ev() for _ in range(s.int(1, 2))]
            elif k.tag == "target" and s.bool(0.7):
                k.kids = [ev()]
        x.attrs.pop("type", None)
        self.keep |= {id(k) for k in made}
        self.made = getattr(self, "made", []) + made

    def forks(self, x, fe):
        """Functional events in order, each once on a path."""
        for k in x.kids:
            if not isinstance(k, E):
                continue
            if k.tag == "fork":
                if not fe:
                    i = x.kids.index(k)
                    x.kids[i] = E("sequence", {"name": "S1"})
                    continue
                j = self.s.draw(len(fe))
                k.attrs["functional-event"] = fe[j]
                for m, pth in enumerate(k.kids):
                    pth.attrs["state"] = "s%d" % m
                    self.forks(pth, fe[j + 1:])
            else:
                self.forks(k, fe)

    def arity(self, x):
        s = self.s
        if x.tag in ("periodic-test",):
            n = s.choice([4, 5, 11])
            while len(x.kids) < n:
                x.kids.append(E("float", {"value": s.choice(NUMBERS)}))
            x.kids = x.kids[:n]
        elif x.tag in ("min", "max"):
            while len(x.kids) < 2:
                x.kids.append(E("float", {"value": s.choice(NUMBERS)}))
        elif x.tag == "extern-function":
            pass
        else:
            fresh = {"and": 2, "or": 2, "nand": 2, "nor": 2, "atleast": 3}.get(x.tag, 2)
            expr = any(k.tag not in ("gate", "event", "basic-event", "house-event", "not",
                                     "constant") for k in x.kids)
            if expr:
                return
            while len(x.kids) < fresh:
                x.kids.append(E("basic-event", {"name": "B%d" % s.int(1, 4)}))
            n = len(x.kids)
            if x.tag == "atleast":
                x.attrs["min"] = str(s.int(2, n - 1))
            elif x.tag == "cardinality":
                lo = s.int(0, n)
                x.attrs["min"], x.attrs["max"] = str(lo), str(s.int(lo, n))

    def missing(self):
        """Defines what is referred to; drops repeated arguments."""
        if self.off():
            return
        need = {"b": set(), "h": set(), "l": set(), "s": set(), "x": set(), "i": set()}
        tags = {"basic-event": "b", "house-event": "h", "set-house-event": "h"}
        members = set()
        for x in self.root.walk():
            if x.tag == "members":
                members |= {k.attrs.get("name") for k in x.kids}
                continue
            k = tags.get(x.tag) or ("b" if x.tag == "event" and
                                    x.attrs.get("name", "")[:1] == "B" else None) or \
                ("h" if x.tag == "event" and x.attrs.get("name", "")[:1] == "H" else None)
            if k:
                need[k].add(x.attrs.get("name"))
            if x.tag in ("and", "or", "nand", "nor", "xor", "iff", "imply", "atleast",
                         "cardinality"):
                seen = set()
                for i, a in enumerate(x.kids):
                    b = a.kids[0] if a.tag == "not" and a.kids else a
                    n = getattr(b, "attrs", {}).get("name")
                    if n in seen:
                        n = "B%d" % (50 + i)
                        x.kids[i] = E("basic-event", {"name": n})
                        need["b"].add(n)
                    seen.add(n)
        for x in self.root.walk():
            if x.tag == "define-event-tree":
                have = {k.attrs["name"] for k in x.kids if k.tag == "define-sequence"}
                want = {k.attrs["name"] for k in x.walk() if k.tag == "sequence"}
                at = next((i for i, k in enumerate(x.kids)
                           if k.tag in ("define-sequence", "define-branch", "initial-state")), 0)
                for n in sorted(want - have):
                    x.kids.insert(at, E("define-sequence", {"name": n}))
        data = E("model-data")
        for k, tag in (("b", "define-basic-event"), ("h", "define-house-event")):
            have = {x.attrs.get("name") for x in self.root.walk() if x.tag == tag}
            for n in sorted(n for n in need[k] if n and n not in have and
                            not (k == "b" and n in members)):
                data.kids.append(E(tag, {"name": n}, *(
                    [E("float", {"value": "0.1"})] if k == "b" else [])))
        if data.kids:
            self.root.kids.append(data)


EXPR = set("""float int bool parameter system-mission-time add sub mul div neg min max mean exponential
GLM Weibull periodic-test uniform-deviate normal-deviate lognormal-deviate gamma-deviate beta-deviate
histogram ite switch not and or eq df lt gt leq geq pow mod exp log""".split())
FORMULA = set("and or not xor iff nand nor atleast cardinality imply gate event basic-event house-event "
              "constant".split())
INSTR = set("collect-formula collect-expression set-house-event if block rule event-tree".split())


class Mutator:
    """Edits of any document."""

    def __init__(self, s, g):
        self.s, self.g = s, g

    def __call__(self, root, n):
        self.root = root
        self.done = []
        for _ in range(n):
            self.step()
        return root

    def nodes(self):
        out = []

        def walk(x):
            for k in x.kids:
                if isinstance(k, E):
                    out.append((k, x))
                    walk(k)
        walk(self.root)
        return out

    def step(self):
        s = self.s
        ns = self.nodes()
        if not ns:
            return
        x, p = s.choice(ns)
        i = next(j for j, k in enumerate(p.kids) if k is x)
        op = s.choice(["delete", "twice", "copy", "move", "swap", "tag", "value", "value", "value",
                       "number", "number", "drop", "attr", "wrap", "unwrap", "text", "other",
                       "many", "deep", "expr", "expr", "expr", "formula", "instruction"])
        self.done.append(op)
        if op == "delete":
            del p.kids[i]
        elif op == "twice":
            p.kids.insert(i, copy.deepcopy(x))
        elif op in ("copy", "move"):
            y, q = s.choice(ns)
            q.kids.insert(s.draw(len(q.kids) + 1), copy.deepcopy(x))
            if op == "move":
                p.kids[:] = [k for k in p.kids if k is not x]
        elif op == "swap":
            j = s.draw(len(p.kids))
            p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
        elif op == "other":
            y, q = s.choice(ns)
            p.kids[i] = copy.deepcopy(y)
        elif op == "tag":
            x.tag = s.choice(self.g.tags if s.bool() else sorted({k.tag for k, _ in ns}))
        elif op in ("value", "number"):
            have = [k for k, _ in ns if k.attrs]
            if not have:
                return
            y = x if x.attrs else s.choice(have)
            a = s.choice(sorted(y.attrs))
            if op == "number":
                y.attrs[a] = s.choice(NUMBERS + WILD + WILD_INTS + ODD)
            elif s.bool(0.7):
                z = s.choice(have)
                y.attrs[a] = z.attrs[s.choice(sorted(z.attrs))]
            else:
                y.attrs[a] = s.choice(NAMES + TEXTS + self.g.values)
        elif op == "drop":
            if x.attrs:
                del x.attrs[s.choice(sorted(x.attrs))]
        elif op == "attr":
            x.attrs[s.choice(self.g.attrs + ["xmlns", "xml:base"])] = \
                s.choice(self.g.values + NAMES + NUMBERS)
        elif op == "wrap":
            p.kids[i] = E(s.choice(["not", "and", "or", "block", "neg", "add", "fork", "path",
                                    "define-component", "if"] + self.g.tags), {}, x)
        elif op == "unwrap":
            p.kids[i:i + 1] = x.kids
        elif op == "text":
            x.kids = [s.choice(TEXTS + NUMBERS)] if s.bool(0.3) else []
        elif op in ("expr", "formula", "instruction"):
            tags = {"expr": EXPR, "formula": FORMULA, "instruction": INSTR}[op]
            have = [(a, b) for a, b in ns if a.tag in tags and (
                op != "expr" or a.tag not in FORMULA or b.tag not in FORMULA | {"define-gate"})]
            if have and hasattr(self.g, "tags") and "expression" in self.g.defs:
                y, q = s.choice(have)
                wild = s.choice([0, 0.2, 0.6])
                new = self.g.fragment(s, {"expr": "expression"}.get(op, op), Value(s, wild),
                                      s.int(1, 4), weight=lambda n, left: 0 if n in (
                                          "parameter", "extern-function", "test-event") else 1)
                names = {}
                for z, _ in ns:
                    if z.attrs.get("name"):
                        names.setdefault(z.tag, []).append(z.attrs["name"])
                        names.setdefault(KIND.get(z.tag, "#"), []).append(z.attrs["name"])
                for f in new:
                    for z in f.walk():
                        k = {"gate": "g", "rule": "r", "event-tree": "e"}.get(z.tag)
                        have = names.get(k) or names.get(z.tag)
                        if "name" in z.attrs and have:
                            z.attrs["name"] = s.choice(have)
                j = next(j for j, k in enumerate(q.kids) if k is y)
                q.kids[j:j + 1] = new
        elif op == "many":
            n = s.choice([3, 10, 40])
            p.kids[i:i + 1] = [copy.deepcopy(x) for _ in range(n)] if len(ns) < 200 else [x]
        elif op == "deep":
            if len(ns) < 200 and not any("deep" == d for d in self.done[:-1]):
                y = x
                for _ in range(s.choice([3, 20, 60])):
                    y = E(s.choice([x.tag, "not", "block", "neg", "and"]), dict(x.attrs), y)
                p.kids[i] = y


HEADS = [b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0", b"<!--",
         b'<?xml version="1.0" encoding="UTF-16"?>', b'<?xml version="1.0" encoding="latin1"?>',
         b'<?xml version="1.1"?>', b'<!DOCTYPE opsa-mef [<!ENTITY a "b">]>',
         b'<!DOCTYPE opsa-mef [<!ENTITY a "&b;&b;&b;"><!ENTITY b "&c;&c;&c;"><!ENTITY c "x">]>',
         b'<!DOCTYPE opsa-mef SYSTEM "m.xml">',
         b'<!DOCTYPE opsa-mef [<!ATTLIST define-gate role CDATA "private">]>']
BITS = [b"<", b">", b"&", b"&a;", b"&#0;", b"&#x10FFFF;", b"]]>", b"<![CDATA[", b"-->", b"\0",
        b"\xff", b"\xc0\x80", b"\"", b"'", b"/>", b"</", b"<?", b"=", b"\r\n", b"\xe2\x80\xa8",
        b"<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"m.xml\"/>",
        b"<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"nothing\" parse=\"text\"/>"]


def mangle(s, data):
    """Byte edits."""
    d = bytearray(data)
    for _ in range(s.weighted([(4, 1), (3, 2), (2, 4), (1, 12)])):
        if not d:
            break
        op = s.choice(["flip", "set", "del", "dup", "insert", "cut", "head", "swap"])
        i = s.draw(len(d))
        n = s.weighted([(4, 1), (3, 4), (2, 20), (1, 200)])
        if op == "flip":
            d[i] ^= 1 << s.draw(8)
        elif op == "set":
            d[i] = s.draw(256)
        elif op == "del":
            del d[i:i + n]
        elif op == "dup":
            d[i:i] = d[i:i + n] * s.weighted([(5, 1), (1, 50)])
        elif op == "insert":
            d[i:i] = s.choice(BITS)
        elif op == "cut":
            del d[i:]
        elif op == "head":
            h = s.choice(HEADS)
            if s.bool() and d.startswith(b"<?xml") and b">" in d:
                d[:d.index(b">") + 1] = h
            else:
                d[0:0] = h
        else:
            j = s.draw(len(d))
            a, b = bytes(d[i:i + n]), bytes(d[j:j + n])
            d[i:i + n] = b
    return bytes(d)


def gen_settings(s, small):
    """Any settings; the sizes stay such that an analysis ends soon."""
    alg = s.choice(["bdd", "zbdd", "mocus"])
    st = {"algorithm": alg}
    if s.bool(0.5):
        st["approximation"] = s.choice(["none", "rare-event", "mcub"])
    elif alg == "bdd" and s.bool(0.5):
        st["prime_implicants"] = True
    st["limit_order"] = s.weighted([(5, 20), (1, 0), (1, 1), (2, 3), (1, 2147483647)])
    st["mission_time"] = s.weighted([(6, 8760.0), (2, 0.0), (2, 1.0), (1, 1e-300), (1, 1e300),
                                     (2, 100.5)])
    st["probability"] = s.bool(0.85)
    st["importance"] = s.bool(0.5)
    st["uncertainty"] = s.bool(0.35)
    st["ccf"] = s.bool()
    if s.bool(0.35):
        m = st["mission_time"]
        st["time_step"] = s.choice([m / 2, m / 7, m, m * 3, 1e300, m / 100]) or 1.0
        st["sil"] = s.bool()
    st["seed"] = s.choice([0, 1, 372, 2147483647])
    if st["uncertainty"]:
        st["num_trials"] = s.choice([1, 2, 10, 100])
        st["num_bins"] = s.choice([1, 3, 20, 10000])
        st["num_quantiles"] = s.choice([1, 4, 20, 1000])
    if s.bool(0.2):
        st["cut_off"] = s.choice([0.0, 1.0, 1e-300])
    return st


class C15(DrvCheck):
    id = "C15"
    rule = ("an input that the tool read further than its start: a well-formed document, or "
            "edits of the bytes of one")
    quick_cases = 16000
    quick_wall = 150
    thorough_cases = 1000000
    thorough_wall = 700
    variants = ("asan",)
    targets = ("sdrv", "clidrv")
    assumptions = [
        "memory errors and undefined behaviour are what the address and undefined-behaviour sanitizers (with float-cast-overflow) and the standard library's assertions report at -O1",
        "documents of up to about 200 elements, so that neither time, stack nor memory runs out on a legitimate analysis",
    ]

    def open(self):
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
                               "max_allocation_size_mb=6000:handle_abort=0:"
                               "detect_stack_use_after_return=0:symbolize=1",
               "UBSAN_OPTIONS": "print_stacktrace=1"}
        self.drv = Driver(self.bins["asan"]["sdrv"], mem=0, env=env)
        self.cli = Cli(self.bins["asan"]["clidrv"], mem=0, env=env)
        self.g = rng.Grammar(os.path.join(REPO, "share/input.rng"))
        self.pg = rng.Grammar(os.path.join(REPO, "share/project.rng"))

    def close(self):
        super().close()
        self.cli.close()

    # -- inputs --
    def grammar(self, s):
        wild = s.choice([0, 0.02, 0.1, 0.4])
        slack = s.choice([0, 0, 0, 0, 0, 0, 0.01, 0.05, 0.3])
        many = {"#": 4, "opsa-mef": s.int(1, 7), "define-fault-tree": s.int(1, 9),
                "define-event-tree": 3, "model-data": s.int(1, 5), "define-component": 3}
        favour = {"event-tree-definition": 2, "fault-tree-definition": 5,
                  "initiating-event-definition": 2, "gate-definition": 3,
                  "extern-library-definition": s_bool(s, 0.1),
                  "extern-function-definition": s_bool(s, 0.1), "event-definition": 6,
                  "Boolean-constant": 1, "event": 4}
        for k in ("fork", "end-state", "instruction", "numerical-operation", "Boolean-operation",
                  "conditional-operation", "built-in", "random-deviate", "constant", "parameter",
                  "CCF-group-definition", "component-definition", "collect-formula", "link", "rule",
                  "substitution-definition", "alignment-definition", "rule-definition"):
            favour[k] = s.choice([1, 1, 4])
        root = self.g.document(
            s, Value(s, wild), lambda tag, where: many.get(tag, 2), depth=s.int(5, 11),
            weight=lambda n, left: int(favour.get(n, 1)))
        if slack < 0.3:
            Linker(s, root, slack).run()
        return root

    def expression(self, s):
        """A small tree over expressions of all kinds."""
        wild = s.choice([0, 0.1, 0.3, 0.6])
        fav = {k: s.choice([1, 1, 4]) for k in ("constant", "random-deviate", "built-in",
                                                  "conditional-operation")}
        fav.update({"parameter": 1, "test-event": s.draw(2), "extern-function": 0,
                    "operation": 2, "numerical-operation": 5, "Boolean-operation": 2})

        def expr(d):
            return self.g.fragment(s, s.choice(["expression", "numerical-operation", "built-in",
                                                "random-deviate"]), Value(s, wild), d,
                                   weight=lambda n, left: fav.get(n, 1))[0]
        pars = ["P%d" % i for i in range(s.int(0, 2))]
        root = E("opsa-mef")
        tree = E("define-fault-tree", {"name": "T"})
        data = E("model-data")
        n = s.int(1, 3)
        tree.add(E("define-gate", {"name": "G"}, *(
            [E("or", {}, *[E("basic-event", {"name": "B%d" % i}) for i in range(n)])]
            if n > 1 else [E("basic-event", {"name": "B0"})])))
        for i, q in enumerate(pars):
            x = expr(s.int(1, 4))
            for k in list(x.walk()):
                if k.tag == "parameter":
                    k.tag, k.attrs, k.kids = "system-mission-time", {}, []
                    if i + 1 < len(pars) and s.bool():
                        k.tag, k.attrs = "parameter", {"name": pars[-1], "done": "1"}
            data.add(E("define-parameter", {"name": q}, x))
        for i in range(n):
            x = expr(s.int(1, 4))
            m = s.weighted([(5, "test"), (3, "raw"), (1, "ite"), (1, "exp"), (1, "mul"), (1, "ccf")])
            c = lambda: E("float", {"value": s.choice(NUMBERS)})
            if m == "test":
                x = E(s.choice(["lt", "geq", "df", "eq"]), {}, *s.shuffle([x, c()]))
            elif m == "ite":
                x = E("ite", {}, x, E("float", {"value": "0.5"}), E("float", {"value": "0.1"}))
            elif m == "exp":
                x = E("exponential", {}, E("abs", {}, x), E("system-mission-time"))
            elif m == "mul":
                x = E("mul", {}, E("and", {}, x, x), c())
            if m == "ccf":
                k = s.int(2, 3)
                data2 = E("define-CCF-group", {"name": "K%d" % i, "model": s.choice(
                    ["beta-factor", "MGL", "alpha-factor", "phi-factor"])},
                    E("members", {}, *[E("basic-event", {"name": "B%d%s" % (i, j or "")})
                                       for j in range(k)]),
                    E("distribution", {}, x),
                    E("factors", {}, *[E("factor", {"level": str(v)}, expr(2) if s.bool(0.3) else
                                         E("float", {"value": s.choice(["0", "0.5", "1", "0.2"])}))
                                       for v in range(s.int(1, 2), k + 1)]))
                tree.add(data2)
            else:
                data.add(E("define-basic-event", {"name": "B%d" % i}, x))
        root.add(tree, data)
        for x in list(root.walk()):
            if s.bool(0.97):
                x.attrs.pop("unit", None)
            if x.attrs.pop("done", None):
                continue
            if x.tag == "parameter":
                i = s.draw(len(pars) + 1)
                if i < len(pars):
                    x.attrs = {"name": pars[i]}
                else:
                    x.tag, x.attrs, x.kids = "system-mission-time", {}, []
            elif x.tag == "extern-function":
                x.tag, x.attrs, x.kids = "float", {"value": s.choice(WILD + NUMBERS)}, []
            elif x.tag == "periodic-test":
                Linker(s, root, 0).arity(x)
            elif x.tag in ("add", "sub", "mul", "div", "min", "max", "mean", "and", "or") \
                    and len(x.kids) == 1:
                x.kids.append(E("float", {"value": s.choice(NUMBERS)}))
        return root

    def model(self, s):
        y = sink.gen_sys(s, ets=0.35, ccf=0.35, aligns=0.2, subs=0.25, devs=0.3)
        lay = sink.Layout(s, y, depth=s.int(0, 2), names=s.choice(["plain", "fancy"]),
                          meta=s.choice([0, 0.2]))
        files, use = lay.files()
        return files[0][1]

    def clean(self, s):
        """A larger valid tree."""
        t = ft.gen_ft(s, max_basic=s.int(6, 14), max_gates=s.int(8, 30))
        return t

    def case(self, s):
        kind = s.weighted([(6, "grammar"), (5, "edited model"), (3, "valid model"),
                           (3, "bytes"), (4, "expression"), (2, "project"), (2, "options")])
        self.tags = [kind]
        if kind in ("project", "options"):
            return getattr(self, kind)(s)
        if kind in ("grammar", "expression"):
            root = getattr(self, kind)(s)
            if s.bool(0.15):
                Mutator(s, self.g)(root, s.int(1, 3))
            text = root.text()
        else:
            text = self.model(s)
            if kind == "edited model":
                root = rng.parse(text)
                Mutator(s, self.g)(root, s.weighted([(5, 1), (4, 2), (2, 5)]))
                text = root.text()
        data = text.encode("utf-8", "replace")
        if kind == "bytes":
            data = mangle(s, data)
        elif len(data) > 60000:
            raise Discard("a large document")
        st = gen_settings(s, True)
        self.last_files = [("m.xml", data.decode("utf-8", "replace"))]
        self.last_settings = st
        r = self.try_(data, st, s)
        return self.result(r, data, st)

    def result(self, r, data, st):
        if "timeout" in r:
            raise Discard("slow")
        if "error" in r:
            end = r["error"].split("::")[-1]
            self.tags.append("rejected" if r["kind"] == "user" else "internal error " + end)
            self.tags.append("%s: %s" % (self.tags[0], end))
        else:
            self.tags.append("accepted")
        return Result(hashlib.sha1(repr((data, st)).encode()).hexdigest(),
                      {"input": data.decode("utf-8", "replace")[:600], "settings": st,
                       "result": r.get("what", "accepted")[:200]}, self.tags)

    def try_(self, data, st, s):
        r = self.load([("m.xml", data)], st, timeout=30, crash_ok=True, hang_ok=True,
                      report=self.drv.scratch.path("out.xml"), analyze=1,
                      dump=s.bool(0.5), samples=3, structure=s.bool(0.2))
        if "ok" in r and s.bool(0.2):
            r2 = self.load([("m.xml", data)], st, timeout=30, crash_ok=True, hang_ok=True,
                           analyze=0, serialize=self.drv.scratch.path("ser.xml"))
            if "error" not in r2 or r2["error"] != "scram::IOError":
                r = r2
        if "crash" in r:
            self.last_files = [("m.xml", data.decode("utf-8", "replace"))]
            self.fail("the tool died (status %s): %s" % (r["crash"], head(r["stderr"])),
                      sig="crash:" + crash_sig(r["stderr"]), extra=r["stderr"])
        if r.get("kind") not in (None, "user"):
            self.last_files = [("m.xml", data.decode("utf-8", "replace"))]
            self.fail("an internal error: %s: %s (%s)" % (r["error"], r.get("what"), r["stage"]),
                      sig="internal:%s %s" % (r["error"], re.sub(r"\d+", "#", r.get("what", ""))[:60]))
        return r

    # -- the tool --
    def tool(self, args, files, s):
        names = []
        for n, d in files:
            self.cli.scratch.write(n, d)
        self.last_files = [(n, d.decode("utf-8", "replace") if isinstance(d, bytes) else d)
                           for n, d in files]
        self.last_settings = {"args": args}
        rc, o, e = self.cli.run(args, timeout=30)
        if rc is None:
            raise Discard("slow")
        e = e.decode("utf-8", "replace")
        if rc not in (0, 1):
            self.fail("the tool died (status %s): %s" % (rc, head(e)), sig="crash:" + crash_sig(e),
                      extra=e[-3000:])
        if rc == 1 and not e.strip():
            self.fail("status 1 without a message", sig="silent")
        if "Logic Error" in e or "Unexpected" in e:
            self.fail("an internal error: %s" % e[-600:],
                      sig="internal:" + re.sub(r"\d+|0x\w+", "#", e)[:100])
        self.tags.append("accepted" if rc == 0 else "rejected")
        return Result(hashlib.sha1(repr((files, args)).encode()).hexdigest(),
                      {"args": args, "input": self.last_files[0][1][:300], "status": rc,
                       "message": e[-200:]}, self.tags)

    def project(self, s):
        wild = s.choice([0, 0.05, 0.3])
        model = self.model(s).encode()

        def value(typ, where):
            if typ in ("double", "integer", "positiveInteger", "nonNegativeInteger"):
                if s_bool(s, wild):
                    return s.choice(WILD_INTS + WILD)
                return s.choice(["1", "2", "3", "20", "500"])
            if typ == "boolean":
                return s.choice(["true", "false", "1", "0"])
            if where.endswith("@version"):
                return s.choice(["0.16", "1", "0.1.2.3", "99999999999.1", "0", "", "0.-1", "0.16.1"])
            if where == "file":
                return s.choice(["m.xml", "m.xml", "m.xml", "none.xml", ".", "", "/dev/null",
                                 "p.xml", "m.xml/x"])
            return s.choice(["m.xml", "none", "/dev/null", ".", "text"]
                            + (TEXTS if wild else []))
        root = self.pg.document(s, value, lambda t, w: 2, depth=9)
        for x in root.walk():
            # The times and sizes that would take too long.
            if x.tag in ("mission-time",) and x.kids:
                x.kids = [s.choice(["100", "0", "8760", "1e-300"])]
            if x.tag in ("time-step",):
                x.kids = [s.choice(["50", "0", "8760", "1e300"])]
            if x.tag in ("number-of-trials", "number-of-quantiles", "number-of-bins") \
                    and x.kids and len(str(x.kids[0])) > 4 and str(x.kids[0]).isdigit():
                x.kids = ["100"]
        if s.bool(0.3):
            Mutator(s, self.pg)(root, s.int(1, 3))
        d = root.text().encode("utf-8", "replace")
        if s.bool(0.15):
            d = mangle(s, d)
        return self.tool(["--project", "p.xml"], [("p.xml", d), ("m.xml", model)], s)

    def options(self, s):
        """Arguments of the tool."""
        args = []
        files = [("m.xml", self.model(s).encode())]
        heavy = {"num-trials", "num-quantiles", "num-bins"}
        for _ in range(s.int(0, 6)):
            k = s.choice(["flag", "value", "value", "debug", "odd"])
            if k == "flag":
                args.append("--" + s.choice(
                    ["bdd", "zbdd", "mocus", "prime-implicants", "probability", "importance",
                     "uncertainty", "ccf", "sil", "rare-event", "mcub"]))
            elif k == "value":
                n = s.choice([v[1] for v in LIMITS.values()])
                v = s.choice(["1", "2", "5", "20", "100", "0", "-1", "x", "", "1.5", "2147483648",
                              "nan", "1e-9", "99999999999999999999"])
                if n in ("mission-time", "time-step"):
                    v = s.choice(["100", "0", "8760", "-1", "nan", "x", "", "1e-300"]) if \
                        n == "mission-time" else s.choice(["50", "8760", "0", "x", "-1"])
                args += ["--" + n, v] if s.bool() else ["--%s=%s" % (n, v)]
            elif k == "debug":
                args += s.choice([["--preprocessor"], ["--print"], ["--serialize"],
                                  ["--validate"], ["--no-report"], ["--no-indent"],
                                  ["--verbosity", s.choice(["0", "1", "5", "7", "8", "-1", "x"])]])
            else:
                args += s.choice([["-o", "out.xml"], ["-o", "none"], ["-o", "none/x"],
                                  ["--help"], ["--version"], ["--allow-extern"], ["-"], ["--"],
                                  ["--unknown"], ["-p"], ["-o"], ["m.xml"], ["none.xml"],
                                  ["--project", "m.xml"], ["/dev/null"], ["--config-file", "m.xml"],
                                  [""], ["--\u00e9"], ["x" * 300]])
        if s.bool(0.85):
            args.insert(s.draw(len(args) + 1), "m.xml")
        args = [a for a in args if a != "."]
        return self.tool(args, files, s)


def head(err):
    m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer.*|[^\n]*Assertion.*|terminate .*(?:\n.*)?)", err)
    return m.group(1)[:300] if m else err[-300:]
