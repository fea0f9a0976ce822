"""C16 saving and loading models."""
import hashlib
import os
import xml.etree.ElementTree as ET

from .. import sink
from ..base import DrvCheck, close
from ..driver import Cli, settings_fields
from ..engine import Discard, Result
from ..ft import show
from ..results import difference, normal
from ..xmlw import E


class Sheet(sink.Layout):
    """A layout with the expressions as elements."""

    def expr(self, ast, base):
        return xml(ast[1], ast[2]) if ast else None


def xml(t, style):
    if t[0] == "constant":
        v = t[1]
        if style and v == int(v):
            return E("bool", {"value": "true" if v else "false"}) if style == 2 and v in (0, 1) \
                else E("int", {"value": int(v)})
        return E("float", {"value": repr(v)})
    if t[0] == "mission time":
        return E("system-mission-time")
    return E("exponential", {}, *[xml(a, style) for a in t[1:]])


EXP = "scram::mef::Exponential"


def gen_tree(s):
    k = s.weighted([(6, "number"), (2, "edge"), (4, "exp")])
    if k == "number":
        return ["constant", number(s)]
    if k == "edge":
        return ["constant", s.choice([0.0, 1.0, 5e-324, 2.2250738585072014e-308,
                                      1 - 2 ** -53, 1e-17, 0.1 + 0.2, 1 / 3])]
    lam = ["constant", s.choice([0.0, 1e-5, 3.14159265358979e-6, number(s), 7.0, 123456789.123])]
    if s.bool(0.1):
        lam = [EXP, ["constant", number(s)], ["constant", number(s)]]
    t = ["mission time"] if s.bool(0.6) else ["constant", s.choice([8760.0, number(s) * 1e4, 12345678.9, 0.0])]
    return [EXP, lam, t]


def number(s):
    d = s.choice([1, 2, 4, 6, 7, 9, 12, 15, 16, 17])
    v = s.int(1, 10 ** d - 1) / 10.0 ** d if d < 17 else s.int(1, (1 << 53) - 1) / 2.0 ** 53
    return v * 10.0 ** -s.choice([0, 0, 0, 3, 9, 50])


SPACES = ["\n", "\t", "\r", "\r\n", "  ", "&", "<", ">", '"', "'", "]]>", "]]]>", "]>", "&amp;lt;",
          "\u2028", "\x85", "\ufffd", "\U0010ffff", "\u0301"]


def text(s):
    t = sink.gen_text(s)
    for _ in range(s.weighted([(3, 0), (3, 1), (1, 3)])):
        k = s.draw(len(t) + 1)
        t = t[:k] + s.choice(SPACES) + t[k:]
    return t.strip(" \n\t\r") or "t"


def gen_meta(s, p):
    label = text(s) if s.bool(p) else None
    attrs = None
    if s.bool(p):
        attrs = []
        for n in s.sample(["flavor", "unit", "x", "source", sink.gen_name(s)], s.int(0, 3)):
            if all(a[0] != n for a in attrs):
                attrs.append((n, text(s), text(s) if s.bool(0.4) else None))
    return label, attrs


def flat(meta):
    """As the tool has it."""
    label, attrs = meta
    return label or "", [[n, v, t or ""] for n, v, t in attrs or []]


def canon(text):
    """The file without the order of definitions."""
    def go(e):
        kids = [go(k) for k in e]
        if any(k.tag.startswith("define-") for k in e):
            kids.sort(key=lambda k: (k[0], k[1]))
        return e.tag, sorted(e.attrib.items()), (e.text or "") if not len(e) else "", kids
    return go(ET.fromstring(text))


class C16(DrvCheck):
    id = "C16"
    rule = ("a model with gates of all connectives, constant and exponential probabilities, "
            "labels and attributes with special characters, saved, loaded and saved again; or "
            "a model outside the saveable subset, which must be refused")
    quick_cases = 16000
    quick_wall = 45
    thorough_cases = 300000
    thorough_wall = 700
    targets = ("sdrv", "scram", "clidrv")
    assumptions = [
        "the order of definitions in the file has no meaning",
        "events stay in the model but move from fault trees to model-data, which changes no identifier of public events",
        "labels and attributes of constructs other than fault trees, gates and events, and of the model, are outside the saveable subset",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])

    def close(self):
        super().close()
        self.cli.close()

    def settings(self, s, prob):
        st = {"algorithm": s.choice(["bdd", "zbdd", "mocus"]), "limit_order": 6,
              "probability": prob and s.bool(0.8)}
        if s.bool():
            st["mission_time"] = float(s.choice([100, 5000]))
        return st

    def case(self, s):
        refuse = s.bool(0.15)
        y = sink.gen_sys(s, ets=0, ccf=0, aligns=0, subs=0, max_basic=8, max_gates=9)
        y.params, y.units = {}, {}
        prob = s.bool(0.8)
        for b in y.ft.basics:
            y.ft.basics[b] = ("tree", gen_tree(s), s.draw(3)) if prob or s.bool() else None
        lay = Sheet(s, y, depth=0, private=0, names=s.choice(["plain", "fancy"]),
                    model_scope=s.choice([0, 0.4]))
        p = s.choice([0, 0.3, 0.7])
        lay.model_meta = gen_meta(s, p)
        lay.model_name = sink.gen_name(s) if s.bool(0.4) else None
        for e in list(lay.ents.values()) + lay.conts:
            e.meta = gen_meta(s, p)
        items = lay.top_items()
        st = self.settings(s, prob)
        if refuse:
            return self.refused(s, y, lay, items, st)
        files, use = self.files(s, lay, items)
        d = self.drv.scratch
        one, two = d.path("saved1.xml"), d.path("saved2.xml")
        for f in (one, two):
            if os.path.exists(f):
                os.unlink(f)
        r = self.run_ok(files, st, structure=1, dump=1, analyze=1, serialize=one, use=use)
        self.loaded(r, y, lay)
        saved = open(one, "rb").read()
        self.detail_files = files
        r2 = self.again(files, saved, one, st, two)
        saved2 = open(two, "rb").read()
        self.last_files = list(files) + [("saved1.xml", saved.decode("utf-8", "replace")),
                                         ("saved2.xml", saved2.decode("utf-8", "replace"))]
        self.same(r, r2)
        self.contents(saved, y, lay)
        if canon(saved) != canon(saved2):
            self.fail("the second saving differs from the first", sig="not idempotent")
        tags = self.tags(y, lay)
        if s.bool(0.1):
            self.command_line(s, one, saved)
            tags.append("command line")
        key = hashlib.sha1(repr(files).encode()).hexdigest()
        return Result(key, {"tree": show(y.ft)[:200], "labels": [
            e.meta[0] for e in lay.ents.values() if e.meta[0]][:5],
            "expressions": [a[1] for a in y.ft.basics.values() if a][:4]}, tags)

    def tags(self, y, lay):
        t = {f[0] for f in y.ft.gates.values()}
        t |= {"exponential" for a in y.ft.basics.values() if a and a[1][0] == EXP}
        m = [e.meta for e in list(lay.ents.values()) + lay.conts]
        t |= {"label" for x in m if x[0]} | {"attributes" for x in m if x[1]}
        x = repr(m)
        t |= {"]]>"} if "]]>" in x else set()
        t |= {"white space"} if "\\n" in x or "\\t" in x or "\\r" in x else set()
        t |= {"constant argument" for f in y.ft.gates.values() for a in f[1] if a[1] == "c"}
        return sorted(t)

    def files(self, s, lay, items):
        lay.top_items = lambda: items
        return lay.files(n=2, noise=s.choice([0, 0.3]))

    def again(self, files, saved, one, st, two):
        fields = [("file", one)] + settings_fields(st) + [
            ("structure", "1"), ("dump", "1"), ("analyze", "1"), ("serialize", two)]
        self.last_files = list(files) + [("saved1.xml", saved.decode("utf-8", "replace"))]
        r = self.drv.request(fields, 20)
        if "timeout" in r or "crash" in r:
            self.fail("loading the saved model: %s" % r, sig="crash on reload")
        if "error" in r:
            self.fail("the saved model is rejected: %s %s" % (r["error"], r.get("what")),
                      sig="rejected: %s" % r["error"])
        return r

    def loaded(self, r, y, lay):
        """The first load has what the file says."""
        z = r["structure"]
        lab, at = flat(lay.model_meta)
        if (z["model"]["label"], z["model"]["attributes"]) != (lab, at):
            self.fail("the model has %s; expected %s" % (z["model"], (lab, at)), sig="load: model")
        if lay.model_name and z["model"]["name"] != lay.model_name:
            self.fail("model name %r" % z["model"]["name"], sig="load: model name")
        for k, f in (("g", "gates"), ("b", "basic_events"), ("h", "house_events")):
            for (kk, n), e in lay.ents.items():
                if kk != k:
                    continue
                x = z[f].get(e.id)
                if x is None or x["name"] != e.name or (x["label"], x["attributes"]) != flat(e.meta):
                    self.fail("%s is %s; expected %s" % (e.id, x, flat(e.meta)), sig="load: " + f)
                if k == "b":
                    a = y.ft.basics[n]
                    w = a[1] if a else ""
                    if x["expression"] != w:
                        self.fail("the expression of %s is %s; expected %s" % (e.id, x["expression"], w),
                                  sig="load: expression")
        for c in lay.fts:
            x = z["fault_trees"].get(c.path)
            if x is None or (x["label"], x["attributes"]) != flat(c.meta):
                self.fail("fault tree %s is %s; expected %s" % (c.path, x, flat(c.meta)), sig="load: fault tree")

    def same(self, a, b):
        x, y = a["structure"], b["structure"]
        for f in ("model", "gates", "basic_events", "house_events"):
            if x[f] != y[f]:
                d = [(k, x[f].get(k), y[f].get(k)) for k in set(x[f]) | set(y[f])
                     if x[f].get(k) != y[f].get(k)]
                self.fail("%s changed: %s" % (f, d[:3]), sig="round trip: " + f)
        cut = lambda z: {k: {q: v[q] for q in ("name", "label", "attributes", "gates")}
                         for k, v in z["fault_trees"].items()}
        if cut(x) != cut(y):
            self.fail("fault trees changed: %s %s" % (cut(x), cut(y)), sig="round trip: fault trees")
        for f in ("gates", "basic_events", "house_events", "mission_time"):
            if a["dump"][f] != b["dump"][f]:
                self.fail("%s: %s and %s" % (f, a["dump"][f], b["dump"][f]), sig="round trip: " + f)
        d = difference(normal(a["run"], str), normal(b["run"], str))
        if d:
            self.fail("analysis results changed: %s %s: %s and %s" % d, sig="round trip: results")

    def contents(self, saved, y, lay):
        """The file itself, read by another parser."""
        try:
            root = ET.fromstring(saved)
        except ET.ParseError as x:
            self.fail("the saved file is not well-formed: %s" % x, sig="not well-formed")
        seen = {}

        def meta(e):
            lab = e.find("label")
            at = [[a.get("name"), a.get("value"), a.get("type") or ""]
                  for a in e.findall("attributes/attribute")]
            return ("" if lab is None else lab.text or ""), at
        for e in root.iter():
            if e.tag.startswith("define-"):
                k = (e.tag, e.get("name"))
                if k in seen:
                    self.fail("%s is there twice" % (k,), sig="duplicate in the file")
                seen[k] = meta(e)
        want = {("define-fault-tree", c.name): flat(c.meta) for c in lay.fts}
        for (k, n), e in lay.ents.items():
            want["define-" + sink.TAG[k], e.name] = flat(e.meta)
        if seen != want:
            d = [(k, seen.get(k), want.get(k)) for k in sorted(set(seen) | set(want))
                 if seen.get(k) != want.get(k)]
            self.fail("the file has %s" % d[:3], sig="contents")
        if meta(root) != flat(lay.model_meta) or root.get("name") != lay.model_name:
            self.fail("the root has %s %s" % (root.get("name"), meta(root)), sig="contents: root")

    def command_line(self, s, one, saved):
        rc, o, e = self.cli.run(["--serialize", one], 20)
        if rc != 0:
            self.fail("--serialize: exit status %s" % rc, sig="command line",
                      extra=e[-1000:].decode("utf-8", "replace"))
        if canon(o) != canon(saved):
            self.fail("--serialize prints another text than was saved", sig="command line text")

    # -- models that cannot be saved -----------------------------------------

    def refused(self, s, y, lay, items, st):
        kind = s.choice(["parameter", "ccf", "event tree", "alignment", "substitution",
                         "component", "private", "expression", "nested expression", "extern library"])
        names = [e for (k, n), e in lay.ents.items() if k == "b" and y.ft.basics[n]]
        defs = {x.attrs["name"]: x for i in items for x in i.walk() if x.tag == "define-basic-event"}
        fts = [x for x in items if x.tag == "define-fault-tree"]
        c = lambda v: E("float", {"value": v})
        extra = None
        if kind == "parameter":
            extra = E("define-parameter", {"name": "pp"}, c(0.5))
            if s.bool():
                s.choice(fts).kids.append(extra)
                extra = None
            else:
                extra = E("model-data", {}, extra)
        elif kind == "ccf":
            extra = E("define-CCF-group", {"name": "cc", "model": "beta-factor"},
                      E("members", {}, E("basic-event", {"name": "cm1"}), E("basic-event", {"name": "cm2"})),
                      E("distribution", {}, c(0.1)), E("factor", {"level": "2"}, c(0.1)))
        elif kind == "event tree":
            extra = E("define-event-tree", {"name": "et"}, E("define-sequence", {"name": "sq"}),
                      E("initial-state", {}, E("sequence", {"name": "sq"})))
        elif kind == "alignment":
            extra = E("define-alignment", {"name": "al"}, E("define-phase", {"name": "ph", "time-fraction": "1"}))
        elif kind == "substitution":
            if not names:
                raise Discard("no event")
            n = s.choice(names).name
            extra = E("define-substitution", {"name": "su"}, E("hypothesis", {}, E("basic-event", {"name": n})),
                      E("target", {}, E("constant", {"value": "false"})))
        elif kind == "extern library":
            extra = E("define-extern-library", {"name": "lib", "path": "libm.so.6", "system": "true"})
        elif kind == "component":
            s.choice(fts).kids.append(E("define-component", {"name": "co"}, *(
                [E("define-basic-event", {"name": "xb"}, c(0.1))] if s.bool() else
                [E("define-gate", {"name": "xg"}, E("constant", {"value": "true"}))])))
        elif kind == "private":
            s.choice(fts).kids.append(s.choice([
                lambda: E("define-gate", {"name": "xg", "role": "private"}, E("constant", {"value": "true"})),
                lambda: E("define-basic-event", {"name": "xb", "role": "private"}, c(0.1)),
                lambda: E("define-house-event", {"name": "xh", "role": "private"})])())
        else:
            if not names:
                raise Discard("no expression")
            x = defs[s.choice(names).name]
            bad = s.choice([lambda: E("mul", {}, c(0.5), c(0.5)), lambda: E("uniform-deviate", {}, c(0.1), c(0.2)),
                            lambda: E("GLM", {}, c(0.1), c(0.01), c(0.1), c(10)),
                            lambda: E("pow", {}, c(0.5), c(2)), lambda: E("neg", {}, c(-0.5))])()
            if kind == "nested expression":
                bad = E("exponential", {}, bad, E("system-mission-time"))
            x.kids[-1] = bad
        if extra is not None:
            items.insert(s.draw(len(items) + 1), extra)
        text = E("opsa-mef", {}, *items).text()
        out = self.drv.scratch.path("saved1.xml")
        before = s.choice([None, b"something else\n"])
        if before is None:
            if os.path.exists(out):
                os.unlink(out)
        else:
            with open(out, "wb") as f:
                f.write(before)
        r = self.load(text, st, analyze=0, serialize=out, **({"extern": 1} if kind == "extern library" else {}))
        if "error" not in r:
            self.fail("a model with a %s was saved" % kind, sig="saved in spite of: " + kind)
        if r.get("stage") != "serialize" or r.get("kind") != "user":
            self.fail("saving a model with a %s: %s" % (kind, r), sig="refusal: " + kind)
        after = open(out, "rb").read() if os.path.exists(out) else None
        if after != before:
            self.fail("the refused saving (%s) left %r in the file" % (kind, after), sig="refusal touches the file")
        return Result(hashlib.sha1(text.encode()).hexdigest(), {"refused": kind, "what": r.get("what")},
                      ["refused: " + kind])
