"""Random documents from a RELAX NG grammar (XML syntax), and parsing to E."""
import xml.etree.ElementTree as ET

from .xmlw import E

NS = "{http://relaxng.org/ns/structure/1.0}"


def to_e(x):
    """An ElementTree element as an E."""
    e = E(x.tag, dict(x.attrib))
    if x.text and x.text.strip():
        e.kids.append(x.text)
    for k in x:
        if isinstance(k.tag, str):
            e.kids.append(to_e(k))
        if k.tail and k.tail.strip():
            e.kids.append(k.tail)
    return e


def parse(text):
    return to_e(ET.fromstring(text))


class Grammar:
    """Documents of the grammar; values come from a callback."""

    def __init__(self, path):
        root = ET.parse(path).getroot()
        self.defs = {}
        self.start = None
        for d in root:
            if d.tag == NS + "define":
                self.defs[d.get("name")] = list(d)
            elif d.tag == NS + "start":
                self.start = list(d)
        self.tags, self.attrs, self.values = set(), set(), set()
        for x in root.iter():
            if x.tag == NS + "element":
                self.tags.add(x.get("name"))
            elif x.tag == NS + "attribute":
                self.attrs.add(x.get("name"))
            elif x.tag == NS + "value":
                self.values.add(x.text)
        self.tags, self.attrs, self.values = (sorted(v) for v in (self.tags, self.attrs, self.values))
        # The least depth of elements of every pattern.
        self.depth = {k: 1000 for k in self.defs}
        for _ in range(60):
            for k, v in self.defs.items():
                self.depth[k] = self.group_depth(v)

    def group_depth(self, ps):
        return max([self.pat_depth(p) for p in ps] or [0])

    def pat_depth(self, p):
        t = p.tag[len(NS):]
        if t == "element":
            return 1 + self.group_depth(list(p))
        if t in ("optional", "zeroOrMore", "data", "value", "empty", "text", "attribute"):
            return 0
        if t == "choice":
            return min(self.pat_depth(k) for k in p)
        if t == "ref":
            return self.depth.get(p.get("name"), 1000)
        return self.group_depth(list(p))

    def document(self, s, value, more=lambda tag, where: 2, depth=9, weight=None):
        self.s, self.value, self.more, self.weight = s, value, more, weight
        top = E("#")
        for p in self.start:
            self.gen(p, top, depth, "#")
        return top.kids[0]

    def fragment(self, s, name, value, depth=6, more=lambda tag, where: 2, weight=None):
        self.s, self.value, self.more, self.weight = s, value, more, weight
        top = E("#")
        for p in self.defs[name]:
            self.gen(p, top, depth, "#")
        return top.kids

    def gen(self, p, out, left, path):
        s = self.s
        t = p.tag[len(NS):]
        if t == "element":
            e = E(p.get("name"))
            out.kids.append(e)
            for k in p:
                self.gen(k, e, left - 1, e.tag)
        elif t == "attribute":
            v = E("#")
            v.tag = out.tag + "/@" + p.get("name")
            for k in p:
                self.gen(k, v, left, v.tag)
            out.attrs[p.get("name")] = "".join(v.kids)
        elif t == "optional":
            if all(self.pat_depth(k) <= left for k in p) and s.bool(0.35):
                for k in p:
                    self.gen(k, out, left, path)
        elif t in ("zeroOrMore", "oneOrMore"):
            n = 1 if t == "oneOrMore" else 0
            if all(self.pat_depth(k) <= left for k in p):
                n += s.draw(self.more(out.tag, path) + 1)
            for _ in range(n):
                for k in p:
                    self.gen(k, out, left, path)
        elif t == "choice":
            ks = [k for k in p if self.pat_depth(k) <= left]
            if not ks:
                m = min(self.pat_depth(k) for k in p)
                ks = [k for k in p if self.pat_depth(k) == m]
            if self.weight:
                ks = [k for k in ks for _ in range(self.weight(k.get("name"), left))] or ks
            self.gen(s.choice(ks), out, left, path)
        elif t == "ref":
            for k in self.defs[p.get("name")]:
                self.gen(k, out, left, path)
        elif t == "data":
            out.kids.append(self.value(p.get("type"), out.tag))
        elif t == "value":
            out.kids.append(p.text)
        elif t in ("empty", "text"):
            pass
        else:
            for k in p:
                self.gen(k, out, left, path)
