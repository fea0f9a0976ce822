"""A tiny XML writer."""


def esc(s):
    return (str(s).replace("&", "&amp;").replace("<", "&lt;")
            .replace(">", "&gt;").replace('"', "&quot;")
            .replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;"))


class E:
    """An element: tag, attributes, children (elements or text)."""

    __slots__ = ("tag", "attrs", "kids")

    def __init__(self, tag, attrs=None, *kids):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.kids = [k for k in kids if k is not None]

    def add(self, *kids):
        self.kids.extend(k for k in kids if k is not None)
        return self

    def render(self, out, ind=0):
        out.append(" " * ind + "<" + self.tag)
        for k, v in self.attrs.items():
            out.append(' %s="%s"' % (k, esc(v)))
        if not self.kids:
            out.append("/>\n")
            return
        if any(isinstance(k, str) for k in self.kids):
            out.append(">")
            for k in self.kids:
                if isinstance(k, str):
                    out.append(esc(k))
                else:
                    o = []
                    k.render(o)
                    out.append("".join(o).strip())
            out.append("</%s>\n" % self.tag)
            return
        out.append(">\n")
        for k in self.kids:
            k.render(out, ind + 1)
        out.append(" " * ind + "</%s>\n" % self.tag)

    def text(self):
        out = ['<?xml version="1.0"?>\n']
        self.render(out)
        return "".join(out)

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, E):
                yield from k.walk()
