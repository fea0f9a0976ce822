"""Comparison of reports without time stamps and up to rounding."""
NUMERIC = {"value", "probability", "contribution", "x", "y", "P", "MIF", "CIF", "DIF",
           "RAW", "RRW", "lower-bound", "upper-bound", "percentage", "mean"}


def canon(root):
    """Nested tuples; products, importance events and time stamps normalised."""
    def walk(e, path):
        if e.tag in ("time", "performance"):
            return None
        kids = [walk(k, path + (e.tag,)) for k in e]
        kids = [k for k in kids if k is not None]
        if e.tag in ("sum-of-products", "importance", "product", "results", "ccf-event"):
            kids.sort(key=ident)
        at = {k: v for k, v in e.attrib.items()}
        return (e.tag, tuple(sorted(at.items())), (e.text or "").strip(), kids)
    return walk(root, ())


def ident(t):
    """What an element is about, without its numbers."""
    return (t[0], [(k, v) for k, v in t[1] if k not in NUMERIC], t[2],
            [ident(k) for k in t[3]] if t[0] in ("product", "not", "ccf-event") else [])


def differs(a, b, tol=1e-8, path=""):
    """The first difference of two canonical trees, or None."""
    here = path + "/" + a[0]
    if a[0] != b[0]:
        return "%s instead of %s" % (here, b[0])
    for i in (0,):
        x, y = dict(a[1]), dict(b[1])
        if set(x) != set(y):
            return "%s: attributes %s and %s" % (here, a[1], b[1])
        for k in x:
            if x[k] != y[k] and not near(x[k], y[k], tol):
                return "%s@%s: %s and %s" % (here, k, x[k], y[k])
    if a[2] != b[2] and not near(a[2], b[2], tol):
        return "%s: %r and %r" % (here, a[2], b[2])
    if len(a[3]) != len(b[3]):
        return "%s: %d and %d children" % (here, len(a[3]), len(b[3]))
    if a[0] in ("histogram", "quantiles"):
        return None
    for x, y in zip(a[3], b[3]):
        d = differs(x, y, tol, here)
        if d:
            return d
    return None


def near(x, y, tol):
    try:
        x, y = float(x), float(y)
    except ValueError:
        return False
    return x == y or (x != x and y != y) or abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-13
