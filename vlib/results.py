"""Comparison of analysis results of the same system in different layouts."""
import re

from .base import close

CCF = re.compile(r"^(?:(.*)\.)?\[(.*)\]$")


def logical_ids(layout):
    """id -> logical key of events, with common-cause events as frozensets."""
    m = {}
    for (k, n), e in layout.ents.items():
        if k in "gbh":
            m[e.id] = n
    by_place = {}
    for (k, n), e in layout.ents.items():
        if e.group is not None:
            by_place[e.group.public, "" if e.group.public else e.base, e.name] = n

    def look(i):
        if i in m:
            return m[i]
        c = CCF.match(i)
        if not c:
            return "?" + i
        base = c.group(1) or ""
        pub = not base
        return "[" + " ".join(sorted(by_place.get((pub, base, x), "?" + x)
                                     for x in c.group(2).split(" "))) + "]"
    return look


def normal(r, look):
    """{key: result} in terms of logical names."""
    out = {}
    for x in r["results"]:
        ctx = (x.get("alignment"), x.get("phase"))
        k = (("gate", look(x["gate"])) if "gate" in x else ("seq", x["init"], x["seq"])) + ctx
        d = {}
        if "products" in x:
            lits = [tuple(sorted((("~" if l[0] == "~" else "") + look(l.lstrip("~")))
                                 for l in p)) for p in x["products"]]
            d["products"] = set(lits)
            d["n"] = x["n"]
            d["distribution"] = x["distribution"]
            if "pp" in x:
                d["pp"] = dict(zip(lits, x["pp"]))
        for f in ("p", "p_time", "pfd_avg", "pfh_avg", "pfd", "pfh"):
            if f in x:
                d[f] = x[f]
        if "importance" in x:
            d["importance"] = {look(e): v[:5] + [1 / v[5] if v[5] else 0.0]
                               for e, v in x["importance"].items()}
        if k in out:
            d["twice"] = True
        out[k] = d
    for e in r.get("eta", []):
        for q in e["seqs"]:
            out["eta", e["init"], q["name"], e.get("alignment"), e.get("phase")] = \
                {"p": q["p"], "only": q["expr_only"]}
    return out


def near(x, y, rel=1e-7):
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and \
            all(near(x[k], y[k], rel) for k in x)
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and \
            all(near(p, q, rel) for p, q in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return close(x, y, rel, 1e-11)
    return x == y


def difference(a, b, rel=1e-7):
    """The first difference of two normalised results: (key, field, x, y)."""
    for k in a:
        if k not in b:
            return k, "missing", None, None
    for k in b:
        if k not in a:
            return k, "additional", None, None
    for k in a:
        for f in sorted(set(a[k]) | set(b[k])):
            if f not in a[k] or f not in b[k] or not near(a[k][f], b[k][f], rel):
                return k, f, a[k].get(f), b[k].get(f)
    return None
