"""C13 name resolution and layout."""
import hashlib

from .. import sink
from ..base import DrvCheck, close
from ..engine import Discard, Result
from ..ft import show
from ..results import difference, logical_ids, normal
from ..xmlw import E


def gen_settings(s, nd=False, ets=False):
    alg = s.choice(["bdd", "zbdd", "mocus"])
    st = {"algorithm": alg}
    ap = s.choice(["none", "rare-event", "mcub"] if not nd else ["rare-event", "mcub"])
    if ap != "none" or alg != "bdd":
        st["approximation"] = ap
    st["limit_order"] = s.weighted([(5, 20), (1, 3), (1, 2)])
    st["probability"] = s.bool(0.8)
    st["mission_time"] = float(s.choice([8760, 100, 1000]))
    if st["probability"]:
        st["importance"] = s.bool(0.4)
    st["ccf"] = s.bool()
    return st


def plain_layout(s, y):
    return sink.Layout(s, y, depth=0, model_scope=0, private=0, collide=0, refs=False, nfts=1)


class C13(DrvCheck):
    id = "C13"
    rule = ("a system written in a layout with several containers, private or "
            "colliding names, or several files; or with one reference that resolves to nothing")
    quick_cases = 30000
    thorough_cases = 400000
    thorough_wall = 700

    assumptions = [
        "the reference meaning of a name: the element of the wanted kind at base path + '.' + reference, else the public element of that name (no dot) or the element at that full path",
        "top events are compared gate by gate where both layouts have the gate as a top event of a fault tree",
        "expression and product order may change the last digits of sums (relative tolerance 1e-7)",
    ]

    def case(self, s):
        y = sink.gen_sys(s, ets=0.2, ccf=0.3, aligns=0.2, subs=0.2)
        nd = any(sub.source for sub in y.subs)
        st = gen_settings(s, nd)
        if s.bool(0.12):
            return self.dangling(s, y, st)
        names = s.weighted([(3, "plain"), (1, "fancy")])
        lay = sink.Layout(s, y, depth=s.int(0, 3), names=names, meta=s.choice([0, 0, 0.2]))
        files, use = lay.files(n=3, include=s.choice([0, 0, 0.3]), noise=s.choice([0, 0, 0.5]))
        r = self.run_ok(files, st, dump=1, analyze=1, use=use)
        self.check_dump(y, lay, r["dump"], st)
        got = normal(r["run"], logical_ids(lay))
        # The same system in a plain file.
        base = plain_layout(s, y)
        bf, _ = base.files()
        rb = self.run_ok(bf, st, analyze=1)
        self.last_files = list(files) + [("plain-" + n, t) for n, t in bf]
        want = normal(rb["run"], logical_ids(base))
        tops, btops = lay.tops(), base.tops()
        dup = {k for k in got if k[0] == "gate"}
        names_ = {k[1] for k in dup}
        if not y.world and names_ != set(tops):
            self.fail("top events analysed: %s; expected %s" % (sorted(names_), sorted(tops)), sig="tops")
        for x in (got, want):
            for k in list(x):
                if k[0] == "gate" and (k[1] not in tops or k[1] not in btops):
                    del x[k]
        d = difference(got, want)
        if d:
            self.fail("%s of %s: %s in the layout, %s in the plain file"
                      % (d[1], d[0], d[2], d[3]), sig="layout changes " + d[1])
        key = None
        if len(lay.conts) > 1 or len(files) > 1:
            key = self.key(files)
        tags = ["containers:%d" % min(len(lay.conts), 6), "files:%d" % len(files)]
        tags += ["private"] if any(not e.public for e in lay.ents.values()) else []
        nm = [e.name for e in lay.ents.values()]
        tags += ["shadowing"] if len(set(nm)) < len(nm) else []
        tags += ["event tree"] if y.world else []
        tags += ["ccf"] if y.groups else []
        tags += ["phases"] if y.aligns else []
        tags += ["include"] if any(n[0] == "i" for n, _ in files) else []
        return Result(key, self.sample(lay, y), tags)

    def key(self, files):
        return hashlib.sha1(repr(files).encode()).hexdigest()

    def sample(self, lay, y):
        return {"containers": [c.path for c in lay.conts],
                "ids": {n: e.id for (k, n), e in list(lay.ents.items())[:12]},
                "tree": show(y.ft)[:300]}

    def check_dump(self, y, lay, d, st):
        want = lay.expected_gates()
        if set(d["gates"]) != set(want):
            self.fail("gates %s; expected %s" % (sorted(d["gates"]), sorted(want)), sig="gate ids")
        for g, (op, lo, hi, args) in want.items():
            got = d["gates"][g]
            got = (got[0], got[1], got[2], got[3:])
            if op == "null" and got[0] != "null":
                op, args = got[0], args
            ordered = op == "imply"
            a, b = (got[3], args) if ordered else (sorted(got[3]), sorted(args))
            if got[0] != op or got[1] != lo or got[2] != hi or a != b:
                self.fail("gate %s is %s; expected %s" % (g, got, (op, lo, hi, args)), sig="resolution of arguments")
        for k, f in (("b", "basic_events"), ("p", "parameters"), ("h", "house_events")):
            ids = {e.id: n for (kk, n), e in lay.ents.items() if kk == k}
            if set(ids) != set(d[f]):
                self.fail("%s %s; expected %s" % (f, sorted(d[f]), sorted(ids)), sig="ids")
            for i, n in ids.items():
                if k == "h":
                    if d[f][i] != y.ft.houses[n]:
                        self.fail("state of %s" % i, sig="house state")
                    continue
                if k == "b":
                    grp = [g for g in y.groups if n in g.members]
                    if grp:
                        v = grp[0].value(st["mission_time"])
                    else:
                        v = sink.value(y.ft.basics[n], y.params, st["mission_time"])
                else:
                    v = sink.value(y.params[n], y.params, st["mission_time"])
                if not close(d[f][i]["value"], v, 1e-9, 1e-13):
                    self.fail("%s has the value %r; expected %r" % (i, d[f][i]["value"], v),
                              sig="resolution of parameters")

    def dangling(self, s, y, st):
        """One reference that means nothing must be rejected."""
        lay = sink.Layout(s, y, depth=s.int(0, 3))
        # Candidates: (base, kind, text) that resolve to nothing.
        sites = []
        items = lay.top_items()
        for x in items:
            self.sites(x, "", lay, sites)
        if not sites:
            raise Discard("no reference")
        for _ in range(6):
            x, base, kind = s.choice(sites)
            bad = self.bad_ref(s, lay, base, kind)
            if bad is not None and lay.resolve(base, bad, kind) is None:
                break
        else:
            raise Discard("no dangling reference")
        old = x.attrs["name"]
        x.attrs["name"] = bad
        text = E("opsa-mef", {}, *items).text()
        r = self.load(text, st)
        if "error" not in r:
            self.fail("the reference %r (%s, in %r) resolves to nothing but was accepted"
                      % (bad, kind, base), sig="dangling accepted")
        if r.get("kind") != "user":
            self.fail("an undefined reference gave %s" % r, sig="dangling kind")
        x.attrs["name"] = old
        self.run_ok(E("opsa-mef", {}, *items).text(), st)
        return Result(self.key(text), {"reference": bad, "kind": kind, "base": base, "was": old},
                      ["dangling"])

    def sites(self, x, base, lay, out):
        kinds = {"gate": "g", "basic-event": "b", "house-event": "h", "event": "event",
                 "parameter": "p"}
        if x.tag in ("define-fault-tree", "define-component"):
            base = (base + "." if base else "") + x.attrs["name"]
        if x.tag == "members":
            return
        if x.tag in kinds:
            k = {"gate": "g", "basic-event": "b", "house-event": "h"}.get(x.attrs.get("type"), kinds[x.tag])
            out.append((x, base, k))
        for c in x.kids:
            if isinstance(c, E):
                self.sites(c, base, lay, out)

    def bad_ref(self, s, lay, base, kind):
        same = [e for e in lay.ents.values()
                if (e.kind in "gbh" if kind == "event" else e.kind == kind)]
        other = [e for e in lay.ents.values() if e not in same]
        how = s.choice(["bare private", "tail", "case", "kind", "nothing", "parent", "longer"])
        e = s.choice(same)
        if how == "bare private":
            return e.name
        if how == "tail":
            p = e.path.split(".")
            return ".".join(p[s.draw(len(p)):])
        if how == "case":
            return e.path.swapcase()
        if how == "kind":
            return s.choice(s.choice([[o.path, o.name] for o in other])) if other else None
        if how == "parent":
            up = base.split(".")
            return ".".join(up[s.draw(len(up)):] + [e.name]) if base else e.name
        if how == "longer":
            return s.choice(lay.conts).path + "." + e.path
        return "nothing"
