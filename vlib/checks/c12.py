"""C12 substitutions."""
from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c01 import literal_set
from .c03 import approx, product_p
from .c06 import expand, gen_groups, model_xml, plain

TYPES = ["delete-terms", "recovery-rule", "exchange-event"]


class Sub:
    def __init__(self, name, hyp, source, target, type_=None):
        # hyp: (connective, [(negated, kind, ref)], lo, hi)
        self.name, self.hyp, self.source = name, hyp, source
        self.target, self.type = target, type_

    def __repr__(self):
        return "%s: %s%s %s -> %s [%s]" % (
            self.name, self.hyp[0], self.hyp[2:] if self.hyp[2] else "",
            [("~" if a[0] else "") + str(a[2]) for a in self.hyp[1]],
            self.target if not self.source else
            "%s for %s" % (self.target, self.source), self.type or "")

    def events(self):
        return [a[2] for a in self.hyp[1]]

    def xml(self, ft):
        at = {"name": self.name}
        if self.type:
            at["type"] = self.type
        t = self.target
        return E("define-substitution", at,
                 E("hypothesis", {}, ft.formula_xml(self.hyp)),
                 E("source", {}, *[E("basic-event", {"name": s}) for s in self.source])
                 if self.source else None,
                 E("target", {}, E("constant", {"value": "true" if t else "false"})
                   if isinstance(t, bool) else E("basic-event", {"name": t})))

    def traditional(self):
        """The traditional type, by the definitions of the MEF."""
        op, args, lo, _ = self.hyp
        if not self.source:
            if self.target is False:
                if (op == "and" and len(args) == 2) or (op == "atleast" and lo == 2):
                    return "delete-terms"    # mutual exclusion
            elif isinstance(self.target, str) and op == "and":
                return "recovery-rule"
            return None
        if isinstance(self.target, bool) or op not in ("and", "null"):
            return None
        hs = set(self.events())
        if len(self.source) == len(hs):
            return "recovery-rule" if set(self.source) == hs else None
        if len(self.source) == 1 and self.source[0] in hs:
            return "exchange-event"
        return None


def problem(subs, exact, members):
    """Why the substitutions are invalid, or None."""
    if len({s.name for s in subs}) < len(subs):
        return "duplicate name"
    for s in subs:
        op, args, lo, _ = s.hyp
        if any(k != "b" for _, k, _ in args):
            return "not over basic events"
        if any(n for n, _, _ in args):
            return "complement"
        if len(set(s.events())) < len(args):
            return "duplicate hypothesis argument"
        if len(set(s.source)) < len(s.source):
            return "duplicate source"
        if op not in (("null", "and", "or") if s.source
                      else ("null", "and", "or", "atleast")):
            return "hypothesis connective"
        if not s.source and s.target is True:
            return "no effect"
        if s.source and s.target is False:
            return "irrelevant source"
        if s.type and s.type != s.traditional():
            return "declared type"
    nd = [s for s in subs if s.source]
    for s in nd:
        for o in nd:
            if s.target in o.source:
                return "target is a source"
            if o is not s and (s.target in o.events() or
                               set(s.source) & set(o.events())):
                return "used in another hypothesis"
        if members & (set(s.events()) | set(s.source) | {s.target}):
            return "CCF"
    if nd and exact:
        return "exact"
    return None


def gen_sub(src, i, names, free_t, free_s):
    """free_t, free_s: what targets and sources are drawn from."""
    op = src.weighted([(5, "and"), (2, "or"), (2, "null"), (2, "atleast")])
    n = {"null": 1, "atleast": 3}.get(op, 2)
    nd = src.bool(0.5)
    if nd and op == "atleast":
        op = "and"
    if op != "null":
        n = src.int(n, 4)
    args = src.sample(names, min(n, len(names)))
    if len(args) < 2:
        op = "null"
        args = args[:1]
    elif op == "atleast" and len(args) < 3:
        op = "or"
    lo = src.int(2, len(args) - 1) if op == "atleast" else None
    source = []
    if nd:
        pool = args if src.bool(0.8) else [x for x in free_s] or args
        source = src.sample(pool, src.int(1, min(3, len(pool))))
        if src.bool(0.4):
            source = src.shuffle(args)
    target = src.weighted([(5, "event"), (2, "const")])
    if target == "event":
        pool = [x for x in free_t if x not in source] or names
        target = src.choice(pool)
    else:
        target = bool(source)
    s = Sub("s%d" % i, (op, [(False, "b", a) for a in args], lo, None), source, target)
    if src.bool(0.5):
        s.type = s.traditional()
    return s


def spoil(src, s, subs, ft, names):
    """Makes one thing about a substitution wrong (mostly)."""
    op, args, lo, hi = s.hyp
    k = src.choice(["connective", "kind", "complement", "dup arg", "dup source",
                    "constant", "type", "name", "chain", "overlap", "any target",
                    "any source", "atleast"])
    if k == "connective":
        op = src.choice(["xor", "nand", "nor", "iff", "imply", "not", "cardinality"])
        if op == "not":
            args = args[:1]
        elif op in ("xor", "iff", "imply"):
            args = (args + [(False, "b", n) for n in names
                            if n not in s.events()])[:2]
            if len(args) < 2:
                return k
        lo, hi = (1, len(args)) if op == "cardinality" else (None, None)
        s.hyp = (op, args, lo, hi)
    elif k == "kind":
        i = src.draw(len(args))
        a = (False, "g", src.choice(list(ft.gates)))
        if ft.houses and src.bool(0.3):
            a = (False, "h", src.choice(list(ft.houses)))
        s.hyp = (op, args[:i] + [a] + args[i + 1:], lo, hi)
    elif k == "complement":
        i = src.draw(len(args))
        s.hyp = (op, args[:i] + [(True,) + args[i][1:]] + args[i + 1:], lo, hi)
    elif k == "dup arg":
        if op != "null":
            s.hyp = (op, args + [src.choice(args)], lo, hi)
    elif k == "dup source":
        if s.source:
            s.source = s.source + [src.choice(s.source)]
    elif k == "constant":
        s.target = not s.source
    elif k == "type":
        s.type = src.choice(TYPES)
    elif k == "name":
        s.name = src.choice(subs).name
    elif k == "chain":
        o = src.choice(subs)
        s.target = src.choice(o.source or names)
    elif k == "overlap":
        o = src.choice(subs)
        if s.source and o is not s:
            s.source = [o.events()[0]] + [x for x in s.source if x != o.events()[0]]
    elif k == "any target":
        s.target = src.choice(names)
    elif k == "any source":
        s.source = src.sample(names, min(len(names), src.int(1, 2)))
    elif k == "atleast":
        pool = [n for n in names][:4]
        if len(pool) >= 3:
            s.hyp = ("atleast", [(False, "b", n) for n in pool], 2, None)
    return k


def rewrite(cs, subs, limit):
    """Applies non-declarative substitutions to the sets of order <= limit."""
    out = set()
    for c in cs:
        rem, add = set(), set()
        for s in subs:
            hs = set(s.events())
            sat = hs & c if s.hyp[0] == "or" else hs <= c
            if sat:
                rem |= set(s.source)
                if s.target is not True:
                    add.add(s.target)
        r = (c - rem) | add
        if len(r) <= limit:
            out.add(r)
    return {c for c in out if not any(o < c for o in out)}


class C12(DrvCheck):
    id = "C12"
    rule = ("random fault trees (a sixth with CCF groups) and 1..3 random "
            "substitutions, declarative or not, over events inside and "
            "outside the tree, a quarter of them spoiled; accepted iff the "
            "rules of the MEF allow it; products and probabilities against "
            "truth tables of the implications and set rewriting; "
            "non-trivial: rejected, or the substitutions change the reference "
            "products; distinct by the model and settings")
    quick_cases = 60000
    quick_wall = 35
    thorough_cases = 2000000
    thorough_wall = 600
    assumptions = ["the truth tables of vlib/boolref.py",
                   "truncation by order is applied before and after the "
                   "rewriting of cut sets (doc/substitutions.rst)"]

    def case(self, src):
        ft = gen_ft(src, max_basic=7, max_gates=9,
                    coherent=True if src.bool(0.6) else None)
        extra = ["x%d" % i for i in range(src.weighted([(3, 1), (2, 2), (2, 0)]))]
        inside = list(ft.basics)
        for b in inside + extra:
            ft.basics[b] = src.weighted([(9, src.int(1, 99) / 100), (1, 0.0), (1, 1.0)])
        names = inside + extra
        groups = []
        if src.bool(0.16):
            groups = gen_groups(src, inside[:5], max(0, 12 - len(names)))
        ccf = src.bool(0.8) if groups else False
        members = {m for g in groups for m in g.members}
        subs = []
        used_h, used_s, used_t = set(), set(), set()
        for i in range(src.weighted([(4, 1), (3, 2), (2, 3)])):
            loc = names
            if src.bool(0.75):       # mostly avoid conflicts
                loc = [n for n in names if n not in used_s | used_t] or names
            s = gen_sub(src, i, loc, [n for n in names if n not in used_h | used_s]
                        or names, [n for n in names if n not in used_h | used_t])
            subs.append(s)
            if s.source:
                used_h |= set(s.events())
                used_s |= set(s.source)
                used_t.add(s.target)
        spoiled = None
        if src.bool(0.25):
            spoiled = spoil(src, src.choice(subs), subs, ft, names)
        nd = [s for s in subs if s.source]
        mode = src.weighted([(3, "rare-event"), (3, "mcub"),
                             (1 if nd else 4, "none"), (0 if nd else 1, "pi")])
        alg = "bdd" if mode == "pi" else src.choice(["bdd", "zbdd", "mocus"])
        limit = src.weighted([(5, 20), (2, src.int(1, 4))])
        st = {"algorithm": alg, "probability": src.bool(0.8), "limit_order": limit,
              "approximation": mode if mode in ("rare-event", "mcub") else "none",
              "ccf": ccf}
        if mode == "pi":
            st["prime_implicants"] = True
        if st["probability"] and src.bool(0.3):
            st["importance"] = True
        root = model_xml(ft, groups, "top")
        for s in subs:
            root.kids.insert(src.draw(len(root.kids) + 1), s.xml(ft))
        desc = "%s; groups=%s; p=%s; subs %s; %s" % (
            show(ft), [(g.model, g.members, g.q, g.factors) for g in groups],
            ft.basics, subs, st)
        why = problem(subs, mode in ("none", "pi"), members)
        r = self.load(root.text(), st)
        if why:
            if r.get("error") is None:
                self.fail("accepted in spite of: %s; %s" % (why, desc),
                          sig="accepted: " + why)
            if r.get("kind") != "user":
                self.fail("not rejected as a user error: %s; %s" % (r, desc),
                          sig="rejection kind")
            return Result((why, desc), {"model": desc, "rejected": why},
                          tags=["rejected: " + why])
        if r.get("error"):
            self.fail("rejected: %s %s; %s" % (r["error"], r.get("what"), desc),
                      sig="rejected:%s" % r["error"])
        # The implications of the declarative substitutions as gates.
        tops = ft.tops()
        orig = dict(ft.gates)
        imp = []
        for i, s in enumerate(subs):
            if s.source:
                continue
            h, g = "__h%d" % i, "__i%d" % i
            ft.gates[h] = s.hyp
            ft.gates[g] = ("not", [(False, "g", h)], None, None) if s.target is False \
                else ("imply", [(False, "g", h), (False, "b", s.target)], None, None)
            imp.append((False, "g", g))
        for t in tops:
            ft.gates["__t" + t] = ("and", [(False, "g", t)] + imp, None, None)
        ref = expand(ft, groups, 8760.0) if ccf else plain(ft, groups, 8760.0)
        ft.gates = orig
        names, tables = ref.tables()
        n = len(names)
        probs = [ref.basics[b] for b in names]
        got = {x["gate"]: x for x in r["run"]["results"]}
        if set(got) != set(tops):
            self.fail("tops %s in %s" % (sorted(got), desc), sig="tops")
        changed = False
        for t, x in got.items():
            tab = tables["__t" + t]
            if mode == "pi":
                ws = {frozenset((names[j], s) for j, s in p)
                      for p in B.prime_implicants(tab, n) if len(p) <= limit}
                changed = changed or tab != tables[t]
            else:
                cs = {frozenset(names[j] for j in c)
                      for c in B.cut_sets(tab, n) if len(c) <= limit}
                old = {frozenset(names[j] for j in c)
                       for c in B.cut_sets(tables[t], n) if len(c) <= limit}
                cs = rewrite(cs, nd, limit)
                changed = changed or cs != old or tab != tables[t]
                ws = {frozenset((e, True) for e in c) for c in cs}
            prods = [literal_set(p) for p in x["products"]]
            if set(prods) != ws or len(prods) != len(ws):
                self.fail("%s %s: products of %s: missing %s, extra %s in %s" % (
                    alg, mode, t, [sorted(p) for p in list(ws - set(prods))[:4]],
                    [sorted(p) for p in list(set(prods) - ws)[:4]], desc),
                    sig="products" + (" nondeclarative" if nd else ""))
            occ = {}
            for p in prods:
                for e, _ in p:
                    occ[e] = occ.get(e, 0) + 1
            if x["n"] != len(prods) or sorted(x["events"]) != sorted(occ):
                self.fail("counts of %s: %d products, events %s in %s" % (
                    t, x["n"], x["events"], desc), sig="counts")
            if st["probability"]:
                pps = [product_p(p, ref.basics) for p in prods]
                v = approx(mode, pps) if mode in ("rare-event", "mcub") \
                    else B.probability(tab, probs)
                if not close(x["p"], v, 1e-9, 1e-13):
                    self.fail("%s %s: P(%s) = %r, expected %r in %s" % (
                        alg, mode, t, x["p"], v, desc), sig="p")
                if any(not close(a, b, 1e-9, 1e-300) for a, b in zip(pps, x["pp"])):
                    self.fail("product probabilities %s, expected %s in %s" % (
                        x["pp"], pps, desc), sig="pp")
            if "importance" in st:
                self.importance(x, mode, occ, prods, ref.basics, tab, names, probs, desc)
        return Result(desc if changed else None,
                      {"model": desc, "products": {
                          t: x["products"][:6] for t, x in got.items()}},
                      tags=["declarative" if not nd else "cut sets" if len(nd) ==
                            len(subs) else "mixed", mode, alg] +
                      (["ccf"] if ccf else []))

    def importance(self, x, mode, occ, prods, ps, tab, names, probs, desc):
        if {e: v[0] for e, v in x["importance"].items()} != occ:
            self.fail("occurrences %s, products give %s in %s" % (
                x["importance"], occ, desc), sig="occurrence")
        n = len(names)
        for e, v in x["importance"].items():
            if mode in ("none", "pi"):
                j = names.index(e)
                w = (B.probability(B.restrict(tab, n, j, 1), probs)
                     - B.probability(B.restrict(tab, n, j, 0), probs))
            else:
                w = (approx(mode, [product_p(q, dict(ps, **{e: 1.0})) for q in prods])
                     - approx(mode, [product_p(q, dict(ps, **{e: 0.0})) for q in prods]))
            if not close(v[1], w, 1e-8, 1e-12):
                self.fail("MIF of %s is %r, the definition gives %r in %s" % (
                    e, v[1], w, desc), sig="mif")
