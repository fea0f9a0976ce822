"""C03 exact probability, C04 approximations, C05 importance."""
import math

from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c01 import gen_mcs_model, literal_set


def const_expr(p):
    return E("float", {"value": repr(p)})


def gen_prob(src):
    """A basic-event probability, special values included."""
    k = src.weighted([(10, "mid"), (4, "small"), (1, "zero"), (1, "one"),
                      (2, "half"), (2, "high"), (1, "tiny")])
    if k == "mid":
        return src.int(1, 999) / 1000.0
    if k == "small":
        return src.int(1, 99) * 10.0 ** -src.int(3, 5)
    if k == "high":
        return 1 - src.int(1, 99) * 1e-4
    if k == "tiny":
        return src.int(1, 9) * 10.0 ** -src.int(6, 12)
    return {"zero": 0.0, "one": 1.0, "half": 0.5}[k]


def with_probs(src, ft, interior=False):
    for b in ft.basics:
        p = gen_prob(src)
        while interior and p in (0.0, 1.0):
            p = 0.3
        ft.basics[b] = p
    return ft


def prob_text(ft):
    return show(ft) + "; p=" + str(ft.basics)


class C03(DrvCheck):
    id = "C03"
    rule = ("random fault trees with random probabilities (0 and 1 included); "
            "exact probability by bdd (with and without prime implicants and "
            "order limits) and by zbdd and mocus without approximation; "
            "non-trivial: some top's support has at least 2 events and its "
            "probability is inside (0,1); distinct by the reference "
            "probabilities and the structure")
    quick_cases = 60000
    quick_wall = 35
    thorough_cases = 3000000
    thorough_wall = 800
    assumptions = ["the truth-table reference of vlib/boolref.py"]

    def case(self, src):
        ft = with_probs(src, gen_mcs_model(src))
        text = ft.xml(const_expr).text()
        names, tables = ft.tables()
        n = len(names)
        probs = [ft.basics[b] for b in names]
        alg = src.weighted([(4, "bdd"), (3, "pi"), (1, "zbdd"), (1, "mocus")])
        st = {"algorithm": "bdd" if alg == "pi" else alg,
              "approximation": "none", "probability": True}
        if alg == "pi":
            if n > 9:
                st["limit_order"] = 3
            st["prime_implicants"] = True
        if src.bool(0.3):
            st["limit_order"] = src.int(0, 3)
        r = self.run_ok(text, st)
        want = {t: B.probability(tables[t], probs) for t in ft.tops()}
        got = {x["gate"]: x["p"] for x in r["run"]["results"]}
        if set(got) != set(want):
            self.fail("top events %s, expected %s" % (sorted(got), sorted(want)),
                      sig="tops")
        for t in want:
            if not close(got[t], want[t]):
                self.fail("%s: P(%s) = %r, true probability %r in %s"
                          % (alg, t, got[t], want[t], prob_text(ft)),
                          sig="p")
        ok = any(0 < want[t] < 1 and len(B.support(tables[t], n)) >= 2
                 for t in want)
        return Result((alg, prob_text(ft)) if ok else None,
                      {"model": prob_text(ft), "settings": st, "p": want},
                      tags=(alg,))


def product_p(prod, ps):
    r = 1.0
    for e, pos in prod:
        r *= ps[e] if pos else 1 - ps[e]
    return r


def approx(alg, pps):
    if alg == "rare-event":
        return min(1.0, math.fsum(pps))
    m = 1.0
    for q in pps:
        m *= 1 - q
    return 1 - m


class C04(DrvCheck):
    id = "C04"
    rule = ("random fault trees with random probabilities, every algorithm "
            "with the rare-event and min-cut-upper-bound approximations at a "
            "random order limit; non-trivial: some top has at least 2 "
            "products of non-zero probability; distinct by structure, "
            "probabilities and limit")
    quick_cases = 30000
    quick_wall = 35
    thorough_cases = 2000000
    thorough_wall = 700
    assumptions = ["the truth-table reference of vlib/boolref.py"]

    def case(self, src):
        ft = with_probs(src, gen_mcs_model(src))
        text = ft.xml(const_expr).text()
        names, tables = ft.tables()
        n = len(names)
        probs = [ft.basics[b] for b in names]
        limit = src.weighted([(4, 20), (2, src.int(1, max(1, n))), (1, 1), (1, 0)])
        want_cs = {}
        for top in ft.tops():
            cs = B.cut_sets(tables[top], n)
            want_cs[top] = {frozenset((names[j], True) for j in c) for c in cs
                            if len(c) <= limit}
        tops = set(want_cs)
        algs = src.sample(["bdd", "zbdd", "mocus"], 2)
        exact = {t: B.probability(tables[t], probs) for t in tops}
        vals = {}
        for alg in algs:
            for ap in ("rare-event", "mcub"):
                r = self.run_ok(text, {"algorithm": alg, "approximation": ap,
                                       "probability": True,
                                       "limit_order": limit})
                if {x["gate"] for x in r["run"]["results"]} != tops:
                    self.fail("tops", sig="tops")
                for x in r["run"]["results"]:
                    t = x["gate"]
                    prods = [literal_set(p) for p in x["products"]]
                    if set(prods) != want_cs[t]:
                        self.fail("%s: products of %s differ from the cut "
                                  "sets in %s" % (alg, t, prob_text(ft)),
                                  sig="products")
                    pps = [product_p(p, ft.basics) for p in prods]
                    for p, q, g in zip(prods, pps, x["pp"]):
                        if not close(q, g, 1e-12, 0):
                            self.fail("product %s has probability %r, "
                                      "expected %r in %s" % (
                                          sorted(p), g, q, prob_text(ft)),
                                      sig="product p")
                    want = approx(ap, pps)
                    if not close(x["p"], want, 1e-9, 1e-14):
                        self.fail("%s %s limit %d: P(%s) = %r, definition "
                                  "gives %r in %s" % (
                                      alg, ap, limit, t, x["p"], want,
                                      prob_text(ft)), sig="p " + ap)
                    vals.setdefault((t, ap), x["p"])
        for t in tops:
            full = limit >= n and B.monotone(tables[t], n)
            if full:
                lo, mid, hi = exact[t], vals[t, "mcub"], vals[t, "rare-event"]
                e = 1e-9
                if not (lo <= mid * (1 + e) + 1e-13 and mid <= hi * (1 + e) + 1e-13):
                    self.fail("bounds of %s violated: exact %r, mcub %r, "
                              "rare-event %r in %s" % (t, lo, mid, hi,
                                                       prob_text(ft)),
                              sig="bounds")
        big = any(sum(1 for c in cs if product_p(c, ft.basics) > 0) >= 2
                  for cs in want_cs.values())
        return Result((limit, prob_text(ft)) if big else None,
                      {"model": prob_text(ft), "limit": limit,
                       "p": {str(k): v for k, v in vals.items()}},
                      n=2 * len(algs))


class C05(DrvCheck):
    id = "C05"
    rule = ("random fault trees with random probabilities analysed for "
            "importance exactly (bdd, with and without prime implicants) and "
            "with both approximations; non-trivial: at least 2 events have a "
            "factor set that is checked against the reference; distinct by "
            "structure, probabilities and configuration")
    quick_cases = 40000
    quick_wall = 35
    thorough_cases = 2000000
    thorough_wall = 700
    assumptions = ["the truth-table reference of vlib/boolref.py"]

    def case(self, src):
        ft = with_probs(src, gen_mcs_model(src), interior=src.bool(0.7))
        text = ft.xml(const_expr).text()
        names, tables = ft.tables()
        n = len(names)
        probs = [ft.basics[b] for b in names]
        mode = src.weighted([(4, "exact"), (2, "pi"), (2, "rare-event"),
                             (2, "mcub"), (1, "zexact")])
        limit = src.weighted([(4, 20), (1, src.int(1, max(1, n)))])
        if mode == "pi" and n > 9:
            limit = min(limit, 3)
        alg = "bdd"
        if mode in ("rare-event", "mcub"):
            alg = src.choice(["bdd", "zbdd", "mocus"])
        if mode == "zexact":
            alg = src.choice(["zbdd", "mocus"])
        st = {"algorithm": alg,
              "approximation": mode if mode in ("rare-event", "mcub") else "none",
              "probability": True, "importance": True, "limit_order": limit}
        if mode == "pi":
            st["prime_implicants"] = True
        r = self.run_ok(text, st)
        nfac = 0
        seen = {}
        for x in r["run"]["results"]:
            t = x["gate"]
            prods = [literal_set(p) for p in x["products"]]
            occ = {}
            for p in prods:
                for e, _ in p:
                    occ[e] = occ.get(e, 0) + 1
            imp = x["importance"]
            if set(imp) != set(occ):
                self.fail("%s: factors for %s, events in products %s in %s"
                          % (st, sorted(imp), sorted(occ), prob_text(ft)),
                          sig="events")
            P = x["p"]
            for e, (o, mif, cif, dif, raw, rrw) in imp.items():
                j = names.index(e)
                p = probs[j]
                if o != occ[e]:
                    self.fail("occurrence of %s is %d, products give %d in %s"
                              % (e, o, occ[e], prob_text(ft)), sig="occurrence")
                if mode in ("exact", "pi", "zexact"):
                    w = (B.probability(B.restrict(tables[t], n, j, 1), probs)
                         - B.probability(B.restrict(tables[t], n, j, 0), probs))
                    ref_p = B.probability(tables[t], probs)
                else:
                    ps1 = dict(ft.basics)
                    ps1[e] = 1.0
                    ps0 = dict(ft.basics)
                    ps0[e] = 0.0
                    w = (approx(mode, [product_p(q, ps1) for q in prods])
                         - approx(mode, [product_p(q, ps0) for q in prods]))
                    ref_p = approx(mode, [product_p(q, ft.basics) for q in prods])
                if not close(P, ref_p, 1e-9, 1e-13):
                    self.fail("P %r expected %r in %s" % (P, ref_p, prob_text(ft)),
                              sig="p")
                if not close(mif, w, 1e-8, 1e-12):
                    self.fail("%s: MIF(%s in %s) = %r, definition gives %r "
                              "in %s" % (st, e, t, mif, w, prob_text(ft)),
                              sig="mif " + mode)
                nfac += 1
                if P == 0 or ref_p < 1e-10:
                    continue
                wc = p * w / ref_p
                wr = 1 + (1 - p) * w / ref_p
                # The quotient magnifies the rounding of MIF.
                tol = 1e-7 + 1e-11 / ref_p
                for nm, g, v in (("CIF", cif, wc), ("RAW", raw, wr),
                                 ("DIF", dif, p * wr)):
                    if not close(g, v, tol, tol):
                        self.fail("%s: %s(%s in %s) = %r, definition gives %r "
                                  "in %s" % (st, nm, e, t, g, v, prob_text(ft)),
                                  sig=nm)
                den = ref_p - p * w
                if abs(den) > 1e-6 * ref_p:
                    v = ref_p / den
                    # The difference magnifies the rounding once more.
                    t2 = 1e-6 + (1e-10 + 1e-13 / ref_p) * abs(ref_p / den)
                    if not close(rrw, v, t2, 0):
                        self.fail("%s: RRW(%s in %s) = %r, definition gives %r "
                                  "in %s" % (st, e, t, rrw, v, prob_text(ft)),
                                  sig="RRW")
                # Internal consistency to full precision.
                r = (1 - p) * mif / P
                if not close(cif, p * mif / P, 1e-12, 0) or \
                        not close(raw, 1 + r, 1e-12, 1e-14 * (1 + abs(r))) or \
                        not close(dif, p * raw, 1e-12, 1e-15 * (1 + abs(r))):
                    self.fail("factors of %s inconsistent: %s with P=%r p=%r"
                              % (e, imp[e], P, p), sig="consistency")
                d = P - p * mif
                if abs(d) > 1e-9 * P and not close(rrw, P / d, 1e-5, 0):
                    self.fail("RRW of %s inconsistent" % e, sig="consistency")
                seen[t, e] = w
        return Result((str(st), prob_text(ft)) if nfac >= 2 else None,
                      {"model": prob_text(ft), "settings": st,
                       "mif": {"%s/%s" % k: v for k, v in list(seen.items())[:6]}},
                      tags=(mode,))
