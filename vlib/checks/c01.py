"""C01: minimal cut sets; C02: prime implicants."""
from .. import boolref as B
from ..base import DrvCheck
from ..engine import Result
from ..ft import gen_ft, show


def literal_set(product):
    return frozenset((l[1:], False) if l[0] == "~" else (l, True)
                     for l in product)


def gen_mcs_model(src, big=True):
    """The distribution of fault trees the Boolean checks use."""
    kind = src.weighted([(6, "small"), (4, "mid"), (2, "big")])
    if kind == "small":
        return gen_ft(src, max_basic=6, max_gates=8)
    if kind == "mid":
        return gen_ft(src, max_basic=9, max_gates=18)
    return gen_ft(src, max_basic=12, max_gates=40)


class C01(DrvCheck):
    id = "C01"
    rule = ("random fault trees (1..12 basic events, 1..40 gates, all "
            "connectives, sharing, complements, house events, constants) "
            "analysed by bdd, zbdd and mocus at a random product-order limit; "
            "non-trivial: some top event has at least 2 minimal cut sets; "
            "distinct by the set of reference cut sets and the limit")
    quick_cases = 40000
    quick_wall = 40
    thorough_cases = 2000000
    thorough_wall = 900
    assumptions = ["the truth-table reference of vlib/boolref.py"]

    def case(self, src):
        ft = gen_mcs_model(src)
        text = ft.xml().text()
        names, tables = ft.tables()
        n = len(names)
        limit = src.weighted([(6, 20), (4, src.int(1, max(1, n))), (2, 2), (2, 1), (1, 0)])
        want = {}
        for top in ft.tops():
            cs = B.cut_sets(tables[top], n)
            want[top] = {frozenset(names[j] for j in c) for c in cs
                         if len(c) <= limit}
        for alg in ("bdd", "zbdd", "mocus"):
            r = self.run_ok(text, {"algorithm": alg, "limit_order": limit})
            res = r["run"]["results"]
            if sorted(x["gate"] for x in res) != sorted(want):
                self.fail("top events %s analysed, expected %s"
                          % ([x["gate"] for x in res], list(want)), sig="tops")
            for x in res:
                got = [literal_set(p) for p in x["products"]]
                gs = set(got)
                if len(got) != len(gs):
                    self.fail("%s: duplicate products for %s in %s"
                              % (alg, x["gate"], show(ft)), sig=alg + " dup")
                ws = {frozenset((b, True) for b in c) for c in want[x["gate"]]}
                if gs != ws:
                    self.fail("%s limit %d: %s has products %s; missing %s, "
                              "extra %s in %s" % (
                                  alg, limit, x["gate"],
                                  fmt_products(gs), fmt_products(ws - gs),
                                  fmt_products(gs - ws), show(ft)),
                              sig="%s products" % alg)
                check_counts(self, x, alg, show(ft))
        big = max((len(v) for v in want.values()), default=0)
        key = None
        if big >= 2:
            key = (limit, sorted((t, sorted(map(sorted, v)))
                                 for t, v in want.items()))
        return Result(key, {"model": show(ft), "limit": limit,
                            "cut_sets": {t: sorted(map(sorted, v))[:8]
                                         for t, v in want.items()}}, n=3)


def check_counts(self, x, alg, text):
    got = [literal_set(p) for p in x["products"]]
    if x["n"] != len(got):
        self.fail("%s: reported count %d, listed %d (%s)"
                  % (alg, x["n"], len(got), text), sig="count")
    dist = {}
    for p in got:
        dist[max(1, len(p))] = dist.get(max(1, len(p)), 0) + 1
    rep = {i + 1: c for i, c in enumerate(x["distribution"]) if c}
    if dist != rep:
        self.fail("%s: order distribution %s, listed products give %s (%s)"
                  % (alg, rep, dist, text), sig="distribution")
    ev = {e for p in got for e, _ in p}
    if set(x["events"]) != ev or len(x["events"]) != len(ev):
        self.fail("%s: product events %s, listed products give %s (%s)"
                  % (alg, sorted(x["events"]), sorted(ev), text), sig="events")


def fmt_products(ps):
    return "{" + ", ".join(sorted(
        ".".join(sorted(("" if pos else "~") + e for e, pos in p)) or "1"
        for p in ps)[:12]) + "}"


class C02(DrvCheck):
    id = "C02"
    rule = ("random fault trees (1..9 basic events, all connectives) analysed "
            "with prime implicants at a random product-order limit; "
            "non-trivial: some prime implicant has a complement literal and "
            "there are at least 2; distinct by the reference prime implicants "
            "and the limit")
    quick_cases = 60000
    quick_wall = 40
    thorough_cases = 2000000
    thorough_wall = 900
    assumptions = ["the truth-table reference of vlib/boolref.py"]

    def case(self, src):
        kind = src.weighted([(5, "small"), (4, "mid"), (1, "big")])
        coh = None if src.bool(0.15) else False
        if kind == "small":
            ft = gen_ft(src, max_basic=5, max_gates=8, coherent=coh)
        elif kind == "mid":
            ft = gen_ft(src, max_basic=7, max_gates=14, coherent=coh)
        else:
            ft = gen_ft(src, max_basic=9, max_gates=25, coherent=coh)
        text = ft.xml().text()
        names, tables = ft.tables()
        n = len(names)
        limit = src.weighted([(6, 20), (4, src.int(1, max(1, n))), (2, 2), (2, 1), (1, 0)])
        r = self.run_ok(text, {"algorithm": "bdd", "prime_implicants": True,
                               "limit_order": limit})
        want = {}
        for top in ft.tops():
            pi = B.prime_implicants(tables[top], n)
            want[top] = {frozenset((names[j], pos) for j, pos in p)
                         for p in pi if len(p) <= limit}
        res = r["run"]["results"]
        if sorted(x["gate"] for x in res) != sorted(want):
            self.fail("top events %s" % [x["gate"] for x in res], sig="tops")
        comp = False
        big = 0
        for x in res:
            got = [literal_set(p) for p in x["products"]]
            gs, ws = set(got), want[x["gate"]]
            big = max(big, len(ws))
            comp = comp or any(not pos for p in ws for _, pos in p)
            if len(got) != len(gs):
                self.fail("duplicate products for %s in %s" % (x["gate"], show(ft)),
                          sig="dup")
            if gs != ws:
                self.fail("limit %d: %s has %s; missing %s, extra %s in %s" % (
                    limit, x["gate"], fmt_products(gs), fmt_products(ws - gs),
                    fmt_products(gs - ws), show(ft)), sig="products")
            check_counts(self, x, "pi", show(ft))
        key = None
        if comp and big >= 2:
            key = (limit, sorted((t, sorted(map(sorted, v)))
                                 for t, v in want.items()))
        return Result(key, {"model": show(ft), "limit": limit,
                            "prime_implicants": {
                                t: fmt_products(v) for t, v in want.items()}})
