"""C10 event-tree sequences."""
from .. import boolref as B
from ..base import DrvCheck, close
from ..engine import Discard, Result
from ..ft import gen_ft, show
from ..xmlw import E
from .c01 import literal_set
from .c03 import approx, const_expr, product_p


class Tree:
    def __init__(self, name):
        self.name = name
        self.fes = []           # functional events in order
        self.branches = {}      # name -> branch
        self.initial = None     # branch: (instructions, target)
        self.seqs = []          # sequences defined here


class World:
    def __init__(self):
        self.trees = []
        self.seqs = {}          # name -> instructions
        self.rules = {}
        self.inits = []         # (name, tree index or None)
        self.ft = None
        self.formulas = True


# Instructions: ("collect", formula | value), ("set", house, state),
# ("if", cond, then, else), ("block", [..]), ("rule", name), ("link", tree)
# Conditions: ("fe", name, state), ("init", name), ("const", v), ("not", c),
# ("and"|"or", [..]), ("lt", a, b)


class Gen:
    def __init__(self, src, formulas):
        self.src, self.w = src, World()
        self.w.formulas = formulas
        src_ = src
        w = self.w
        w.ft = gen_ft(src, max_basic=7, max_gates=6,
                      coherent=True if src.bool(0.5) else None)
        ft = w.ft
        if not ft.houses or src.bool(0.6):
            for i in range(src.int(1, 3)):
                ft.houses.setdefault("hx%d" % i, src.bool())
        # House events matter where they are under the collected gates.
        hs = list(ft.houses)
        for g, (op, args, lo, hi) in list(ft.gates.items()):
            if op in ("and", "or", "nand", "nor") and src.bool(0.35):
                h = src.choice(hs)
                if not any(a[2] == h for a in args):
                    ft.gates[g] = (op, args + [(False, "h", h)], lo, hi)
        nt = src.weighted([(4, 1), (3, 2), (2, 3)])
        for i in range(nt):
            t = Tree("ET%d" % i)
            names = ["F%d" % k for k in range(3)] if src.bool(0.5) \
                else ["F%d_%d" % (i, k) for k in range(3)]
            t.fes = names[:src.int(1, 3)]
            w.trees.append(t)
        self.fe_names = sorted({f for t in w.trees for f in t.fes})
        self.states = ["ok", "fail", "part"]
        for i in range(src.int(1, 2)):
            w.inits.append(("I%d" % i, src.draw(nt) if i else 0))
        if src.bool(0.1):
            w.inits.append(("I9", None))
        self.nrules = src.draw(3)
        self.rules = ["R%d" % i for i in range(self.nrules)]
        for i in range(self.nrules):
            n = src.int(1, 2)
            w.rules["R%d" % i] = [self.instr(2, i + 1, False, None) for _ in range(n)]
        nseq = src.int(1, 5)
        for i in range(nseq):
            t = src.draw(nt)
            w.trees[t].seqs.append("S%d" % i)
            w.seqs["S%d" % i] = [self.instr(2, 0, True, t)
                                 for _ in range(src.weighted([(4, 0), (3, 1), (2, 2), (1, 3)]))]
        # A sequence may stand in trees before those it links to.
        for ti in reversed(range(nt)):
            self.tree(ti)

    def seq_pool(self, ti):
        return [s for s, ins in self.w.seqs.items()
                if all(l > ti for l in links(ins))]

    def tree(self, ti):
        src, t = self.src, self.w.trees[ti]
        pool = self.seq_pool(ti)
        if not pool:
            s = "Z%d" % ti
            self.w.seqs[s] = []
            t.seqs.append(s)
            pool = [s]
        nb = src.weighted([(4, 0), (3, 1), (2, 2)])
        starts = [src.int(0, len(t.fes)) for _ in range(nb)]
        for i in reversed(range(nb)):
            avail = [("B%d" % j, starts[j]) for j in range(i + 1, nb)]
            t.branches["B%d" % i] = self.branch(t, starts[i], pool, avail, 2)
        avail = [("B%d" % j, starts[j]) for j in range(nb)]
        t.initial = self.branch(t, 0, pool, avail, 3)

    def branch(self, t, k, pool, avail, depth):
        src = self.src
        ins = [self.instr(2, 0, False, None)
               for _ in range(src.weighted([(3, 1), (3, 0), (1, 2)]))]
        brs = [b for b, s in avail if s >= k]
        kind = src.weighted([(3, "seq"), (5, "fork"), (3, "branch")])
        if depth == 3 and src.bool(0.7):
            kind = "fork"
        if kind == "fork" and k < len(t.fes) and depth > 0:
            f = src.int(k, len(t.fes) - 1)
            states = src.sample(self.states, src.weighted([(5, 2), (1, 1), (2, 3)]))
            paths = [(s, self.branch(t, f + 1, pool, avail, depth - 1))
                     for s in states]
            return (ins, ("fork", t.fes[f], paths))
        if kind == "branch" and brs:
            return (ins, ("branch", src.choice(brs)))
        return (ins, ("seq", src.choice(pool)))

    def cond(self, d):
        src = self.src
        k = src.weighted([(6, "fe"), (2, "init"), (1, "const"), (2, "not"),
                          (2, "andor"), (1, "lt")])
        if d <= 0 and k in ("not", "andor"):
            k = "fe"
        if k == "fe":
            return ("fe", src.choice(self.fe_names), src.choice(self.states))
        if k == "init":
            return ("init", src.choice([n for n, _ in self.w.inits] + ["I0", "I7"]))
        if k == "const":
            return ("const", src.bool())
        if k == "not":
            return ("not", self.cond(d - 1))
        if k == "lt":
            return ("lt", src.int(0, 4) / 4, src.int(0, 4) / 4)
        return (src.choice(["and", "or"]), [self.cond(d - 1), self.cond(d - 1)])

    def instr(self, d, rule_from, link_ok, ti):
        """link_ok: only in sequences; ti: the tree the sequence is in."""
        src = self.src
        nt = len(self.w.trees)
        rules = self.rules[rule_from:] if rule_from < self.nrules else []
        k = src.weighted([(6, "collect"), (4, "set"), (3, "if"), (1, "block"),
                          (2, "rule"), (3 if link_ok else 0, "link")])
        if k == "link" and nt > 1 and (ti is None or ti < nt - 1):
            return ("link", src.int((ti or 0) + 1, nt - 1))
        if k == "set":
            return ("set", src.choice(list(self.w.ft.houses)), src.bool())
        if k == "if" and d > 0:
            return ("if", self.cond(2), self.instr(d - 1, rule_from, link_ok, ti),
                    self.instr(d - 1, rule_from, link_ok, ti) if src.bool(0.6) else None)
        if k == "block" and d > 0:
            return ("block", [self.instr(d - 1, rule_from, link_ok, ti)
                              for _ in range(src.int(0, 3))])
        if k == "rule" and rules:
            return ("rule", src.choice(rules))
        return ("collect", self.formula() if self.w.formulas else self.value())

    def value(self):
        src = self.src
        k = src.weighted([(80, "const"), (6, "init"), (1, "fe")])
        if k != "const":
            c = ("init", src.choice([n for n, _ in self.w.inits])) if k == "init" \
                else ("fe", src.choice(self.fe_names), src.choice(self.states))
            return ("ite", c, src.int(10, 60) / 100, src.int(10, 60) / 100)
        return src.weighted([(8, src.int(1, 60) / 100), (1, 1.0), (1, 0.0)])

    def formula(self):
        src, ft = self.src, self.w.ft
        g = lambda: (src.bool(0.2), "g", src.choice(list(ft.gates)))
        k = src.weighted([(5, "gate"), (2, "basic"), (2, "two"), (1, "house"),
                          (1, "not"), (1, "vote")])
        if k == "gate":
            return ("null", [(False, "g", src.choice(list(ft.gates)))], None, None)
        if k == "not":
            return ("not", [(False, "g", src.choice(list(ft.gates)))], None, None)
        if k == "basic":
            return ("null", [(False, "b", src.choice(list(ft.basics)))], None, None)
        if k == "house":
            h = src.choice(list(ft.houses))
            a = (src.bool(), "h", h)
            b = (src.bool(0.3), "b", src.choice(list(ft.basics)))
            return (src.choice(["and", "or"]), [a, b], None, None)
        args = []
        for _ in range(4):
            kind = src.choice("gbh")
            ref = src.choice(list({"g": ft.gates, "b": ft.basics, "h": ft.houses}[kind]))
            if not any(a[2] == ref for a in args):
                args.append((src.bool(0.2), kind, ref))
        if k == "vote" and len(args) >= 3:
            return ("atleast", args, 2, None)
        if len(args) < 2:
            return ("null", [(False,) + args[0][1:]], None, None)
        return (src.choice(["and", "or"]), args[:3], None, None)


def links(ins):
    out = set()
    for i in ins:
        if i is None:
            continue
        if i[0] == "link":
            out.add(i[1])
        elif i[0] == "if":
            out |= links([i[2], i[3]])
        elif i[0] == "block":
            out |= links(i[1])
    return out


# -- reference walk -------------------------------------------------------

class Walk:
    """Walks an initiating event; collects paths per sequence."""

    def __init__(self, w, init, cap=400):
        self.w, self.init, self.cap = w, init, cap
        self.paths = {}
        self.n = 0

    def run(self, ti):
        self.branch(self.w.trees[ti], self.w.trees[ti].initial, ([], {}), {})
        return self.paths

    def cond(self, c, fes):
        k = c[0]
        if k == "fe":
            return fes.get(c[1]) == c[2]
        if k == "init":
            return self.init == c[1]
        if k == "const":
            return c[1]
        if k == "not":
            return not self.cond(c[1], fes)
        if k == "lt":
            return c[1] < c[2]
        v = [self.cond(x, fes) for x in c[1]]
        return all(v) if k == "and" else any(v)

    def apply(self, i, st, fes):
        """Applies an instruction; returns (state, linked)."""
        k = i[0]
        got, hs = st
        if k == "collect":
            if self.w.formulas:
                return (got + [(i[1], tuple(sorted(hs.items())))], hs), False
            v = late = never = i[1]
            if isinstance(v, tuple):
                # late: evaluated when the path is forgotten already.
                # never: no test holds.
                late = v[2] if self.cond(v[1], {}) else v[3]
                never = v[3]
                v = v[2] if self.cond(v[1], fes) else v[3]
            return (got + [(v, late, never)], hs), False
        if k == "set":
            return (got, dict(hs, **{i[1]: i[2]})), False
        if k == "if":
            if self.cond(i[1], fes):
                return self.apply(i[2], st, fes)
            return self.apply(i[3], st, fes) if i[3] else (st, False)
        if k in ("block", "rule"):
            linked = False
            for x in (i[1] if k == "block" else self.w.rules[i[1]]):
                st, l = self.apply(x, st, fes)
                linked = linked or l
            return st, linked
        t = self.w.trees[i[1]]
        self.branch(t, t.initial, st, {})
        return st, True

    def branch(self, tree, br, st, fes):
        ins, tgt = br
        for i in ins:
            st, _ = self.apply(i, st, fes)
        if tgt[0] == "seq":
            linked = False
            for i in self.w.seqs[tgt[1]]:
                st, l = self.apply(i, st, fes)
                linked = linked or l
            if not linked:
                self.n += 1
                if self.n > self.cap:
                    raise Discard("too many paths")
                self.paths.setdefault(tgt[1], []).append(st)
        elif tgt[0] == "branch":
            self.branch(tree, tree.branches[tgt[1]], st, fes)
        else:
            for state, sub in tgt[2]:
                self.branch(tree, sub, st, dict(fes, **{tgt[1]: state}))


# -- rendering ---------------------------------------------------------------

def cond_xml(c):
    k = c[0]
    if k == "fe":
        return E("test-functional-event", {"name": c[1], "state": c[2]})
    if k == "init":
        return E("test-initiating-event", {"name": c[1]})
    if k == "const":
        return E("bool", {"value": "true" if c[1] else "false"})
    if k == "not":
        return E("not", {}, cond_xml(c[1]))
    if k == "lt":
        return E("lt", {}, const_expr(c[1]), const_expr(c[2]))
    return E(k, {}, *[cond_xml(x) for x in c[1]])


def value_xml(v):
    if isinstance(v, tuple):
        narrow = E("uniform-deviate", {}, const_expr(v[2] - 1e-9), const_expr(v[2] + 1e-9))
        return E("ite", {}, cond_xml(v[1]), narrow, const_expr(v[3]))
    return const_expr(v)


def instr_xml(w, i):
    k = i[0]
    if k == "collect":
        if w.formulas:
            return E("collect-formula", {}, w.ft.formula_xml(i[1]))
        return E("collect-expression", {}, value_xml(i[1]))
    if k == "set":
        return E("set-house-event", {"name": i[1]},
                 E("constant", {"value": "true" if i[2] else "false"}))
    if k == "if":
        return E("if", {}, cond_xml(i[1]), instr_xml(w, i[2]),
                 instr_xml(w, i[3]) if i[3] else None)
    if k == "block":
        return E("block", {}, *[instr_xml(w, x) for x in i[1]])
    if k == "rule":
        return E("rule", {"name": i[1]})
    return E("event-tree", {"name": w.trees[i[1]].name})


def branch_xml(w, br):
    ins, tgt = br
    out = [instr_xml(w, i) for i in ins]
    if tgt[0] == "seq":
        out.append(E("sequence", {"name": tgt[1]}))
    elif tgt[0] == "branch":
        out.append(E("branch", {"name": tgt[1]}))
    else:
        out.append(E("fork", {"functional-event": tgt[1]},
                     *[E("path", {"state": s}, *branch_xml(w, b)) for s, b in tgt[2]]))
    return out


def world_parts(w):
    """The event trees, initiating events and rules."""
    parts = []
    for n, ti in w.inits:
        parts.append(E("define-initiating-event",
                       {"name": n} if ti is None else
                       {"name": n, "event-tree": w.trees[ti].name}))
    for t in w.trees:
        e = E("define-event-tree", {"name": t.name})
        for f in t.fes:
            e.add(E("define-functional-event", {"name": f}))
        for s in t.seqs:
            e.add(E("define-sequence", {"name": s},
                    *[instr_xml(w, i) for i in w.seqs[s]]))
        for b, br in t.branches.items():
            e.add(E("define-branch", {"name": b}, *branch_xml(w, br)))
        e.add(E("initial-state", {}, *branch_xml(w, t.initial)))
        parts.append(e)
    for r, ins in w.rules.items():
        parts.append(E("define-rule", {"name": r}, *[instr_xml(w, i) for i in ins]))
    return parts


def world_xml(src, w, expr=const_expr):
    root = E("opsa-mef")
    parts = world_parts(w) + w.ft.xml(expr).kids
    return root.add(*src.shuffle(parts))


def gen_world(src, formulas):
    w = Gen(src, formulas).w
    for b in w.ft.basics:
        w.ft.basics[b] = src.weighted([(9, src.int(1, 99) / 100), (1, 0.0), (1, 1.0)])
    return w


class Tables:
    """Truth tables of collected formulas under house-event settings."""

    def __init__(self, ft):
        self.ft, self.memo = ft, {}
        self.names = list(ft.basics)
        self.masks, self.full = B.var_masks(len(self.names))

    def formula(self, f, hs):
        if hs not in self.memo:
            self.memo[hs] = self.ft.tables(houses=dict(hs))[1]
        gt = self.memo[hs]
        h = dict(self.ft.houses, **dict(hs))
        args = []
        for neg, kind, ref in f[1]:
            t = gt[ref] if kind == "g" else \
                self.masks[self.names.index(ref)] if kind == "b" else \
                (self.full if (h[ref] if kind == "h" else ref) else 0)
            args.append(t ^ self.full if neg else t)
        return B.conn(f[0], args, self.full, f[2], f[3])

    def sequence(self, paths):
        out = 0
        for got, _ in paths:
            t = self.full
            for f, hs in got:
                t &= self.formula(f, hs)
            out |= t
        return out


class C10(DrvCheck):
    id = "C10"
    rule = ("random event trees (1..3 linked trees, forks over 1..3 "
            "functional events, named branches, rules, blocks, if-then-else "
            "on functional and initiating events, house-event settings, "
            "collected formulas or expressions, sequences shared by trees "
            "and initiating events) over random fault trees, against a "
            "path-walking interpreter and truth tables; non-trivial: at "
            "least 2 sequences are reported or one is reached by 2 paths, "
            "with something collected; distinct by the model and settings")
    quick_cases = 40000
    quick_wall = 40
    thorough_cases = 2000000
    thorough_wall = 800
    assumptions = ["the path walker of c10.py",
                   "functional-event states are local to their event tree"]

    def case(self, src):
        formulas = src.bool(0.75)
        w = gen_world(src, formulas)
        text = world_xml(src, w).text()
        want = {}
        for n, ti in w.inits:
            if ti is not None:
                for s, ps in Walk(w, n).run(ti).items():
                    want[n, s] = ps
        T = Tables(w.ft)
        mode = src.weighted([(4, "none"), (2, "rare-event"), (2, "mcub"), (1, "pi")])
        limit = src.weighted([(5, 20), (2, src.int(1, 4))])
        alg = "bdd" if mode == "pi" else src.choice(["bdd", "zbdd", "mocus"])
        st = {"algorithm": alg, "probability": True, "limit_order": limit,
              "approximation": mode if mode in ("rare-event", "mcub") else "none"}
        if mode == "pi":
            st["prime_implicants"] = True
        if src.bool(0.15):
            st["importance"] = True
        if src.bool(0.1):
            st["uncertainty"] = True
            st["num_trials"] = 3
        r = self.run_ok(text, st)
        desc = "inits %s; trees %s; seqs %s; rules %s; %s p=%s" % (
            w.inits, [(t.name, t.fes, t.initial, t.branches) for t in w.trees],
            w.seqs, w.rules, show(w.ft), w.ft.basics)
        got = {}
        for x in r["run"]["results"]:
            if "seq" in x:
                k = x["init"], x["seq"]
                if k in got:
                    self.fail("%s reported twice in %s" % (k, desc), sig="twice")
                got[k] = x
        if set(got) != set(want):
            self.fail("sequences %s, expected %s in %s" % (
                sorted(got), sorted(want), desc), sig="sequences")
        eta = {}
        for e in r["run"]["eta"]:
            for s in e["seqs"]:
                if (e["init"], s["name"]) in eta:
                    self.fail("listed twice: %s in %s" % (s, desc), sig="twice")
                eta[e["init"], s["name"]] = s
        if set(eta) != set(want) or \
                sorted(e["init"] for e in r["run"]["eta"]) != \
                sorted(n for n, t in w.inits if t is not None):
            self.fail("event-tree results %s, expected %s in %s" % (
                sorted(eta), sorted(want), desc), sig="eta sequences")
        names = T.names
        n = len(names)
        probs = [w.ft.basics[b] for b in names]
        some = False
        for k, ps in want.items():
            x = got[k]
            if not close(eta[k]["p"], x["p"], 0, 0):
                self.fail("probabilities of %s differ" % (k,), sig="eta p")
            some = some or any(p[0] for p in ps)
            only = not formulas and any(p[0] for p in ps)
            if eta[k]["expr_only"] != only or ("n" in x) == only:
                self.fail("%s: expression only = %s in %s" % (
                    k, eta[k]["expr_only"], desc), sig="expression only")
            if only:
                v = min(1.0, total(ps))
                late, never = min(1.0, total(ps, 1)), min(1.0, total(ps, 2))
                u = x.get("unc")
                for what, g, e in [("P", x["p"], 1e-9)] + (
                        [("sampled mean", u["mean"], 1e-6)] if u else []):
                    if not close(g, v, e, e * 1e-3):
                        self.fail("%s of %s = %r, sum of products %r in %s" % (
                            what, k, g, v, desc), sig=what + " expression" + (
                                " collected with a functional-event test"
                                if close(g, late, e, e * 1e-3) else
                                " collected with an initiating-event test"
                                if close(g, never, e, e * 1e-3) else ""))
                continue
            t = T.sequence(ps) if formulas else T.full
            if mode == "pi":
                ws = {frozenset((names[j], s) for j, s in c)
                      for c in B.prime_implicants(t, n) if len(c) <= limit}
            else:
                ws = {frozenset((names[j], True) for j in c)
                      for c in B.cut_sets(t, n) if len(c) <= limit}
            prods = [literal_set(p) for p in x["products"]]
            if set(prods) != ws or len(prods) != len(ws):
                self.fail("%s %s: products of %s: missing %s, extra %s in %s" % (
                    alg, mode, k, [sorted(p) for p in list(ws - set(prods))[:4]],
                    [sorted(p) for p in list(set(prods) - ws)[:4]], desc),
                    sig="products")
            v = approx(mode, [product_p(p, w.ft.basics) for p in prods]) \
                if mode in ("rare-event", "mcub") else B.probability(t, probs)
            if not close(x["p"], v, 1e-9, 1e-13):
                self.fail("%s %s: P(%s) = %r, the paths give %r in %s" % (
                    alg, mode, k, x["p"], v, desc), sig="p")
        big = some and (len(want) >= 2 or any(len(p) >= 2 for p in want.values()))
        return Result((desc, str(st)) if big else None,
                      {"model": desc, "settings": st,
                       "p": {"%s/%s" % k: x["p"] for k, x in got.items()}},
                      tags=["formulas" if formulas else "expressions", mode, alg])


def total(ps, late=0):
    out = 0.0
    for got, _ in ps:
        v = 1.0
        for x in got:
            v *= x[late]
        out += v
    return out
