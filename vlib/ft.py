"""Abstract fault trees: generation, rendering, and reference meaning."""
from .xmlw import E
from . import boolref as B


class FT:
    """gates: name -> (conn, args, lo, hi); args: (negated, kind, ref) with kind
    g, b, h (named) or c (constant)."""

    def __init__(self):
        self.gates = {}        # insertion order: top first
        self.basics = {}       # name -> expression AST (see expr.py) or None
        self.houses = {}       # name -> bool
        self.labels = {}

    # -- meaning -----------------------------------------------------------
    def tables(self, basics=None, houses=None):
        """The truth table of every gate over the basics in order."""
        names = list(basics if basics is not None else self.basics)
        n = len(names)
        masks, full = B.var_masks(n)
        env = {b: masks[i] for i, b in enumerate(names)}
        hs = dict(self.houses)
        if houses:
            hs.update(houses)
        memo = {}

        def arg(a):
            neg, kind, ref = a
            if kind == "g":
                t = gate(ref)
            elif kind == "b":
                t = env[ref]
            elif kind == "h":
                t = full if hs[ref] else 0
            else:
                t = full if ref else 0
            return t ^ full if neg else t

        def gate(g):
            if g in memo:
                return memo[g]
            op, args, lo, hi = self.gates[g]
            r = B.conn(op, [arg(a) for a in args], full, lo, hi)
            memo[g] = r
            return r
        for g in self.gates:
            gate(g)
        return names, memo

    def tops(self):
        """Gates that no other gate refers to."""
        used = {a[2] for _, args, _, _ in self.gates.values()
                for a in args if a[1] == "g"}
        return [g for g in self.gates if g not in used]

    def reachable_basics(self, top):
        seen, out, todo = set(), [], [top]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            for _, kind, ref in self.gates[g][1]:
                if kind == "g":
                    todo.append(ref)
                elif kind == "b" and ref not in out:
                    out.append(ref)
        return [b for b in self.basics if b in out]

    def reachable_gates(self, top):
        seen, todo = [], [top]
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.append(g)
            for _, kind, ref in self.gates[g][1]:
                if kind == "g":
                    todo.append(ref)
        return seen

    # -- rendering -----------------------------------------------------------
    def arg_xml(self, a, typed=True):
        neg, kind, ref = a
        if kind == "c":
            e = E("constant", {"value": "true" if ref else "false"})
        else:
            tag = {"g": "gate", "b": "basic-event", "h": "house-event"}[kind]
            if typed == "event":
                e = E("event", {"name": ref})
            elif typed == "attr":
                e = E("event", {"name": ref, "type": tag})
            else:
                e = E(tag, {"name": ref})
        return E("not", {}, e) if neg else e

    def formula_xml(self, f, typed=True):
        op, args, lo, hi = f
        if op == "null":
            return self.arg_xml(args[0], typed)
        at = {}
        if lo is not None:
            at["min"] = lo
        if hi is not None:
            at["max"] = hi
        return E(op, at, *[self.arg_xml(a, typed) for a in args])

    def xml(self, expr_xml=None, name="ft", order=None, extra=()):
        root = E("opsa-mef")
        ft = E("define-fault-tree", {"name": name})
        for g, f in self.gates.items():
            ft.add(E("define-gate", {"name": g}, self.formula_xml(f)))
        for h, v in self.houses.items():
            ft.add(E("define-house-event", {"name": h},
                     E("constant", {"value": "true" if v else "false"})))
        for b, ex in self.basics.items():
            ft.add(E("define-basic-event", {"name": b},
                     expr_xml(ex) if ex is not None else None))
        root.add(ft)
        root.add(*extra)
        return root


COHERENT = [(4, "and"), (4, "or"), (2, "atleast"), (1, "null")]
FULL = [(4, "and"), (4, "or"), (2, "atleast"), (2, "xor"), (1, "nand"),
        (1, "nor"), (1, "not"), (1, "null"), (1, "iff"), (1, "imply"),
        (2, "cardinality")]


def gen_ft(src, max_basic=9, max_gates=16, coherent=None, prefix="",
           consts=True, min_basic=1, complements=True):
    """A random fault tree.  Gates only refer to later gates."""
    ft = FT()
    size = src.size
    coh = src.bool(0.35) if coherent is None else coherent
    nb = src.int(min_basic, max(min_basic, int(round(max_basic * size))))
    ng = src.int(1, max(1, int(round(max_gates * size))))
    shape = src.weighted([(4, "dag"), (2, "tree"), (2, "chain"), (2, "shared"),
                          (1, "wide"), (2, "modular"), (2, "few")])
    p_const = src.choice([0, 0, 0.03, 0.15]) if consts else 0
    p_house = src.choice([0, 0, 0.05, 0.2]) if consts else 0
    p_neg = 0 if coh or not complements else src.choice([0, 0.1, 0.3])
    conns = COHERENT if coh else FULL
    if not coh and src.bool(0.3):    # concentrate on a few connectives
        ops = src.sample([o for _, o in FULL], 3)
        conns = [(w, o) for w, o in FULL if o in ops] + [(1, "and"), (1, "or")]
    basics = ["%se%d" % (prefix, i) for i in range(nb)]
    gates = ["%sg%d" % (prefix, i) for i in range(ng)]
    nh = src.int(1, 2) if p_house else 0
    houses = ["%sh%d" % (prefix, i) for i in range(nh)]
    for b in basics:
        ft.basics[b] = None
    for h in houses:
        ft.houses[h] = src.bool()
    unused = list(range(1, ng))       # gates not referred to yet
    free_b = list(basics)             # basics not referred to yet
    groups = None
    if shape == "modular":
        k = src.int(2, 3)
        groups = [src.draw(k) for _ in gates]
    shared_args = None
    if shape == "shared":
        shared_args = [("b", b) for b in src.sample(basics, 3)]

    for i, g in enumerate(gates):
        op = src.weighted(conns)
        later = list(range(i + 1, ng))
        fan = src.weighted([(6, 2), (4, 3), (2, 4), (1, 5), (1, 7)]) \
            if shape == "wide" else src.weighted([(6, 2), (4, 3), (2, 4), (1, 5)])
        if op in ("not", "null"):
            fan = 1
        elif op in ("xor", "iff", "imply"):
            fan = 2
        elif op == "atleast":
            fan = max(fan, 3)
        cand = []
        seen = set()

        def push(kind, ref):
            if (kind, ref) not in seen:
                seen.add((kind, ref))
                neg = (op not in ("not", "null") and kind != "c"
                       and src.bool(p_neg))
                cand.append((neg, kind, ref))

        tries = 0
        while len(cand) < fan and tries < 4 * fan:
            tries += 1
            if p_const and src.bool(p_const) and op != "not":
                push("c", src.bool())
                continue
            if houses and src.bool(p_house):
                push("h", src.choice(houses))
                continue
            want_gate = bool(later) and src.bool(
                {"tree": 0.5, "chain": 0.5, "dag": 0.45, "shared": 0.35,
                 "wide": 0.3, "modular": 0.5, "few": 0.6}[shape])
            if shape == "chain" and later and not cand:
                want_gate = True
            if want_gate:
                if shape == "tree":
                    pool = [x for x in unused if x > i]
                elif shape == "chain":
                    pool = later[:2]
                elif shape == "modular":
                    pool = [x for x in later
                            if i == 0 or groups[x] == groups[i]]
                else:
                    # Prefer gates nobody uses yet.
                    pool = [x for x in unused if x > i] \
                        if src.bool(0.5) else later
                if pool:
                    x = src.choice(pool)
                    if x in unused:
                        unused.remove(x)
                    push("g", gates[x])
                    continue
            if shape == "tree" and free_b:
                b = src.choice(free_b)
                free_b.remove(b)
            elif shape == "modular" and i > 0:
                k = max(groups) + 1
                pool = [b for j, b in enumerate(basics)
                        if j % k == groups[i] % k] or basics
                b = src.choice(pool)
            elif shared_args and src.bool(0.6):
                b = src.choice(shared_args)[1]
            else:
                b = src.choice(basics)
            push("b", b)
        # Fill up.
        for b in basics:
            if len(cand) >= fan:
                break
            push("b", b)
        for x in later:
            if len(cand) >= fan:
                break
            push("g", gates[x])
            if x in unused:
                unused.remove(x)
        m = len(cand)
        lo = hi = None
        if m == 0:
            op, cand = "null", [(False, "b", basics[0])]
        elif m == 1 and op not in ("not", "null", "cardinality"):
            op = "null"
            cand = [(False,) + cand[0][1:]]
        if op in ("xor", "iff", "imply") and len(cand) != 2:
            op = "and"
        if op == "atleast":
            if len(cand) < 3:
                op = "or"
            else:
                lo = src.int(2, len(cand) - 1)
        if op == "cardinality":
            lo = src.int(0, len(cand))
            hi = src.int(lo, len(cand))
        if op in ("not", "null"):
            cand = [(False,) + cand[0][1:]]
            if op == "not" and cand[0][1] == "c":
                op = "null"
        ft.gates[g] = (op, cand, lo, hi)
    return ft


def prune(ft, top):
    """Keeps only what the top event reaches."""
    gs = set(ft.reachable_gates(top))
    out = FT()
    out.gates = {g: f for g, f in ft.gates.items() if g in gs}
    refs = {(a[1], a[2]) for f in out.gates.values() for a in f[1]}
    out.basics = {b: e for b, e in ft.basics.items() if ("b", b) in refs}
    out.houses = {h: v for h, v in ft.houses.items() if ("h", h) in refs}
    return out


def show(ft):
    """A compact text form for evidence samples and messages."""
    lines = []
    for g, (op, args, lo, hi) in ft.gates.items():
        a = " ".join(("~" if n else "") + str(r) for n, _, r in args)
        k = "" if lo is None else "[%s%s]" % (lo, "" if hi is None else "..%s" % hi)
        lines.append("%s=%s%s(%s)" % (g, op, k, a))
    return "; ".join(lines) + (
        " houses=%s" % ft.houses if ft.houses else "")
