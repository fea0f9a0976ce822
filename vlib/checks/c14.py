"""C14 ill-formed models are rejected."""
import copy
import hashlib
import os

from .. import sink
from ..base import DrvCheck
from ..driver import Cli, settings_fields
from ..engine import Discard, Result
from ..xmlw import E
from .c13 import gen_settings

EVENT_TAGS = ("gate", "basic-event", "house-event", "event")
INSTR = ("set-house-event", "collect-formula", "collect-expression", "if", "block",
         "rule", "event-tree")
BRANCHY = ("initial-state", "define-branch", "path")


def walk(x, parent=None, base=""):
    """(element, parent, base path) ; base path of what is inside containers."""
    if x.tag in ("define-fault-tree", "define-component"):
        inner = (base + "." if base else "") + x.attrs["name"]
    else:
        inner = base
    yield x, parent, base
    for k in x.kids:
        if isinstance(k, E):
            yield from walk(k, x, inner)


def find(root, *tags):
    return [w for w in walk(root) if w[0].tag in tags]


def is_formula(x, p):
    return p is not None and (
        (p.tag == "define-gate" and x.tag not in ("label", "attributes")) or
        p.tag in ("collect-formula", "hypothesis"))


class Bad:
    """The violations; each method makes one, or raises Discard."""

    def __init__(self, s, y, lay, root):
        self.s, self.y, self.lay, self.root = s, y, lay, root
        self.settings = {}
        self.files = None          # a function (paths) -> paths
        self.text = None           # a function text -> text

    def pick(self, xs, why="no place"):
        if not xs:
            raise Discard(why)
        return self.s.choice(xs)

    def front(self, x):
        """Where content starts (after label and attributes)."""
        i = 0
        while i < len(x.kids) and x.kids[i].tag in ("label", "attributes"):
            i += 1
        return i

    # -- duplicates --
    def redefinition(self):
        s = self.s
        x, p, _ = self.pick(find(
            self.root, "define-gate", "define-basic-event", "define-house-event",
            "define-parameter", "define-CCF-group", "define-fault-tree", "define-event-tree",
            "define-initiating-event", "define-rule", "define-alignment", "define-phase",
            "define-substitution", "define-functional-event", "define-sequence",
            "define-branch", "define-component"))
        if x.tag in ("define-fault-tree", "define-component"):
            c = E(x.tag, dict(x.attrs))
        else:
            c = copy.deepcopy(x)
        if x.tag == "define-CCF-group":
            for m in c.kids:
                if m.tag == "members":
                    for i, b in enumerate(m.kids):
                        b.attrs["name"] = "other_%d" % i
        if x.tag in ("define-gate", "define-basic-event", "define-house-event") and s.bool(0.4) \
                and p.tag != "model-data":
            c = s.choice([E("define-basic-event", dict(x.attrs), E("float", {"value": "0.1"})),
                          E("define-house-event", dict(x.attrs))])
        i = p.kids.index(x)
        if x.tag in ("define-functional-event", "define-sequence", "define-branch", "define-phase"):
            p.kids.insert(i + s.draw(2), c)
        else:
            j = max(self.front(p), s.int(0, len(p.kids)))
            p.kids.insert(j, c)
        return x.tag[7:]

    def public_twice(self):
        """A public element of the same kind of name elsewhere."""
        s = self.s
        ents = [e for e in self.lay.ents.values() if e.public]
        e = self.pick(ents)
        new = E("define-parameter" if e.kind == "p" else
                s.choice(["define-basic-event", "define-house-event"]), {"name": e.name})
        if new.tag != "define-house-event":
            new.add(E("float", {"value": "0.2"}))
        if s.bool():
            self.root.kids.insert(max(self.front(self.root), s.int(0, len(self.root.kids))),
                                  E("model-data", {}, new))
        else:
            x, _, base = self.pick(find(self.root, "define-fault-tree", "define-component"))
            path = (base + "." if base else "") + x.attrs["name"]
            if e.cont is not None and path == e.base:
                raise Discard("same container")
            new.attrs["role"] = "public"
            x.kids.insert(max(self.front(x), s.int(0, len(x.kids))), new)
        return e.kind

    def repeated_argument(self):
        s = self.s
        xs = [(x, p, b) for x, p, b in walk(self.root)
              if x.tag in ("and", "or", "nand", "nor", "xor", "iff", "imply", "atleast",
                           "cardinality") and is_formula(x, p)]
        x, _, base = self.pick(xs)
        a = s.choice(x.kids)
        inner = a.kids[0] if a.tag == "not" else a
        if inner.tag == "constant":
            b = copy.deepcopy(inner)
        else:
            kind = {"gate": "g", "basic-event": "b", "house-event": "h"}.get(
                inner.attrs.get("type", inner.tag), "event")
            ent = self.lay.resolve(base, inner.attrs["name"], kind)
            b = self.lay.event_ref(base, ent.kind, ent.key)
            if s.bool(0.4):
                b = E("not", {}, b)
        if x.tag in ("xor", "iff", "imply"):
            x.kids[1 - x.kids.index(a)] = b
        else:
            x.kids.insert(s.int(0, len(x.kids)), b)
            if x.tag == "cardinality" and s.bool():
                x.attrs["max"] = str(int(x.attrs["max"]) + 1)
        return x.tag

    def repeated_attribute(self):
        s = self.s
        at = find(self.root, "attributes")
        if at and s.bool(0.7):
            x = s.choice(at)[0]
        else:
            h = self.pick([w[0] for w in walk(self.root)
                           if (w[0].tag.startswith("define-") or w[0].tag == "opsa-mef")
                           and not any(k.tag == "attributes" for k in w[0].kids)])
            x = E("attributes")
            h.kids.insert(1 if h.kids and h.kids[0].tag == "label" else 0, x)
        if not x.kids:
            x.add(E("attribute", {"name": "n", "value": "v"}))
        a = s.choice(x.kids)
        x.kids.insert(s.int(0, len(x.kids)), E("attribute", {"name": a.attrs["name"], "value": "other"}))

    def ccf_members(self):
        x, _, _ = self.pick(find(self.root, "members"))
        if self.s.bool():
            x.kids = x.kids[:1]
            return "one"
        x.kids.append(copy.deepcopy(self.s.choice(x.kids)))
        return "twice"

    # -- numbers --
    def arity(self):
        x, _, _ = self.pick([(x, p, b) for x, p, b in walk(self.root)
                             if x.tag in ("and", "or", "nand", "nor") and is_formula(x, p)])
        x.kids = [self.s.choice(x.kids)]
        return x.tag

    def numbers(self):
        s = self.s
        x, p, base = self.pick([(x, p, b) for x, p, b in walk(self.root)
                                if x.tag in ("and", "or", "atleast", "cardinality") and is_formula(x, p)
                                and p.tag != "hypothesis"])
        n = len(x.kids)
        if x.tag in ("and", "or"):
            x.tag = s.choice(["atleast", "cardinality"])
        big = s.choice([65536, 65537, 65536 + n - 1, 2 ** 31, 2 ** 32 + 2, 10 ** 20])
        if x.tag == "atleast":
            x.attrs["min"] = s.choice([0, 1, n, n + 1, big])
        else:
            x.attrs["min"], x.attrs["max"] = s.choice(
                [(1, 0), (2, 1), (n + 1, n), (0, n + 1), (n + 1, n + 2), (0, big), (big, big), (big, 1)])
        return x.tag

    def negative_number(self):
        x, _, _ = self.pick([(x, p, b) for x, p, b in walk(self.root)
                             if x.tag in ("atleast", "cardinality") and is_formula(x, p)])
        k = self.s.choice([k for k in ("min", "max") if k in x.attrs])
        x.attrs[k] = self.s.choice(["-1", "", "x", "1.5", "-0.0"])

    def fractions(self):
        s = self.s
        al, _, _ = self.pick(find(self.root, "define-alignment"))
        ph = [k for k in al.kids if k.tag == "define-phase"]
        p = s.choice(ph)
        how = s.choice(["zero", "neg", "more", "less", "nan", "above"])
        f = float(p.attrs["time-fraction"])
        p.attrs["time-fraction"] = {"zero": "0", "neg": "-0.5", "nan": "NaN", "above": "1.0000001",
                                    "more": repr(f + 2e-4), "less": repr(f - 2e-4)}[how]
        if how == "above" and len(ph) == 1:
            p.attrs["time-fraction"] = "1.01"
        return how

    def probability(self):
        xs = []
        for x, p, b in find(self.root, "define-basic-event"):
            ks = [k for k in x.kids if k.tag not in ("label", "attributes")]
            if ks:
                xs.append((x, ks[0]))
        x, k = self.pick(xs)
        bad = self.s.choice([("float", "1.0000001"), ("float", "-1e-9"), ("int", "2"),
                             ("int", "-1"), ("float", "INF"), ("float", "NaN")])
        x.kids[x.kids.index(k)] = E(bad[0], {"value": bad[1]})
        return bad[1]

    # -- missing --
    def no_expression(self):
        x, _, _ = self.pick(find(self.root, "define-basic-event"))
        x.kids = x.kids[:self.front(x)]
        self.settings["probability"] = True

    def undefined(self):
        s = self.s
        xs = find(self.root, "sequence", "branch", "rule", "event-tree")
        xs = [w for w in xs if "name" in w[0].attrs]
        xs += find(self.root, "fork", "define-initiating-event", "set-house-event")
        x, p, _ = self.pick(xs)
        wrong = {"sequence": ["nothing", "ET0", "B0"], "branch": ["nothing", "B7", "S0"],
                 "rule": ["nothing", "R9", "S0"], "event-tree": ["nothing", "ET9", "I0"],
                 "fork": ["nothing", "F9", "ok"], "define-initiating-event": ["nothing", "ET9", "I0"],
                 "set-house-event": ["nothing"] +
                 [e.name for e in self.lay.ents.values() if e.kind in "gb" and
                  not any(o.kind == "h" and o.public and o.name == e.name for o in self.lay.ents.values())]}
        at = {"fork": "functional-event", "define-initiating-event": "event-tree"}.get(x.tag, "name")
        x.attrs[at] = s.choice(wrong[x.tag])
        return x.tag

    def foreign_branch(self):
        """A functional event or branch of another event tree."""
        trees = [w[0] for w in find(self.root, "define-event-tree")]
        names = {t.attrs["name"]: {(k.tag, k.attrs["name"]) for k in t.kids if "name" in k.attrs}
                 for t in trees}
        cand = []
        for t in trees:
            for x, p, _ in walk(t):
                if x.tag == "fork":
                    for u in trees:
                        for tag, n in names[u.attrs["name"]]:
                            if tag == "define-functional-event" and (tag, n) not in names[t.attrs["name"]]:
                                cand.append((x, "functional-event", n))
                if x.tag == "branch" and p.tag in BRANCHY:
                    for u in trees:
                        for tag, n in names[u.attrs["name"]]:
                            if tag == "define-branch" and (tag, n) not in names[t.attrs["name"]]:
                                cand.append((x, "name", n))
        x, at, n = self.pick(cand)
        x.attrs[at] = n
        return x.tag

    def private_at_model_scope(self):
        xs = [(x, p) for x, p, _ in walk(self.root) if p is not None and p.tag == "model-data"]
        x, p = self.pick(xs)
        x.attrs["role"] = "private"

    def units(self):
        s = self.s
        defs = find(self.root, "define-parameter")
        x, _, base = self.pick(defs)
        xs = [w for w in walk(self.root) if w[0].tag == "system-mission-time"]
        refs = [w for w in walk(self.root) if w[0].tag == "parameter"]
        if xs and (not refs or s.bool(0.4)):
            s.choice(xs)[0].attrs["unit"] = s.choice(["years", "fit", "bool", "hours-1"])
            return "mission time"
        r, _, b = self.pick(refs)
        e = self.lay.resolve(b, r.attrs["name"], "p")
        has = self.y.units.get(e.key, "unitless")
        r.attrs["unit"] = s.choice([u for u in ("hours", "hours-1", "years", "fit", "demands", "int")
                                    if u != has])
        return "parameter"

    # -- cycles (before rendering) --
    def gate_cycle(self):
        s, ft = self.s, self.y.ft
        g = s.choice(list(ft.gates))
        d = s.choice(ft.reachable_gates(g))
        op, args, lo, hi = ft.gates[d]
        new = (op not in ("not", "null") and s.bool(0.3), "g", g)
        args = [a for a in args if a[1:] != ("g", g)]
        if op in ("not", "null"):
            args = [(False, "g", g)]
        elif op in ("xor", "iff", "imply"):
            args = [new] + [s.choice(args)] if s.bool() else [s.choice(args), new]
        else:
            args = list(args)
            args.insert(s.int(0, len(args)), new)
            if len(args) < 2:
                args.append((False, "b", list(ft.basics)[0]))
            if op == "atleast":
                lo = min(lo, len(args) - 1)
                if lo < 2:
                    op, lo = "or", None
        ft.gates[d] = (op, args, lo, hi)
        return "self" if g == d else "longer"

    def parameter_cycle(self):
        s, y = self.s, self.y
        if not y.params:
            raise Discard("no parameter")
        p = s.choice(list(y.params))
        reach, todo = [], [p]
        while todo:
            q = todo.pop()
            if q not in reach:
                reach.append(q)
                todo += sorted(sink.expr_params(y.params[q]))
        d = s.choice(reach)
        y.params[d] = s.choice([
            lambda: ("param", p), lambda: ("mul", [y.params[d], ("param", p)]),
            lambda: ("mul", [("const", 0.0), ("mean", [("param", p), ("const", 0.5)])]),
            lambda: ("exp", ("param", p))])()
        return "self" if d == p else "longer"

    # -- event trees --
    def wrap(self, i):
        """An instruction, perhaps inside others."""
        s = self.s
        while s.bool(0.35):
            k = s.choice(["block", "then", "else"])
            if k == "block":
                i = E("block", {}, *s.shuffle([i, E("block", {})]))
            elif k == "then":
                i = E("if", {}, E("bool", {"value": s.choice(["true", "false"])}), i)
            else:
                i = E("if", {}, E("bool", {"value": "false"}), E("block", {}), i)
        return i

    def add_instruction(self, x, i):
        """Adds to a branch, sequence or rule."""
        lo = self.front(x)
        hi = len(x.kids) - (1 if x.tag in BRANCHY else 0)
        x.kids.insert(self.s.int(lo, hi), i)

    def table(self, tag):
        return {x.attrs["name"]: x for x, _, _ in find(self.root, tag)}

    def reach(self, tree):
        """Elements of sequences, rules and trees that a tree leads to."""
        seqs, rules, trees = (self.table(t) for t in
                              ("define-sequence", "define-rule", "define-event-tree"))
        out, seen, todo = [], set(), [tree]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.tag == "define-event-tree":
                parts = [k for k in x.kids if k.tag == "initial-state"]
            else:
                parts = [x]
            br = {k.attrs["name"]: k for k in x.kids if k.tag == "define-branch"} \
                if x.tag == "define-event-tree" else {}
            while parts:
                y = parts.pop()
                if id(y) in seen and y is not x:
                    continue
                seen.add(id(y))
                out.append(y)
                for e, p, _ in walk(y):
                    n = e.attrs.get("name")
                    if e.tag == "sequence":
                        todo.append(seqs[n])
                    elif e.tag == "branch":
                        parts.append(br[n])
                    elif e.tag == "rule":
                        todo.append(rules[n])
                    elif e.tag == "event-tree":
                        todo.append(trees[n])
        return out

    def spots(self, part):
        """Where instructions can go in an initial state, branch, sequence or rule."""
        return [e for e, _, _ in walk(part) if e.tag in BRANCHY + ("define-sequence", "define-rule")]

    def branch_cycle(self):
        s = self.s
        t, _, _ = self.pick(find(self.root, "define-event-tree"))
        br = {k.attrs["name"]: k for k in t.kids if k.tag == "define-branch"}
        if not br:
            if not any(k.tag == "define-branch" for k in t.kids):
                q = s.choice([k for k in self.table("define-sequence")])
                b = E("define-branch", {"name": "B0"}, E("sequence", {"name": q}))
                t.kids.insert(len(t.kids) - 1, b)
                br = {"B0": b}
        b = s.choice(list(br))
        seen, todo = [], [b]
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.append(n)
                todo += [e.attrs["name"] for e, p, _ in walk(br[n]) if e.tag == "branch"]
        d = br[s.choice(seen)]
        leaves = [(e, p) for e, p, _ in walk(d) if e.tag in ("sequence", "branch") and p.tag in BRANCHY]
        e, p = s.choice(leaves)
        p.kids[p.kids.index(e)] = E("branch", {"name": b})
        return "self" if br[b] is d else "longer"

    def rule_cycle(self):
        s = self.s
        rules = self.table("define-rule")
        if not rules or s.bool(0.2):
            x = E("define-rule", {"name": "RR"}, self.wrap(E("rule", {"name": "RR"})))
            self.root.kids.append(x)
            return "new"
        r = s.choice(list(rules))
        seen, todo = [], [r]
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.append(n)
                todo += [e.attrs["name"] for e, _, _ in walk(rules[n]) if e.tag == "rule"]
        d = s.choice(seen)
        self.add_instruction(rules[d], self.wrap(E("rule", {"name": r})))
        return "self" if d == r else "longer"

    def link_cycle(self):
        s = self.s
        t, _, _ = self.pick(find(self.root, "define-event-tree"))
        # Sequences, and rules that only sequences use.
        qs = [p for p in self.reach(t) if p.tag == "define-sequence"]
        q = self.pick(qs)
        i = self.wrap(E("event-tree", {"name": t.attrs["name"]}))
        if s.bool(0.25):
            self.root.kids.append(E("define-rule", {"name": "RL"}, i))
            i = E("rule", {"name": "RL"})
        self.add_instruction(q, i)

    def link_outside(self):
        s = self.s
        x, p, _ = self.pick(find(self.root, *BRANCHY))
        t = s.choice(list(self.table("define-event-tree")))
        i = self.wrap(E("event-tree", {"name": t}))
        if s.bool(0.25):
            self.root.kids.append(E("define-rule", {"name": "RL"}, i))
            i = self.wrap(E("rule", {"name": "RL"}))
        self.add_instruction(x, i)
        return x.tag

    def mixed(self):
        s = self.s
        t, _, _ = self.pick(find(self.root, "define-event-tree"))
        if s.bool(0.75):
            parts = self.reach(t)
        else:    # from a named branch
            brs = [k for k in t.kids if k.tag == "define-branch"]
            b = self.pick(brs)
            fake = E("define-event-tree", {}, *[k for k in t.kids if k.tag == "define-branch"],
                     E("initial-state", {}, E("branch", {"name": b.attrs["name"]})))
            parts = [p for p in self.reach(fake) if p.tag != "initial-state"]
        spots = [e for p in parts for e in self.spots(p)]
        f = lambda: E("collect-formula", {}, self.lay.event_ref("", "g", s.choice(list(self.y.ft.gates))))
        v = lambda: E("collect-expression", {}, E("float", {"value": "0.5"}))
        has_f = any(e.tag == "collect-formula" for p in parts for e, _, _ in walk(p))
        has_v = any(e.tag == "collect-expression" for p in parts for e, _, _ in walk(p))
        if not has_f:
            self.add_instruction(self.pick(spots), self.wrap(f()))
        if not has_v:
            self.add_instruction(self.pick(spots), self.wrap(v()))

    def event_order(self):
        s = self.s
        cand = []
        for t, _, _ in find(self.root, "define-event-tree"):
            order = [k.attrs["name"] for k in t.kids if k.tag == "define-functional-event"]
            br = {k.attrs["name"]: k for k in t.kids if k.tag == "define-branch"}

            def go(x, above, t=t, order=order, br=br, depth=0):
                if depth > 8:
                    return
                if x.tag == "fork":
                    for a in above:
                        cand.append((a, x, order))
                    above = above + [x]
                for k in x.kids:
                    if k.tag == "branch" and x.tag in BRANCHY:
                        go(br[k.attrs["name"]], above, depth=depth + 1)
                    elif k.tag in ("path", "fork"):
                        go(k, above, depth=depth + 1)
            for k in t.kids:
                if k.tag in BRANCHY:
                    go(k, [])
        a, b, order = self.pick(cand)
        b.attrs["functional-event"] = a.attrs["functional-event"]
        i = order.index(a.attrs["functional-event"])
        if i and s.bool():
            b.attrs["functional-event"] = order[s.draw(i)]
            return "order"
        return "repeated"

    def repeated_state(self):
        x, _, _ = self.pick([w for w in find(self.root, "fork")])
        p = copy.deepcopy(self.s.choice(x.kids))
        if len(x.kids) > 1 and self.s.bool():
            a, b = self.s.sample(x.kids, 2)
            b.attrs["state"] = a.attrs["state"]
        else:
            x.kids.append(p)

    # -- schema and files --
    def bad_name(self):
        s = self.s
        n = s.choice(["a.b", "-a", "a-", "a--b", "", "a b", "1a", "a:b", "a\tb", "&", "a.", ".a"])
        x, p, _ = self.pick([w for w in walk(self.root) if w[0].tag.startswith("define-")])
        if x.tag in ("define-gate", "define-basic-event", "define-house-event", "define-parameter") \
                and s.bool():
            p.kids.append(E(x.tag, {"name": n}, *copy.deepcopy(x.kids)))
        else:
            x.attrs["name"] = n
        return x.tag

    def schema(self):
        s = self.s
        x, p, _ = self.pick([w for w in walk(self.root) if w[1] is not None])
        k = s.choice(["unknown element", "unknown attribute", "drop attribute", "text", "root", "label"])
        if k == "unknown element":
            p.kids.insert(s.int(0, len(p.kids)), E("unknown"))
        elif k == "unknown attribute":
            x.attrs["unknown"] = "1"
        elif k == "drop attribute":
            x, p, _ = self.pick([w for w in walk(self.root) if w[0].tag.startswith("define-")])
            x.attrs.pop("name", None)
        elif k == "text":
            x, p, _ = self.pick([w for w in walk(self.root) if w[0].tag.startswith("define-")])
            x.kids.insert(s.int(0, len(x.kids)), "text")
        elif k == "root":
            self.root.tag = s.choice(["opsa", "model", "OPSA-MEF"])
        else:
            x, p, _ = self.pick([w for w in walk(self.root) if w[0].tag.startswith("define-")
                                 and len(w[0].kids) > self.front(w[0])])
            x.kids.append(E("label", {}, "late"))
        return k

    def malformed(self):
        s = self.s
        how = s.choice(["cut", "amp", "close", "quote", "empty", "twice", "entity"])
        pos = s.draw(1000)

        def go(t):
            i = 30 + pos * max(0, len(t) - 60) // 1000
            if how == "cut":
                return t[:max(5, min(i, len(t) - 12))]
            if how == "amp":
                j = t.index(">", min(i, len(t) - 20)) + 1
                return t[:j] + "&" + t[j:]
            if how == "close":
                j = t.rindex("</")
                return t[:j] + "</other>"
            if how == "quote":
                return t.replace('="', "=", 1) if t.count('="') else t[:10]
            if how == "empty":
                return ""
            if how == "entity":
                j = t.index(">", min(i, len(t) - 20)) + 1
                return t[:j] + "&none;" + t[j:]
            return t + t[t.index("<opsa-mef"):]
        self.text = go
        return how

    def file_list(self):
        s = self.s
        how = s.choice(["same", "dotted", "link", "missing", "directory"])

        def go(paths):
            p = paths[0]
            d = os.path.dirname(p)
            if how == "same":
                return paths + [p]
            if how == "dotted":
                return paths + [os.path.join(d, ".", "..", os.path.basename(d), os.path.basename(p))]
            if how == "link":
                l = os.path.join(d, "link.xml")
                if not os.path.islink(l):
                    os.symlink(p, l)
                return paths + [l]
            if how == "missing":
                return [os.path.join(d, "missing.xml")] + paths
            return paths + [d]
        self.files = go
        return how


LOGIC = ["gate_cycle", "parameter_cycle"]
KINDS = [(4, "gate_cycle"), (3, "parameter_cycle"), (4, "redefinition"), (3, "public_twice"),
         (3, "repeated_argument"), (2, "repeated_attribute"), (1, "ccf_members"), (2, "arity"),
         (3, "numbers"), (1, "negative_number"), (1, "fractions"), (2, "probability"),
         (2, "no_expression"), (3, "undefined"), (1, "foreign_branch"),
         (1, "private_at_model_scope"), (2, "units"), (3, "branch_cycle"), (3, "rule_cycle"),
         (4, "link_cycle"), (3, "link_outside"), (4, "mixed"), (4, "event_order"),
         (2, "repeated_state"), (2, "bad_name"), (3, "schema"), (2, "malformed"), (2, "file_list")]
ET = {"undefined", "foreign_branch", "branch_cycle", "rule_cycle", "link_cycle", "link_outside",
      "mixed", "event_order", "repeated_state"}


class C14(DrvCheck):
    id = "C14"
    rule = "a valid model (accepted before) with one violation put at a random place"
    quick_cases = 30000
    thorough_cases = 400000
    thorough_wall = 700
    targets = ("sdrv", "scram", "clidrv")
    assumptions = [
        "the violation classes are those of the list in DESIGN.md",
        "invalid expressions, common-cause groups, substitutions and references are also the subject of C08, C06, C12 and C13",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])

    def close(self):
        super().close()
        self.cli.close()

    def case(self, s):
        kind = s.weighted(KINDS)
        y = sink.gen_sys(s, ets=0.9 if kind in ET else 0.25, ccf=1 if kind == "ccf_members" else 0.2,
                         aligns=1 if kind == "fractions" else 0.2, subs=0.15)
        for p in y.params:
            if s.bool(0.4):
                y.units[p] = s.choice(["hours", "hours-1", "years", "fit", "demands", "bool"])
        nd = any(sub.source for sub in y.subs)
        st = gen_settings(s, nd)
        lay = sink.Layout(s, y, depth=s.int(0, 2), meta=s.choice([0, 0, 0.3]))
        b = Bad(s, y, lay, None)
        if kind in LOGIC:
            good = E("opsa-mef", {}, *lay.top_items())
            what = getattr(b, kind)()
            try:
                lay.check_refs()
            except sink.Unresolvable:
                raise Discard("no reference to the element")
            b.root = E("opsa-mef", {}, *lay.top_items())
        else:
            b.root = E("opsa-mef", {}, *lay.top_items())
            good = copy.deepcopy(b.root)
            what = getattr(b, kind)()
        st.update(b.settings)
        self.run_ok(good.text(), st)
        text = b.root.text()
        if b.text:
            text = b.text(text)
            if text == good.text():
                raise Discard("unchanged")
        label = kind.replace("_", " ") + (" (%s)" % what if what else "")
        texts = [text]
        if not b.text and s.bool(0.3):
            texts = self.split(s, b.root)
        paths = [self.drv.scratch.write("m%d.xml" % i, t) for i, t in enumerate(texts)]
        if b.files:
            paths = b.files(paths)
        self.last_files = [("m%d.xml" % i, t) for i, t in enumerate(texts)]
        self.last_settings = st
        r = self.drv.request([("file", p) for p in paths] + settings_fields(st), 20)
        if "timeout" in r:
            self.fail("no answer for an ill-formed model: %s" % label, sig="hang: " + kind)
        if "crash" in r:
            self.fail("the tool died (status %s) on an ill-formed model: %s"
                      % (r["crash"], label), sig="crash: " + kind, extra=r["stderr"])
        if "error" not in r:
            self.fail("accepted with a violation: %s" % label, sig="accepted: " + kind)
        if r.get("kind") != "user":
            self.fail("the violation (%s) gave an internal error: %s" % (label, r), sig="kind: " + kind)
        tags = [kind]
        if s.bool(0.08):
            self.command_line(s, paths, st, label)
            tags.append("command line")
        return Result(hashlib.sha1((kind + text).encode()).hexdigest(),
                      {"violation": label, "error": r["error"], "what": r.get("what", "")[:120]}, tags)

    def split(self, s, root):
        """The model in two files."""
        i = 0
        while i < len(root.kids) and not isinstance(root.kids[i], str) and \
                root.kids[i].tag in ("label", "attributes"):
            i += 1
        a, b = E(root.tag, root.attrs, *root.kids[:i]), E("opsa-mef")
        for k in root.kids[i:]:
            s.choice([a, b]).add(k)
        return [a.text(), b.text()]    # the first file names the model

    def command_line(self, s, paths, st, label):
        out = self.cli.scratch.path("report.xml")
        if os.path.exists(out):
            os.unlink(out)
        args = list(paths)
        alg = st["algorithm"]
        args += ["--" + alg]
        ap = st.get("approximation")
        if ap in ("rare-event", "mcub"):
            args += ["--" + ap]
        if st["probability"]:
            args += ["--probability"]
        to_file = s.bool()
        if to_file:
            args += ["-o", out]
        rc, o, e = self.cli.run(args, 20)
        if rc != 1:
            self.fail("exit status %s for an ill-formed model: %s" % (rc, label),
                      sig="exit status", extra=e[-1500:].decode("utf-8", "replace"))
        if not e.strip():
            self.fail("no error message for an ill-formed model: %s" % label, sig="no message")
        if o.strip() or os.path.exists(out) and os.path.getsize(out):
            self.fail("a report was written for an ill-formed model: %s" % label, sig="report written")
