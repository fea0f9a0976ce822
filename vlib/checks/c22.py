"""C22 the editor of the GUI: edits, undo, redo, views and saving."""
import copy
import json
import os
import re
import select
import time
import urllib.parse

from ..base import crash_sig
from ..driver import Driver
from ..engine import Check, Discard, Fail, Result
from ..xmlw import E

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "A", "pump", "pump-1", "x_2", "Q-r-s",
         "été", "v9", "top"]
TREES = ["ft", "tree", "T-2", "sys", "baum", "a"]
LABELS = ["", "label", "two words", "a < b & c", "\"quoted\" 'text'", "étiquette", "]]>",
          "x" * 60]
ATTRS = [("flavor", "undeveloped", ""), ("flavor", "conditional", "kind"), ("note", "n 1", ""),
         ("owner", "me", "string")]
VALUES = [0.0, 1.0, 0.5, 0.1, 0.123456789, 1e-9, 3.0000000000000004e-05, 0.3333333333333333,
          1.2345678901234567e-12]


class GuiDriver(Driver):
    """Speaks lines of tab separated fields."""

    def __init__(self, binary):
        super().__init__(binary)
        self.env.update(HOME=self.scratch.dir, XDG_RUNTIME_DIR=self.scratch.dir,
                        XDG_CONFIG_HOME=self.scratch.dir, QT_QPA_PLATFORM="offscreen",
                        LC_ALL="C.UTF-8", LANG="C.UTF-8", QT_LOGGING_RULES="*.debug=false")

    def ask(self, fields, timeout=20):
        if self.p is None:
            self.start()
        msg = "\t".join(urllib.parse.quote(str(f), safe=" /.-_") for f in fields) + "\n"
        try:
            self.p.stdin.write(msg.encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return self.dead()
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        out = b""
        while not out.endswith(b"\n"):
            left = end - time.time()
            if left <= 0:
                self.kill()
                return {"timeout": True}
            r, _, _ = select.select([fd], [], [], left)
            if r:
                data = os.read(fd, 1 << 20)
                if not data:
                    return self.dead()
                out += data
        return json.loads(out.decode("utf-8", "replace"))

    def dead(self):
        rc = self.p.wait()
        self.errf.flush()
        err = self.stderr_tail()
        self.kill()
        return {"crash": rc, "stderr": err}


# --- the reference model -------------------------------------------------------------------

def expr_json(x):
    if x is None:
        return None
    if x[0] == "const":
        return ["const", float(x[1])]
    return ["exp", ["const", float(x[1])], "time"]


def canon_expr(j):
    if isinstance(j, list) and j and j[0] == "const":
        return ["const", float(j[1])]
    if isinstance(j, list):
        return [canon_expr(x) for x in j]
    return j


def canon(st, tops=True):
    """A state as it is compared: the order of attributes does not count."""
    st = copy.deepcopy(st)

    def fix(e):
        e["attrs"] = sorted([list(a) for a in e["attrs"]])
    if "attrs" in st:
        fix(st)
    for k in ("gate", "basic", "house", "ft"):
        for e in st[k].values():
            fix(e)
    for e in st["basic"].values():
        e["expr"] = canon_expr(e["expr"])
    for e in st["ft"].values():
        e["gates"] = sorted(e["gates"])
        e["tops"] = sorted(e["tops"]) if tops else []
    return st


def flavor(b):
    return "undeveloped" if ["flavor", "undeveloped"] in [a[:2] for a in b["attrs"]] else "basic"


def parents(st, kind, name):
    return [g for g, x in st["gate"].items() if any(a[1] == kind and a[2] == name for a in x["args"])]


def reach(st, g, seen=None):
    seen = set() if seen is None else seen
    for a in st["gate"][g]["args"]:
        if a[1] == "gate" and a[2] not in seen:
            seen.add(a[2])
            reach(st, a[2], seen)
    return seen


def kind_of(st, name):
    for k in ("gate", "basic", "house"):
        if name in st[k]:
            return k
    return None


def tree_of(st, g):
    for t, x in st["ft"].items():
        if g in x["gates"]:
            return t
    return ""


def formula(st, data):
    p = data.split(" ")
    return {"conn": p[0], "min": int(p[1]) if p[0] == "atleast" else 0,
            "args": [["", kind_of(st, n), n] for n in p[2:]]}


def make(st, kind, label, data):
    if kind == "gate":
        return dict(formula(st, data), label=label, attrs=[])
    if kind == "house":
        return {"label": label, "attrs": [], "state": data == "1"}
    fl, x = data.split(";")
    p = x.split(" ")
    return {"label": label, "attrs": [["flavor", "undeveloped", ""]] if fl == "undeveloped" else [],
            "expr": expr_json((p[0], p[1])) if x else None}


def rename(st, kind, old, new):
    st[kind][new] = st[kind].pop(old)
    for g in st["gate"].values():
        for a in g["args"]:
            if a[1] == kind and a[2] == old:
                a[2] = new
    if kind == "gate":
        for t in st["ft"].values():
            t["gates"] = [new if g == old else g for g in t["gates"]]
            t["tops"] = [new if g == old else g for g in t["tops"]]


def apply(st, op):
    """Applies an edit.  Answers the new state and the notifications there and back:
    (notification, is it required)."""
    st = copy.deepcopy(st)
    o, a = op[0], list(op[1:])
    F, B = [], []

    def note(out, what, kind, name, v=None, req=True):
        out.append(((what, kind, name, json.dumps(v)), req))
    if o == "label":
        kind, name, text = a
        e = st if kind == "model" else st[kind][name]
        n = "" if kind == "model" else name
        if e["label"] != text:
            note(F, "label", kind, n, text)
            note(B, "label", kind, n, e["label"])
            e["label"] = text
    elif o == "rename":
        kind, name, new = a[:3]
        if name != new:
            note(F, "id", kind, new, new)
            note(B, "id", kind, name, name)
            rename(st, kind, name, new)
    elif o == "expr":
        name, x = a
        p = x.split(" ")
        new = expr_json((p[0], p[1])) if x else None
        old = st["basic"][name]["expr"]
        if new is not None or old is not None:
            req = canon_expr(new) != canon_expr(old)
            note(F, "expr", "basic", name, new, req)
            note(B, "expr", "basic", name, canon_expr(old), req)
        st["basic"][name]["expr"] = new
    elif o == "flavor":
        name, new = a
        e = st["basic"][name]
        old = flavor(e)
        if new != old:
            note(F, "flavor", "basic", name, new)
            note(B, "flavor", "basic", name, old)
            e["attrs"] = [x for x in e["attrs"] if x[0] != "flavor"]
            if new == "undeveloped":
                e["attrs"].append(["flavor", "undeveloped", ""])
    elif o == "state":
        name, v = a
        e = st["house"][name]
        if e["state"] != (v == "1"):
            note(F, "state", "house", name, v == "1")
            note(B, "state", "house", name, v != "1")
            e["state"] = v == "1"
    elif o == "formula":
        name, data = a
        new = formula(st, data)
        e = st["gate"][name]
        req = any(e[k] != new[k] for k in new)
        note(F, "formula", "gate", name, None, req)
        note(B, "formula", "gate", name, None, req)
        e.update(new)
    elif o == "name":
        if st["name"] != a[0]:
            note(F, "name", "model", "", a[0])
            note(B, "name", "model", "", st["name"])
            st["name"] = a[0]
    elif o == "addft":
        st["ft"][a[0]] = {"label": "", "attrs": [], "gates": [], "tops": []}
        note(F, "added", "ft", a[0])
        note(B, "removed", "ft", a[0])
    elif o == "rmft":
        del st["ft"][a[0]]
        note(F, "removed", "ft", a[0])
        note(B, "added", "ft", a[0])
    elif o == "tops":
        t = st["ft"][a[0]]
        used = {x[2] for g in t["gates"] for x in st["gate"][g]["args"] if x[1] == "gate"}
        t["tops"] = [g for g in t["gates"] if g not in used]
    elif o == "add":
        kind, name, label, data, t = a
        st[kind][name] = make(st, kind, label, data)
        if kind == "gate":
            st["ft"][t]["gates"].append(name)
        note(F, "added", kind, name)
        note(B, "removed", kind, name)
    elif o == "rm":
        kind, name, t = a
        del st[kind][name]
        if kind == "gate":
            st["ft"][t]["gates"].remove(name)
        note(F, "removed", kind, name)
        note(B, "added", kind, name)
    elif o == "type":
        old, name, new, label, data, t = a
        ps = parents(st, old, name)
        e = make(st, new, label, data)
        del st[old][name]
        st[new][name] = e
        for g in st["gate"].values():
            for x in g["args"]:
                if x[1] == old and x[2] == name:
                    x[1] = new
        if old == "gate":
            st["ft"][t]["gates"].remove(name)
        if new == "gate":
            st["ft"][t]["gates"].append(name)
        note(F, "removed", old, name)
        note(F, "added", new, name)
        note(B, "removed", new, name)
        note(B, "added", old, name)
        for g in ps:
            note(F, "formula", "gate", g)
            note(B, "formula", "gate", g)
    else:
        raise AssertionError(op)
    return st, F, B


class Stack:
    """The undo stack as it must behave."""

    def __init__(self, st, limit=0):
        self.st = st
        self.entries = []  # (before, after, forth, back)
        self.index = 0
        self.clean = 0
        self.limit = limit

    def push(self, ops):
        st, F, B = self.st, [], []
        for op in ops:
            st, f, b = apply(st, op)
            F = F + f
            B = b + B
        del self.entries[self.index:]
        if self.clean > self.index:
            self.clean = -1
        self.entries.append((self.st, st, F, B))
        self.index += 1
        self.st = st
        if self.limit and len(self.entries) > self.limit:
            n = len(self.entries) - self.limit
            del self.entries[:n]
            self.index -= n
            if self.clean != -1:
                self.clean = self.clean - n if self.clean >= n else -1
        return F

    def go(self, n):
        n = max(0, min(n, len(self.entries)))
        notes = []
        while self.index < n:
            self.st = self.entries[self.index][1]
            notes += self.entries[self.index][2]
            self.index += 1
        while self.index > n:
            self.index -= 1
            self.st = self.entries[self.index][0]
            notes += self.entries[self.index][3]
        return notes


# --- generation ----------------------------------------------------------------------------

def gen_formula(s, st, cand, forced=(), bigger=False):
    """The text of a formula over some of the events."""
    cand = [c for c in cand if c not in forced]
    k = s.weighted([(3, 2), (2, 1), (3, 3), (1, 4), (1, 5)])
    args = list(forced) + s.sample(cand, max(k - len(forced), 0))
    args = s.shuffle(args)
    n = len(args)
    if n == 0:
        raise Discard("no arguments")
    if n == 1:
        conn = s.choice(["not", "null"])
    else:
        conn = s.choice(["and", "or", "nand", "nor"] + (["xor"] if n == 2 else []) +
                        (["atleast"] * 3 if n > 2 else []))
    return "%s %d %s" % (conn, s.int(2, n - 1) if conn == "atleast" else 0, " ".join(args))


def value(s):
    return repr(s.choice(VALUES) if s.bool(0.6) else s.float(0, 1, 1000))


def gen_expr(s):
    k = s.weighted([(3, "const"), (2, "exp"), (1, "")])
    return "%s %s" % (k, value(s)) if k else ""


def gen_model(s, inside):
    """A model file that the GUI accepts: (text, some attributes in use)."""
    root = E("opsa-mef")
    name = s.choice(["", "m", "model-1", "Modèle"])
    if name:
        root.attrs["name"] = name

    def meta(e, kinds, p=0.35):
        if s.bool(p):
            e.add(E("label", {}, s.choice(LABELS[1:])))
        if s.bool(p):
            at = E("attributes")
            seen = set()
            for a in s.sample(kinds, s.int(1, 2)):
                if a[0] in seen:
                    continue
                seen.add(a[0])
                at.add(E("attribute", {"name": a[0], "value": a[1], **({"type": a[2]} if a[2] else {})}))
            e.add(at)
        return e
    meta(root, ATTRS[2:], 0.2)
    names = s.shuffle(NAMES)
    nft = s.int(0, 3)
    basics = [names.pop() for _ in range(s.int(1, 4))]
    houses = [names.pop() for _ in range(s.int(0, 2))]
    trees = s.sample(TREES, nft)
    gates = [[names.pop() for _ in range(s.int(1, 3)) if len(names) > 3] for _ in trees]
    gates = [g for g in gates if g]
    trees = trees[:len(gates)]
    events = []
    for b in basics:
        e = meta(E("define-basic-event", {"name": b}), ATTRS)
        x = gen_expr(s)
        if x:
            k, v = x.split(" ")
            e.add(E("float", {"value": v}) if k == "const" else
                  E("exponential", {}, E("float", {"value": v}), E("system-mission-time") if s.bool(0.7) else
                        E("float", {"value": value(s)})))
        events.append(e)
    for h in houses:
        e = meta(E("define-house-event", {"name": h}), ATTRS[2:])
        e.add(E("constant", {"value": s.choice(["false", "true"])}))
        events.append(e)
    st = {"gate": {}, "basic": dict.fromkeys(basics), "house": dict.fromkeys(houses)}
    order = [g for gs in gates for g in gs]
    where = {}
    inside = inside and s.bool(0.4)
    if inside and trees:
        for e in events:
            if s.bool(0.5):
                where.setdefault(s.draw(len(trees)), []).append(e)
    for i, (t, gs) in enumerate(zip(trees, gates)):
        ft = meta(E("define-fault-tree", {"name": t}), ATTRS[2:])
        forced = {g: [] for g in gs}
        for j, g in enumerate(gs[1:], 1):
            forced[gs[s.draw(j)]].append(g)
        for j, g in enumerate(gs):
            later = order[order.index(g) + 1:]
            f = gen_formula(s, st, basics + houses + later, forced[g])
            p = f.split(" ")
            e = meta(E("define-gate", {"name": g}), ATTRS[2:])
            kids = [E("gate" if n in order else "basic-event" if n in basics else "house-event",
                      {"name": n}) for n in p[2:]]
            if p[0] == "null":
                e.add(*kids)
            else:
                e.add(E(p[0], {"min": p[1]} if p[0] == "atleast" else {}, *kids))
            ft.add(e)
        for e in where.get(i, []):
            ft.add(e)
        root.add(ft)
    loose = [e for e in events if not any(e is x for w in where.values() for x in w)]
    if loose:
        root.add(E("model-data", {}, *loose))
    return root.text()


def used_names(st):
    return set(st["gate"]) | set(st["basic"]) | set(st["house"])


def free(s, st):
    return [n for n in NAMES if n not in used_names(st)]


def is_root(st, g):
    return any(g in t["tops"] for t in st["ft"].values())


def gen_data(s, st, kind, not_above=None):
    if kind == "house":
        return s.choice(["0", "1"])
    if kind == "basic":
        return s.choice(["basic", "undeveloped"]) + ";" + gen_expr(s)
    bad = set()
    if not_above:
        bad = {not_above} | {g for g in st["gate"] if not_above in all_reach(st, g)}
    return gen_formula(s, st, [n for n in sorted(used_names(st)) if n not in bad])


def all_reach(st, g):
    """The events of any kind below a gate."""
    out = set()
    for x in [g] + sorted(reach(st, g)):
        out |= {a[2] for a in st["gate"][x]["args"]}
    return out


def gen_edit(s, st):
    """A list of edits that is one step (several: a macro), or None."""
    ev = [(k, n) for k in ("gate", "basic", "house") for n in sorted(st[k])]
    what = s.weighted([(3, "add"), (3, "type"), (3, "rename"), (3, "rm"), (2, "formula"), (2, "newft"),
                       (2, "expr"), (1, "flavor"), (1, "state"), (2, "label"), (1, "name"), (1, "rmft")])
    if what == "name":
        return [("name", s.choice(["", "m", "other", "n-1", "Modèle"]))]
    if what == "label":
        k, n = s.choice([("model", "")] + ev)
        return [("label", k, n, s.choice(LABELS))]
    if what == "newft":
        t = [x for x in TREES if x not in st["ft"]]
        names = free(s, st)
        if not t or len(names) < 2 or (not ev and len(names) < 3):
            return None
        t = s.choice(t)
        ops = [("addft", t)]
        s2 = st
        n = names.pop(s.draw(len(names)))
        if not ev or s.bool(0.4):
            b = names.pop(s.draw(len(names)))
            ops.append(("add", "basic", b, s.choice(LABELS), gen_data(s, st, "basic"), ""))
            s2 = apply(st, ops[-1])[0]
        ops.append(("add", "gate", n, s.choice(LABELS), gen_data(s, s2, "gate"), t))
        ops.append(("tops", t))
        return ops
    if what == "add":
        names = free(s, st)
        if not names:
            return None
        kind = s.choice(["basic", "house"] + (["gate"] * 2 if st["ft"] and ev else []))
        t = s.choice(sorted(st["ft"])) if kind == "gate" else ""
        return [("add", kind, s.choice(names), s.choice(LABELS), gen_data(s, st, kind), t)]
    if what == "rmft":
        c = [(t, x["gates"][0]) for t, x in sorted(st["ft"].items())
             if len(x["gates"]) == 1 and not parents(st, "gate", x["gates"][0])]
        if not c:
            return None
        t, g = s.choice(c)
        return [("rm", "gate", g, t), ("rmft", t)]
    if not ev:
        return None
    if what == "rm":
        c = [(k, n) for k, n in ev if not parents(st, k, n) and not (k == "gate" and is_root(st, n))]
        if not c:
            return None
        k, n = s.choice(c)
        return [("rm", k, n, tree_of(st, n) if k == "gate" else "")]
    if what == "rename":
        k, n = s.choice(ev)
        c = free(s, st) + ([n] if s.bool(0.2) else [])
        t = tree_of(st, n) if k == "gate" else ""
        if k != "gate" and parents(st, k, n) and s.bool(0.5):
            t = tree_of(st, s.choice(parents(st, k, n)))
        return [("rename", k, n, s.choice(c), t)] if c else None
    if what == "formula":
        if not st["gate"]:
            return None
        g = s.choice(sorted(st["gate"]))
        return [("formula", g, gen_data(s, st, "gate", g))]
    if what == "type":
        k, n = s.choice(ev)
        if k == "gate" and is_root(st, n):
            return None
        to = s.choice([x for x in ("gate", "basic", "house") if x != k])
        if to == "gate" and not st["ft"]:
            return None
        ps = parents(st, k, n)
        t = tree_of(st, n) if k == "gate" else tree_of(st, ps[0]) if ps else \
            s.choice(sorted(st["ft"])) if to == "gate" else ""
        return [("type", k, n, to, s.choice(LABELS), gen_data(s, st, to, n), t)]
    if what == "state":
        return [("state", s.choice(sorted(st["house"])), s.choice(["0", "1"]))] if st["house"] else None
    if not st["basic"]:
        return None
    b = s.choice(sorted(st["basic"]))
    if what == "expr":
        return [("expr", b, gen_expr(s))]
    return [("flavor", b, s.choice(["undeveloped", "basic"]))]


# --- the dialogs ---------------------------------------------------------------------------

ALPHA = re.compile(r"[^\W\d_]")


ODD = "\xb2\xaa\u2167\uff41\ufb01\u01c5\u017f\xb5\u0500\u2d00\uff11\xbc"  # no letters or digits of XML names


def typed(text):
    """What a name field takes of the keys, and whether it is acceptable."""
    out = ""
    for c in text:
        if c in ODD:
            continue
        t = out + c
        if re.fullmatch(r"[^\W\d_]\w*(-\w+)*-?", t):
            out = t
    return out, bool(re.fullmatch(r"[^\W\d_]\w*(-\w+)*", out))


TYPES = ["house", "basic", "undeveloped", "gate"]


def dialog(st, kind, name, f, hint=None):
    """The edits (a list of steps) that a dialog with the given fields leads to, or None
    when it has to refuse.  The hint is the fault tree of a new gate in place of another
    event, which may be that of any gate with the event."""
    new = kind is None
    e = None if new else st[kind][name]
    # What the dialog shows at first.
    cur = {"type": 0, "name": name or "", "label": "", "state": 0, "expr": "", "args": [],
           "conn": "and", "min": 2}
    box = True  # the expression is switched on
    tree = ""
    if not new:
        cur["label"] = e["label"]
        cur["type"] = {"house": 0, "gate": 3}.get(kind, 1)
        if kind == "house":
            cur["state"] = int(e["state"])
        elif kind == "basic":
            cur["type"] = 2 if flavor(e) == "undeveloped" else 1
            x = e["expr"]
            box = x is not None
            if box:
                cur["expr"] = "const %r" % float(x[1]) if x[0] == "const" else "exp %r" % float(x[1][1])
        else:
            cur.update(conn=e["conn"], args=[a[2] for a in e["args"]], min=e["min"] or 2)
        if kind == "gate":
            tree = tree_of(st, name)
        else:
            # The fault tree of any gate with the event.
            ps = parents(st, kind, name)
            tree = tree_of(st, ps[0]) if ps else ""
            if hint in [tree_of(st, p) for p in ps]:
                tree = hint
    hidden = set()
    if not new:
        if not tree:
            hidden.add(3)
        if kind == "gate" and is_root(st, name):
            hidden |= {0, 1, 2}
    if "type" in f and int(f["type"]) not in hidden:
        cur["type"] = int(f["type"])
    ok = True
    if "name" in f:
        cur["name"], ok = typed(f["name"])
    elif new:
        ok = False
    cur["label"] = f.get("label", cur["label"])
    cur["state"] = int(f.get("state", cur["state"]))
    if "expr" in f:
        box = f["expr"] != "none"
        if box:
            cur["expr"] = f["expr"]
    minimum = cur["min"]
    if "args" in f:
        def clamp(n):
            return min(minimum, n - 1 if n > 2 else 2)
        if cur["args"]:
            minimum = 2
        args = []
        for w in f["args"].split(" "):
            if not w:
                continue
            t, good = typed(w)
            if not good or t in args or t == cur["name"]:
                continue
            if not new and t in st["gate"] and (
                    (kind, name) in {(a[1], a[2]) for x in [t] + sorted(reach(st, t))
                                     for a in st["gate"][x]["args"]}):
                continue
            args.append(t)
            minimum = clamp(len(args))
        cur["args"] = args
    cur["conn"] = f.get("conn", cur["conn"])
    if "min" in f:
        n = len(cur["args"])
        minimum = max(2, min(int(f["min"]), n - 1 if n > 2 else 2))
    kind2 = TYPES[cur["type"]]
    if not ok or (cur["name"] != (name or "") and cur["name"] in used_names(st)):
        return None
    if kind2 == "gate" and cur["name"] in cur["args"]:
        return None
    if kind2 in ("basic", "undeveloped") and box:
        if not cur["expr"]:
            return None
        k, v = cur["expr"].split(" ")
        if k == "const" and not 0 <= float(v) <= 1:
            return None
    n = len(cur["args"])
    conn = cur["conn"]
    if kind2 == "gate":
        if conn in ("not", "null") and n != 1 or conn == "xor" and n != 2 or \
                conn in ("and", "or", "nand", "nor") and n < 2 or conn == "atleast" and n <= minimum:
            return None
        if new:
            tree, good = typed(f.get("ft", ""))
            if not good or tree in st["ft"]:
                return None
    # The steps.
    steps = []
    s2 = st
    nm = cur["name"]
    x = cur["expr"] if box else ""
    target = "basic" if kind2 == "undeveloped" else kind2
    if not new:
        if nm != name:
            steps.append([("rename", kind, name, nm, tree)])
        if cur["label"] != e["label"]:
            steps.append([("label", kind, nm, cur["label"])])
        for y in steps:
            s2 = apply(s2, y[0])[0]
        e = s2[kind][nm]
    data = {"house": str(cur["state"]), "basic": "%s;%s" % ("undeveloped" if kind2 == "undeveloped" else "basic", x),
            "gate": "%s %d %s" % (conn, minimum if conn == "atleast" else 0, " ".join(cur["args"]))}[target]
    extra = []
    if target == "gate":
        extra = [("add", "basic", a, "", "undeveloped;", "") for a in cur["args"] if a not in used_names(s2)]
    if new:
        if target == "gate":
            return [[("addft", tree)] + extra + [("add", "gate", nm, cur["label"], data, tree), ("tops", tree)]]
        return [[("add", target, nm, cur["label"], data, "")]]
    if target != kind:
        return steps + [[y] for y in extra] + [[("type", kind, nm, target, cur["label"], data, tree)]]
    if kind == "house":
        if cur["state"] != int(e["state"]):
            steps.append([("state", nm, str(cur["state"]))])
    elif kind == "basic":
        y = expr_json(x.split(" ")) if x else None
        if (y and y[:2]) != (e["expr"] and canon_expr(e["expr"])[:2]):
            steps.append([("expr", nm, x)])
        if kind2 != ("undeveloped" if flavor(e) == "undeveloped" else "basic"):
            steps.append([("flavor", nm, "undeveloped" if kind2 == "undeveloped" else "basic")])
    elif conn != e["conn"] or (e["min"] and minimum != e["min"]) or cur["args"] != [a[2] for a in e["args"]]:
        steps += [[y] for y in extra] + [[("formula", nm, data)]]
    return steps


BAD_NAMES = ["1a", "a-", "b c", "-x", "a--b", "a.b", "", "_u", "pump-", "a\xb2", "\uff41b",
             "\xb5-c", "d\u2167-e", "\u0628\u0663"]


def gen_fields(s, st, kind, name):
    """Fields for the dialog of an event (None: a new one)."""
    f = {}
    new = kind is None
    p = 0.85 if new else 0.3
    names = free(s, st)
    if s.bool(0.95 if new else 0.25):
        k = s.weighted([(8, "free"), (1, "used"), (1, "bad")])
        f["name"] = s.choice(names) if k == "free" and names else s.choice(BAD_NAMES) if k == "bad" else \
            s.choice(sorted(used_names(st)) or ["a"])
    if s.bool(p):
        f["type"] = str(s.draw(4))
    t = int(f.get("type", {"house": 0, "basic": 1, "gate": 3}.get(kind, 0)))
    if s.bool(p):
        f["label"] = s.choice(LABELS)
    if t == 0 and s.bool(0.5):
        f["state"] = str(s.draw(2))
    if t in (1, 2) and s.bool(0.9 if new or kind != "basic" else 0.4):
        k = s.weighted([(3, "const"), (2, "exp"), (2, "none"), (1, "bad")])
        f["expr"] = "none" if k == "none" else "const 1.5" if k == "bad" else "%s %s" % (k, value(s))
    if t == 3:
        if s.bool(0.95 if kind != "gate" else 0.5):
            pool = sorted(used_names(st)) + s.sample(names, 2)
            k = s.weighted([(1, 1), (3, 2), (4, 3), (2, 4), (1, 5)])
            args = s.sample(pool, k)
            if s.bool(0.1):
                args.append(s.choice(BAD_NAMES))
            if s.bool(0.1) and args:
                args.append(s.choice(args))
            f["args"] = " ".join(w for a in args for w in a.split(" ") if w)
            n = len(f["args"].split(" "))
            f["conn"] = s.choice(["not", "null"]) if n == 1 else \
                s.choice(["and", "or", "nand", "nor"] + (["atleast"] * 4 if n > 2 else ["xor"] * 2)) \
                if s.bool(0.9) else s.choice(["and", "or", "xor", "atleast", "not"])
        elif s.bool(0.3):
            f["conn"] = s.choice(["and", "or", "nand", "nor", "atleast"])
        if (f.get("conn") == "atleast" and s.bool(0.6)) or s.bool(0.1):
            f["min"] = str(s.int(2, 5))
        if new and s.bool(0.95):
            f["ft"] = s.choice(TREES + BAD_NAMES[:4]) if s.bool(0.8) else s.choice(sorted(st["ft"]) or ["ft"])
    return f


# --- the check -----------------------------------------------------------------------------

class C22(Check):
    id = "C22"
    rule = ("a history of at least 4 requests with an undo or redo over at least one effective edit, "
            "or a saved and reloaded edited model")
    quick_cases = 6000
    quick_wall = 60
    thorough_cases = 300000
    thorough_wall = 600
    targets = ("guidrv",)
    assumptions = [
        "the windows run on Qt's offscreen platform",
        "edits respect the documented preconditions of the commands; the dialogs get any input",
        "the order of an element's attributes and the cached top gates of reloaded trees are not compared",
    ]

    def open(self):
        self.drv = GuiDriver(self.bins["rel"]["guidrv"])
        os.makedirs(self.drv.scratch.dir, exist_ok=True)

    def close(self):
        self.drv.close()

    def fail(self, msg, sig=None):
        raise Fail("C22: %s" % msg, sig=sig, detail={
            "files": [("m.xml", self.text)] if self.text else [], "settings": None,
            "extra": {"history": self.log}})

    def ask(self, *fields):
        self.log.append(list(fields))
        r = self.drv.ask(fields)
        if "timeout" in r:
            self.fail("no answer to %s" % fields[0], sig="hang:%s" % fields[0])
        if "crash" in r:
            self.fail("%s: the program died (%s)" % (fields[0], r["crash"]),
                      sig="crash:" + crash_sig(r["stderr"]))
        if "error" in r:
            if r["error"].startswith("harness"):
                raise AssertionError("%s: %s" % (fields, r["error"]))
            self.fail("%s: %s" % (fields[0], r["error"]), sig="error:%s:%s" % (fields[0], r["class"]))
        if r["messages"]:
            self.fail("%s: %s" % (fields[0], r["messages"][0]), sig="message:%s" % fields[0])
        return r

    def check(self, r, what, notes=None):
        """Compares an answer with the reference."""
        k = self.ref
        if r["problems"]:
            self.fail("after %s: %s" % (what, "; ".join(r["problems"])[:400]),
                      sig="views:" + re.sub(r"\d+|\[.*?\]|event \S+", "#", r["problems"][0])[:80])
        if (r["index"], r["count"]) != (k.index, len(k.entries)):
            self.fail("after %s: the stack is at %d of %d, not %d of %d"
                      % (what, r["index"], r["count"], k.index, len(k.entries)), sig="stack:%s" % what)
        if r["clean"] != (k.clean == k.index):
            self.fail("after %s: clean is %s" % (what, r["clean"]), sig="clean:%s" % what)
        want = canon(k.st)
        got = canon({x: r["state"][x] for x in (want if self.lab else ("gate", "basic", "house", "ft"))})
        for part in got:
            if got[part] != want[part]:
                d = got[part], want[part]
                if isinstance(d[0], dict):
                    names = [n for n in set(d[0]) | set(d[1]) if d[0].get(n) != d[1].get(n)]
                    d = [{n: x.get(n) for n in names} for x in d]
                self.fail("after %s: %s is %s, not %s" % (what, part, d[0], d[1]),
                          sig="state:%s:%s" % (what, part))
        if not self.lab:
            title = (k.st["name"] or "Unnamed Model") + "[*]"
            if r["state"]["title"] != title:
                self.fail("after %s: the title is %r, not %r" % (what, r["state"]["title"], title),
                          sig="title:%s" % what)
        if notes is not None and self.lab:
            got = {}
            for n in r["notes"]:
                n = (n[0], n[1], n[2], json.dumps(canon_expr(n[3]) if n[0] == "expr" else n[3]))
                got[n] = got.get(n, 0) + 1
            lo, hi = {}, {}
            for n, req in notes:
                hi[n] = hi.get(n, 0) + 1
                lo[n] = lo.get(n, 0) + req
            for n in set(got) | set(hi):
                if not lo.get(n, 0) <= got.get(n, 0) <= hi.get(n, 0):
                    self.fail("after %s: %d notifications %s, expected %d"
                              % (what, got.get(n, 0), n, hi.get(n, 0)), sig="notes:%s:%s" % (what, n[0]))

    def step(self, ops):
        """Pushes a step in the lab."""
        notes = self.ref.push(ops)
        what = ops[0][0] if len(ops) == 1 else "macro"
        if len(ops) == 1:
            r = self.ask(*ops[0])
        else:
            self.ask("begin", "macro")
            got = []
            for op in ops:
                got += self.ask(*op)["notes"]
            r = self.ask("end")
            r["notes"] = got + r["notes"]
        self.check(r, what, notes)
        self.effective += any(req for _, req in notes)

    def save_and_read(self, r, path):
        r = self.ask("read", path)["read"]
        want = canon(self.ref.st, tops=False)
        got = canon(r, tops=False)
        for part in want:
            if got[part] != want[part]:
                d = got[part], want[part]
                if isinstance(d[0], dict):
                    names = [n for n in set(d[0]) | set(d[1]) if d[0].get(n) != d[1].get(n)]
                    d = [{n: x.get(n) for n in names} for x in d]
                self.fail("after saving and reading: %s is %s, not %s" % (part, d[0], d[1]),
                          sig="reload:%s" % part)

    def case(self, s):
        self.lab = not s.bool(0.3)
        self.log = []
        self.text = gen_model(s, not self.lab) if s.bool(0.75) else ""
        path = ""
        if self.text:
            path = self.drv.scratch.write("m.xml", self.text)
        limit = s.weighted([(6, 0), (1, 1), (1, 2), (1, 4)]) if self.lab else 0
        r = self.ask("lab", path, limit) if self.lab else self.ask("win", path)
        st = r["state"]
        if self.text:
            # The window does not tell everything; the file does.
            full = self.ask("read", path)["read"]
            if self.lab and canon(full) != canon(st):
                self.fail("reading the same file twice gives two models", sig="read twice")
            st = full
        else:
            st = {"name": "", "label": "", "attrs": [], "gate": {}, "basic": {}, "house": {}, "ft": {}}
        for b in st["basic"].values():
            b["expr"] = canon_expr(b["expr"])
        self.ref = Stack(st, limit)
        self.effective = self.back = self.saved = 0
        self.check(r, "opening")
        try:
            for _ in range(s.int(3, 24 if s.bool(0.7) else 60)):
                (self.lab_step if self.lab else self.win_step)(s)
                if self.lab and s.bool(0.05):
                    self.write(s)
            if self.effective and s.bool(0.5):
                self.write(s)
            if s.bool(0.5):  # all the way back and forth
                for n in (0, len(self.ref.entries)):
                    notes = self.ref.go(n)
                    self.check(self.ask("index", n), "index", notes)
                    self.back += bool(notes)
        finally:
            if self.drv.p:
                self.drv.ask(["close"])
        key = None
        if (len(self.log) >= 5 and self.back) or (self.saved and self.effective):
            key = "%d %d %d" % (hash(str(self.log)), self.effective, self.back)
        return Result(key, sample={"text": self.text[:1500], "history": self.log[:30]},
                      tags=["lab" if self.lab else "window", "saved" if self.saved else "unsaved",
                            "limit" if limit else "unlimited"])

    def write(self, s):
        path = self.drv.scratch.path("s%d.xml" % self.saved)
        r = self.ask("save", path) if self.lab else self.ask("saveas", "path=" + path)
        if not self.lab:
            self.ref.clean = self.ref.index
        self.check(r, "save", [])
        self.save_and_read(r, path)
        self.saved += 1

    def travel(self, s):
        k = self.ref
        what = s.weighted([(4, "undo"), (3, "redo"), (2, "index"), (1, "clean")] if self.lab else
                          [(4, "undo"), (3, "redo"), (2, "index")])
        if what == "clean":
            k.clean = k.index
            self.check(self.ask("clean"), what, [])
            return
        n = k.index + {"undo": -1, "redo": 1}.get(what, 0)
        if what == "index":
            n = s.int(0, len(k.entries))
        notes = k.go(n)
        self.back += any(req for _, req in notes)
        self.check(self.ask("index", n) if what == "index" else self.ask(what), what, notes)

    def lab_step(self, s):
        if s.bool(0.4) and (self.ref.entries or s.bool(0.1)):
            self.travel(s)
            return
        ops = gen_edit(s, self.ref.st)
        if ops and s.bool(0.12):
            st = self.ref.st
            for op in ops:
                st = apply(st, op)[0]
            for _ in range(s.int(1, 3)):
                more = gen_edit(s, st)
                if more:
                    ops = ops + more
                    for op in more:
                        st = apply(st, op)[0]
        if ops:
            self.step(ops)

    def win_step(self, s):
        k = self.ref
        st = k.st
        if s.bool(0.35) and (k.entries or s.bool(0.1)):
            self.travel(s)
            return
        ev = [(kind, n) for kind in ("gate", "basic", "house") for n in sorted(st[kind])]
        what = s.weighted([(4, "add")] + ([(6, "edit"), (2, "remove")] if ev else []) + [(1, "name")])
        if what == "name":
            f = s.choice(["m", "model-2", "Nom", "x-", "9", ""])
            t, good = typed(f)
            steps = ([] if t == st["name"] else [[("name", t)]]) if good or not t else None
            args = ["name=" + f]
        elif what == "remove":
            kind, n = s.choice(ev)
            args = ["kind=" + kind, "id=" + n]
            t = tree_of(st, n) if kind == "gate" else ""
            if parents(st, kind, n):
                steps = []
            elif kind == "gate" and is_root(st, n):
                steps = [[("rm", kind, n, t), ("rmft", t)]] if len(st["ft"][t]["gates"]) == 1 else []
            else:
                steps = [[("rm", kind, n, t)]]
        else:
            kind, n = s.choice(ev) if what == "edit" else (None, None)
            f = gen_fields(s, st, kind, n)
            steps = dialog(st, kind, n, f)
            args = (["kind=" + kind, "id=" + n] if kind else []) + ["%s=%s" % x for x in f.items()]
        r = self.ask(what, *args)
        if what == "edit" and kind != "gate" and f.get("type") == "3" and steps:
            t = [t for t, x in r["state"]["ft"].items() if steps[-1][0][2] in x["gates"]]
            steps = dialog(st, kind, n, f, t[0] if t else None)
        if what != "remove":
            d = [b for b in r["boxes"] if b[0] == "dialog"]
            other = [b for b in r["boxes"] if b[0] not in ("dialog", "hidden")]
            if other or len(d) != 1:
                self.fail("%s: unexpected windows %s" % (what, r["boxes"]), sig="windows:%s" % what)
            if (d[0][1] == "accepted") != (steps is not None):
                self.fail("%s: the dialog with %s was %s" % (what, args, d[0][1]),
                          sig="dialog:%s:%s" % (what, d[0][1]))
        elif bool(steps) == any(b[0] == "box" for b in r["boxes"]):
            self.fail("remove: windows %s" % r["boxes"], sig="windows:remove")
        for ops in steps or []:
            notes = k.push(ops)
            self.effective += any(req for _, req in notes)
        self.check(r, what)
