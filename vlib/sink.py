"""Whole models: a logical system, and its layout as input files.

The logical system is a fault tree over logical names (ft.FT, with expression
ASTs as the values of basic events) with parameters, common-cause groups, event
trees, alignments and substitutions.  A layout places its elements into fault
trees, components and the model scope with names, roles, texts and reference
forms, and knows the identifiers the tool should use for them.
"""
import math

from .checks import c06, c10, c11, c12
from .ft import gen_ft
from .xmlw import E, esc

TAG = {"g": "gate", "b": "basic-event", "h": "house-event", "p": "parameter"}


# -- expressions -----------------------------------------------------------

def value(ast, params, t):
    """The mean value at mission time t."""
    k = ast[0]
    if k == "const":
        return ast[1]
    if k == "param":
        return value(params[ast[1]], params, t)
    if k == "mul":
        r = 1.0
        for a in ast[1]:
            r *= value(a, params, t)
        return r
    if k == "mean":
        return sum(value(a, params, t) for a in ast[1]) / len(ast[1])
    if k == "exp":
        return -math.expm1(-value(ast[1], params, t) * t)
    if k == "compl":
        return 1 - value(ast[1], params, t)
    if k == "uniform":
        return (ast[1] + ast[2]) / 2
    if k == "lognormal":
        return ast[1]
    raise AssertionError(k)


def expr_params(ast):
    k = ast[0]
    if k == "param":
        return {ast[1]}
    if k in ("mul", "mean"):
        return set().union(*[expr_params(a) for a in ast[1]])
    if k in ("exp", "compl"):
        return expr_params(ast[1])
    return set()


def has_deviate(ast, params):
    k = ast[0]
    if k == "param":
        return has_deviate(params[ast[1]], params)
    if k in ("mul", "mean"):
        return any(has_deviate(a, params) for a in ast[1])
    if k in ("exp", "compl"):
        return has_deviate(ast[1], params)
    return k in ("uniform", "lognormal")


def num(v):
    return E("float", {"value": repr(float(v))})


def expr_xml(ast, param_ref):
    """param_ref: logical name -> E of a reference."""
    k = ast[0]
    sub = lambda a: expr_xml(a, param_ref)
    if k == "const":
        if ast[1] in (0, 1) and ast[2:] == ("int",):
            return E("int", {"value": int(ast[1])})
        return num(ast[1])
    if k == "param":
        return param_ref(ast[1])
    if k in ("mul", "mean"):
        return E(k, {}, *[sub(a) for a in ast[1]])
    if k == "exp":
        return E("exponential", {}, sub(ast[1]), E("system-mission-time"))
    if k == "compl":
        return E("sub", {}, num(1), sub(ast[1]))
    if k == "uniform":
        return E("uniform-deviate", {}, num(ast[1]), num(ast[2]))
    if k == "lognormal":
        return E("lognormal-deviate", {}, num(ast[1]), num(ast[2]), num(0.95))
    raise AssertionError(k)


def gen_expr(s, params, devs, d=2):
    """An expression with a value (and samples) in [0,1]."""
    opts = [(6, "const"), (3 if params else 0, "param"), (2, "exp"),
            (2 if d else 0, "mul"), (1 if d else 0, "mean"), (1 if d else 0, "compl")]
    if devs:
        opts += [(3, "uniform"), (1, "lognormal")]
    k = s.weighted(opts)
    if k == "const":
        return ("const", s.weighted([(12, s.int(1, 99) / 100), (1, 0.0), (1, 1.0)]))
    if k == "param":
        return ("param", s.choice(params))
    if k == "exp":
        if params and d and s.bool(0.4):
            return ("exp", ("param", s.choice(params)))
        return ("exp", ("const", s.int(1, 500) * 1e-5))
    if k in ("mul", "mean"):
        return (k, [gen_expr(s, params, devs, d - 1) for _ in range(s.int(2, 3))])
    if k == "compl":
        # Not of log-normal samples, which may exceed 1.
        a = gen_expr(s, [], False, d - 1)
        return ("compl", a)
    if k == "uniform":
        lo = s.int(0, 50) / 100
        return ("uniform", lo, lo + s.int(1, 40) / 100)
    return ("lognormal", s.int(1, 20) / 1000, float(s.int(2, 5)))


# -- texts -----------------------------------------------------------------

NAME_START = ["a", "E", "_", "\u00e9", "\u03a9", "\u4e2d", "z"]
NAME_REST = ["a", "B", "0", "9", "_", "\u00e9", "\u00b7", "\u0301", "\u4e2d", "x"]


def gen_name(s):
    """A legal identifier."""
    n = s.choice(NAME_START)
    for _ in range(s.int(0, 5)):
        if n[-1] != "-" and s.bool(0.15):
            n += "-" + s.choice(NAME_REST)
        else:
            n += s.choice(NAME_REST)
    return n


TEXT = list("ab9 .,;:-_()[]{}#%$@!?*/\\|~^`+=") + [
    "&", "<", ">", '"', "'", "]]>", "&amp;", "<!--", "<b>", "\u00e9", "\u4e2d",
    "\U0001f600", "\u00a0", "--", "&#10;", "%s", "\\n"]


def gen_text(s, plain=False):
    """A label or an attribute value."""
    if plain:
        return "".join(s.choice("abc xyz") for _ in range(s.int(1, 6))).strip() or "t"
    t = "".join(s.choice(TEXT) for _ in range(s.int(1, 8))).strip(" ")
    return t or "t"


def gen_meta(s, p):
    """(label, [(name, value, type)])"""
    label = gen_text(s) if s.bool(p) else None
    attrs = None
    if s.bool(p):
        attrs = []
        for i in range(s.int(0, 3)):
            n = s.choice(["flavor", "unit", "x", "source", gen_name(s)])
            if all(a[0] != n for a in attrs):
                attrs.append((n, gen_text(s), gen_text(s) if s.bool(0.4) else None))
    return label, attrs


def meta_xml(meta):
    label, attrs = meta
    out = []
    if label is not None:
        out.append(E("label", {}, label))
    if attrs is not None:
        out.append(E("attributes", {}, *[
            E("attribute", dict([("name", n), ("value", v)] + ([("type", t)] if t else [])))
            for n, v, t in attrs]))
    return out


# -- the logical system ------------------------------------------------------

class Sys:
    def __init__(self):
        self.ft = None
        self.params = {}       # name -> AST ; refer to later ones
        self.units = {}        # name -> unit
        self.groups = []
        self.world = None      # c10 world (event trees)
        self.aligns = []       # (name, phases)
        self.subs = []

    def members(self):
        return [m for g in self.groups for m in g.members]


def gen_sys(s, ets=0.0, ccf=0.3, aligns=0.0, subs=0.0, devs=0.0, max_basic=8,
            max_gates=9, exprs=True, spare=True, coherent=None):
    """feature probabilities"""
    y = Sys()
    if s.bool(ets):
        y.world = c10.Gen(s, s.bool(0.8)).w
        y.ft = y.world.ft
    else:
        y.ft = gen_ft(s, max_basic=max_basic, max_gates=max_gates,
                      coherent=coherent if coherent is not None else
                      (True if s.bool(0.4) else None))
    ft = y.ft
    dev = s.bool(devs)
    np_ = s.weighted([(3, 0), (3, 2), (2, 1), (1, 4)])
    names = ["q%d" % i for i in range(np_)]
    for i, n in enumerate(names):
        y.params[n] = gen_expr(s, names[i + 1:], dev)
    if spare and s.bool(0.3):           # elements that nothing refers to
        ft.basics["spare_b"] = None
    if spare and s.bool(0.2):
        ft.houses["spare_h"] = s.bool()
    for b in ft.basics:
        ft.basics[b] = gen_expr(s, names, dev)
    if s.bool(ccf) and len(ft.basics) >= 2:
        y.groups = c06.gen_groups(s, [b for b in ft.basics], 12)
        for g in y.groups:
            if g.q[0] == "param":
                y.params[g.name + "_q"] = ("const", g.q[1])
    hs = list(ft.houses)
    if s.bool(aligns):
        for i in range(s.weighted([(4, 1), (1, 2)])):
            y.aligns.append(("A%d" % i, c11.gen_phases(s, hs, 3)))
    if s.bool(subs):
        free = [b for b in ft.basics if b not in y.members()]
        for i in range(s.int(1, 2)):
            if len(free) < 2:
                break
            sub = c12.gen_sub(s, i, free, free, free)
            y.subs.append(sub)
        if c12.problem(y.subs, exact=False, members=set(y.members())):
            y.subs = []
    return y


# -- layout ------------------------------------------------------------------

class Cont:
    """A fault tree or a component."""

    def __init__(self, name, parent, role):
        self.name, self.parent, self.role = name, parent, role
        self.comps, self.ents = [], []
        self.meta = (None, None)

    @property
    def path(self):
        return self.parent.path + "." + self.name if self.parent else self.name

    @property
    def public(self):
        if self.parent is None:
            return True
        return self.role == "public" if self.role else self.parent.public

    @property
    def root(self):
        return self.parent.root if self.parent else self

    def below(self):
        yield self
        for c in self.comps:
            yield from c.below()


class Ent:
    def __init__(self, kind, key):
        self.kind, self.key = kind, key
        self.name, self.cont, self.role = key, None, None
        self.group = None              # of a CCF member
        self.meta = (None, None)

    @property
    def place(self):
        return self.group.cont if self.group else self.cont

    @property
    def public(self):
        if self.group:
            return self.group.public
        if self.cont is None:
            return True
        return self.role == "public" if self.role else self.cont.public

    @property
    def base(self):
        return self.place.path if self.place else ""

    @property
    def path(self):
        return self.base + "." + self.name if self.base else self.name

    @property
    def id(self):
        return self.name if self.public else self.path


class Unresolvable(Exception):
    def __init__(self, ent):
        self.ent = ent


class Layout:
    def __init__(self, s, y, depth=2, model_scope=0.3, private=0.4, collide=0.4,
                 meta=0.0, names="plain", refs=True, nfts=3):
        self.s, self.y = s, y
        self.refs_on = refs
        self.model_name = gen_name(s) if meta and s.bool() else None
        self.model_meta = gen_meta(s, meta) if meta else (None, None)
        self.meta_p = meta
        self.name_style = names
        # Containers.
        self.fts = [Cont("ft%d" % i, None, None) for i in range(s.int(1, nfts))]
        todo = [(f, 0) for f in self.fts]
        self.conts = list(self.fts)
        while todo:
            c, d = todo.pop(0)
            if d >= depth:
                continue
            for i in range(s.weighted([(4, 0), (3, 1), (2, 2)])):
                # Names of components repeat on purpose.
                n = s.choice(["A", "B", "ft0"] if private else ["A%d" % len(self.conts)])
                if any(x.name == n for x in c.comps):
                    n = "C%d" % i
                k = Cont(n, c, s.choice([None, "private", "public"]) if private else None)
                c.comps.append(k)
                self.conts.append(k)
                todo.append((k, d + 1))
        # Entities.
        ft = y.ft
        self.ents = {}
        self.groups = {}
        mem = {}
        for g in y.groups:
            e = self.groups[g.name] = Ent("ccf", g.name)
            for m in g.members:
                mem[m] = e
        for k, names_ in (("g", ft.gates), ("b", ft.basics), ("h", ft.houses), ("p", y.params)):
            for n in names_:
                e = self.ents[k, n] = Ent(k, n)
                if k == "b" and n in mem:
                    e.group = mem[n]
        scope = model_scope if s.bool(0.8) else 0
        must = self.must_be_public()
        for e in list(self.groups.values()) + list(self.ents.values()):
            if e.group:
                continue
            if e.kind != "g" and s.bool(scope):
                e.cont = None
            else:
                e.cont = s.choice(self.conts)
                e.role = s.weighted([(3, None), (2, "public"), (3, "private")]) \
                    if s.bool(private * 2) and e.kind != "ccf" else None
                if e in must and not e.public:
                    if e.kind == "ccf":
                        e.cont = s.choice(self.fts)
                    else:
                        e.role = "public"
            if meta:
                e.meta = gen_meta(s, meta)
        if meta:
            for c in self.conts:
                c.meta = gen_meta(s, meta)
        # Names.
        self.pool = ["x", "y", "z", "ft0", "A"]
        if names == "fancy":
            self.pool += [gen_name(s) for _ in range(12)]
        for e in s.shuffle(list(self.groups.values()) + list(self.ents.values())):
            e.name = self.unique(e)
            if s.bool(collide) or names == "fancy":
                for _ in range(2):
                    e.name = s.choice(self.pool)
                    if not self.clash(e):
                        break
                else:
                    e.name = self.unique(e)
            if self.clash(e):
                e.name = self.unique(e)
        # Make every reference possible.
        for _ in range(60):
            try:
                self.check_refs()
                break
            except Unresolvable as x:
                x.ent.name = "u_" + x.ent.key
                if self.clash(x.ent):
                    x.ent.name = "uu_" + x.ent.key
        for e in self.ents.values():
            if not e.group and e.cont is not None:
                e.cont.ents.append(e)
        for e in self.groups.values():
            if e.cont is not None:
                e.cont.ents.append(e)

    def must_be_public(self):
        """House events set by instructions."""
        out = set()
        for n in self.y.ft.houses:
            if self.y.world or self.y.aligns:
                out.add(self.ents["h", n])
        return out

    def unique(self, e):
        n = e.key
        return n

    def all_ents(self):
        return list(self.ents.values()) + list(self.groups.values())

    def space(self, e):
        return "event" if e.kind in "gbh" else e.kind

    def clash(self, e):
        """Whether the entity's name or id is taken."""
        for o in self.all_ents():
            if o is e or self.space(o) != self.space(e):
                continue
            if o.id == e.id or o.path == e.path or (o.place is e.place and o.place and o.name == e.name):
                return True
        return False

    # -- resolution (the reference meaning of names) --
    def resolve(self, base, ref, kind):
        """kind: g, b, h, event, p ; None if there is nothing."""
        ents = [e for e in self.ents.values()
                if (e.kind in "gbh" if kind == "event" else e.kind == kind)]
        if base:
            for e in ents:
                if e.path == base + "." + ref:
                    return e
        for e in ents:
            if (e.path == ref) if "." in ref else (e.public and e.name == ref):
                return e
        return None

    def forms(self, base, ent, kind):
        """The references that mean the entity from a base path."""
        cand = [ent.name, ent.path]
        if base and ent.path.startswith(base + "."):
            cand.append(ent.path[len(base) + 1:])
        out = []
        for c in cand:
            if c not in out and self.resolve(base, c, kind) is ent:
                out.append(c)
        return out

    def uses(self):
        """(base path, entity) of every reference."""
        y = self.y
        for g, (_, args, _, _) in y.ft.gates.items():
            for _, k, r in args:
                if k != "c":
                    yield self.ents["g", g].base, self.ents[k, r]
        for b, ast in y.ft.basics.items():
            for p in expr_params(ast) if ast else ():
                yield self.ents["b", b].base, self.ents["p", p]
        for q, ast in y.params.items():
            for p in expr_params(ast):
                yield self.ents["p", q].base, self.ents["p", p]
        for g in y.groups:
            if g.q[0] == "param":
                yield self.groups[g.name].base, self.ents["p", g.name + "_q"]
        if y.world or y.subs:
            for (k, n), e in self.ents.items():
                if k != "p":
                    yield "", e

    def check_refs(self):
        for base, e in self.uses():
            if not self.forms(base, e, e.kind) or not self.forms(base, e, "event" if e.kind in "gbh" else "p"):
                raise Unresolvable(e)

    # -- rendering --
    def event_ref(self, base, kind, key):
        s, e = self.s, self.ents[kind, key]
        how = s.weighted([(3, "typed"), (2, "event"), (1, "attr")]) if self.refs_on else "typed"
        forms = self.forms(base, e, "event" if how == "event" else kind)
        ref = s.choice(forms) if self.refs_on else forms[0]
        if how == "typed":
            return E(TAG[kind], {"name": ref})
        if how == "event":
            return E("event", {"name": ref})
        return E("event", {"name": ref, "type": TAG[kind]})

    def arg_xml(self, a, base):
        neg, kind, ref = a
        if kind == "c":
            e = E("constant", {"value": "true" if ref else "false"})
        else:
            e = self.event_ref(base, kind, ref)
        return E("not", {}, e) if neg else e

    def formula_xml(self, f, base=""):
        op, args, lo, hi = f
        if op == "null":
            return self.arg_xml(args[0], base)
        at = {}
        if lo is not None:
            at["min"] = lo
        if hi is not None:
            at["max"] = hi
        return E(op, at, *[self.arg_xml(a, base) for a in args])

    def expr(self, ast, base):
        def param_ref(n):
            e = self.ents["p", n]
            at = {"name": self.s.choice(self.forms(base, e, "p"))}
            u = self.y.units.get(n)
            if u and self.s.bool():
                at["unit"] = u
            return E("parameter", at)
        return expr_xml(ast, param_ref)

    def ent_xml(self, e):
        y = self.y
        at = {"name": e.name}
        if e.role and not e.group:
            at["role"] = e.role
        kids = meta_xml(e.meta)
        if e.kind == "g":
            return E("define-gate", at, *kids, self.formula_xml(y.ft.gates[e.key], e.base))
        if e.kind == "b":
            return E("define-basic-event", at, *kids, self.expr(y.ft.basics[e.key], e.base))
        if e.kind == "h":
            v = y.ft.houses[e.key]
            if not v and self.s.bool(0.3):
                return E("define-house-event", at, *kids)
            return E("define-house-event", at, *kids,
                     E("constant", {"value": "true" if v else "false"}))
        if e.kind == "p":
            if e.key in y.units:
                at["unit"] = y.units[e.key]
            return E("define-parameter", at, *kids, self.expr(y.params[e.key], e.base))
        g = [g for g in y.groups if g.name == e.key][0]
        x = g.xml()
        x.attrs["name"] = e.name
        x.kids[0].kids = [E("basic-event", {"name": self.ents["b", m].name}) for m in g.members]
        if g.q[0] == "param":
            x.kids[1].kids = [self.expr(("param", g.name + "_q"), e.base)]
        x.kids = kids + x.kids
        return x

    def cont_xml(self, c):
        at = {"name": c.name}
        if c.parent is not None and c.role:
            at["role"] = c.role
        kids = [self.ent_xml(e) for e in c.ents] + [self.cont_xml(k) for k in c.comps]
        return E("define-component" if c.parent else "define-fault-tree", at,
                 *meta_xml(c.meta), *self.s.shuffle(kids))

    def top_items(self):
        """The elements of the root, in random order."""
        s, y = self.s, self.y
        out = [self.cont_xml(f) for f in self.fts]
        data = [self.ent_xml(e) for e in self.ents.values()
                if e.cont is None and not e.group]
        data = s.shuffle(data)
        while data:
            n = s.int(1, len(data))
            out.append(E("model-data", {}, *data[:n]))
            data = data[n:]
        out += [self.ent_xml(e) for e in self.groups.values() if e.cont is None]
        if y.world:
            w = y.world
            real, w.ft = w.ft, self
            try:
                for x in c10.world_parts(w):
                    self.fix_names(x)
                    out.append(x)
            finally:
                w.ft = real
        for n, phases in y.aligns:
            x = c11.alignment_xml(n, phases)
            self.fix_names(x)
            out.append(x)
        for sub in y.subs:
            x = sub.xml(self)
            for k in x.kids:
                if k.tag in ("source", "target"):
                    for b in k.kids:
                        if b.tag == "basic-event":
                            e = self.ents["b", b.attrs["name"]]
                            b.attrs["name"] = s.choice(self.forms("", e, "b"))
            out.append(x)
        return s.shuffle(out)

    METAS = {"define-initiating-event", "define-event-tree", "define-functional-event",
             "define-sequence", "define-branch", "define-rule", "define-alignment",
             "define-phase", "define-substitution"}

    def fix_names(self, x):
        for e in x.walk():
            if e.tag == "set-house-event":
                e.attrs["name"] = self.ents["h", e.attrs["name"]].name
            if e.tag in self.METAS and self.meta_p:
                e.kids = meta_xml(gen_meta(self.s, self.meta_p)) + e.kids

    def files(self, n=1, include=0.0, noise=0.0):
        """[(file name, text or bytes)], names of the files to give to the tool."""
        s = self.s
        items = self.top_items()
        n = s.int(1, n)
        roots = []
        for i in range(n):
            at = {}
            if i == 0 and self.model_name:
                at["name"] = self.model_name
            roots.append(E("opsa-mef", at, *(meta_xml(self.model_meta) if i == 0 else [])))
        extra = []
        for x in items:
            r = s.choice(roots)
            if include and s.bool(include):
                x = self.include(x, extra)
            r.add(x)
        out, use = [], []
        for i, r in enumerate(roots):
            use.append(len(out))
            out.append(("m%d.xml" % i, self.text(r, noise)))
        out += [(n_, self.text(x, noise)) for n_, x in extra]
        return out, use

    def include(self, x, extra):
        s = self.s
        if x.tag in ("define-fault-tree", "define-component") and x.kids and s.bool():
            i = s.draw(len(x.kids))
            if x.kids[i].tag not in ("label", "attributes"):
                x.kids[i] = self.include(x.kids[i], extra)
                return x
        n = "i%d.xml" % len(extra)
        extra.append((n, x))
        return E("xi:include", {"xmlns:xi": "http://www.w3.org/2001/XInclude", "href": n})

    def text(self, r, noise):
        s = self.s
        if not noise or not s.bool(noise):
            return r.text()
        t = render_noisy(s, r)
        enc = s.weighted([(4, "UTF-8"), (1, "UTF-16"), (1, "ISO-8859-1"), (1, None), (1, "BOM")])
        if enc in ("UTF-16", "ISO-8859-1"):
            head = '<?xml version="1.0" encoding="%s"?>\n' % enc
            return (head + t).encode(enc.lower(), "xmlcharrefreplace") \
                if enc != "UTF-16" else (head + t).encode("utf-16")
        if enc is None:
            return t
        if enc == "BOM":
            return b"\xef\xbb\xbf" + t.encode()
        return '<?xml version="1.0" encoding="UTF-8"?>\n' + t

    # -- expectations --
    def ids(self, kind):
        return {n: e.id for (k, n), e in self.ents.items() if k == kind}

    def tops(self):
        """Logical names of the top events: {gate: fault tree}."""
        ft = self.y.ft
        out = {}
        for g in ft.gates:
            root = self.ents["g", g].place.root
            if not any(k == "g" and r == g and self.ents["g", h].place.root is root
                       for h, f in ft.gates.items() for _, k, r in f[1]):
                out[g] = root.name
        return out

    def expected_gates(self):
        """As in the driver's dump."""
        out = {}
        for g, (op, args, lo, hi) in self.y.ft.gates.items():
            a = []
            for neg, k, r in args:
                if k == "c":
                    a.append(("~" if neg else "") + ("h:__true__" if r else "h:__false__"))
                else:
                    a.append(("~" if neg else "") + k + ":" + self.ents[k, r].id)
            out[self.ents["g", g].id] = (op, -1 if lo is None else lo, -1 if hi is None else hi, a)
        return out


def render_noisy(s, r):
    """Comments, processing instructions, whitespace and quotes that mean nothing."""
    out = []

    def junk(p=0.2):
        if s.bool(p):
            out.append(s.choice(["\n", "  ", "<!-- x -->", "<?pi a?>", "\t\r\n",
                                 "<!--<a b='&'/>-->"]))

    def go(e):
        q = s.choice("\"'")
        out.append("<" + e.tag)
        at = list(e.attrs.items())
        if s.bool(0.3):
            at = s.shuffle(at)
        for k, v in at:
            out.append(s.choice([" ", "\n ", "  "]))
            t = esc(v)
            if q == "'":
                t = t.replace("'", "&apos;")
            elif s.bool(0.1):
                t = "".join("&#%d;" % ord(c) if c.isalnum() and c.isascii() else c
                            for c in t) if "&" not in t else t
            out.append("%s%s=%s%s%s" % (k, s.choice(["", " "]), q, t, q))
        out.append(s.choice(["", " "]))
        if not e.kids and s.bool(0.7):
            out.append("/>")
            return
        out.append(">")
        if any(isinstance(k, str) for k in e.kids):
            for k in e.kids:
                out.append(esc(k))
        else:
            junk()
            for k in e.kids:
                go(k)
                junk()
        out.append("</%s%s>" % (e.tag, s.choice(["", " "])))
    junk(0.0)
    go(r)
    out.append("\n")
    return "".join(out)
