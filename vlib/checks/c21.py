"""C21 external functions."""
import glob
import hashlib
import itertools
import math
import os
import re
import shutil
import subprocess

from ..base import DrvCheck, close
from ..driver import Cli
from ..engine import Discard, Result
from ..xmlw import E

WEIGHTS = [3, -5, 7, -2, 11]
SIGS = ["".join(p) for n in range(6) for p in itertools.product("id", repeat=n)]
BASE = {"a": 0.5, "b": -7.25}
CTYPE = {"i": "int", "d": "double"}
XTYPE = {"i": "int", "d": "double"}


def offset(lib, ret, sig):
    return BASE[lib] + 0.25 * (2 * SIGS.index(sig) + (ret == "d"))


def source(lib):
    """All signatures; a mark beside the library when it is loaded."""
    out = ["""#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
static void mark(const char* what) {
  Dl_info info; char name[5000];
  if (!dladdr((void*)mark, &info)) return;
  snprintf(name, sizeof(name), "%s.mark", info.dli_fname);
  FILE* f = fopen(name, "a");
  if (f) { fputs(what, f); fclose(f); }
}
__attribute__((constructor)) static void loaded(void) { mark("L"); }
"""]
    for ret in "id":
        for sig in SIGS:
            par = ", ".join("%s a%d" % (CTYPE[t], i) for i, t in enumerate(sig)) or "void"
            body = ["double r = %r;" % offset(lib, ret, sig)]
            body += ["r = r + %d.0 * a%d;" % (WEIGHTS[i], i) for i in range(len(sig))]
            out.append("%s f_%s_%s(%s) { %s return (%s)r; }"
                       % (CTYPE[ret], ret, sig, par, " ".join(body), CTYPE[ret]))
    return "\n".join(out) + "\n"


def trunc(v):
    return float(int(v))


def call(lib, ret, sig, vals):
    r = offset(lib, ret, sig)
    for i, (t, v) in enumerate(zip(sig, vals)):
        r = r + WEIGHTS[i] * (trunc(v) if t == "i" else v)
    return trunc(r) if ret == "i" else r


SYSTEM = {  # symbol -> library, signature (return first), function
    "fabs": ("libm.so.6", "dd", abs),
    "fmax": ("libm.so.6", "ddd", max),
    "fdim": ("libm.so.6", "ddd", lambda a, b: max(a - b, 0.0)),
    "ldexp": ("libm.so.6", "ddi", lambda a, n: a * 2.0 ** trunc(n)),
    "floor": ("libm.so.6", "dd", lambda a: float(a // 1)),
    "fma": ("libm.so.6", "dddd", None),
    "abs": ("libc.so.6", "ii", lambda a: abs(trunc(a))),
    "toupper": ("libc.so.6", "ii", None),
}


class Fun:
    def __init__(self, name, lib, ret, sig, symbol):
        self.name, self.lib, self.ret, self.sig, self.symbol = name, lib, ret, sig, symbol
        self.used = False

    def value(self, vals):
        if self.symbol in SYSTEM:
            return float(SYSTEM[self.symbol][2](*vals))
        return call(self.lib.code, self.ret, self.sig, vals)

    def el(self):
        return E("define-extern-function",
                 {"name": self.name, "symbol": self.symbol, "library": self.lib.name},
                 *[E(XTYPE[t]) for t in self.ret + self.sig])


class Lib:
    def __init__(self, name, code, attrs, file):
        self.name, self.code, self.attrs, self.file = name, code, attrs, file

    def el(self):
        return E("define-extern-library", dict({"name": self.name}, **self.attrs))


class C21(DrvCheck):
    id = "C21"
    rule = ("models that declare 1 to 3 external libraries and functions of random signatures and "
            "use them in nested expressions, with and without permission, complete and with one "
            "broken declaration; non-trivial: a function is applied, or the model must be rejected")
    quick_cases = 16000
    quick_wall = 60
    thorough_cases = 600000
    thorough_wall = 800
    targets = ("sdrv", "clidrv")
    assumptions = [
        "the libraries are made by the installed C compiler",
        "arguments of int parameters are within the range of int",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])
        self.so = {}
        for lib in "ab":
            c = self.drv.scratch.write("code_%s.c" % lib, source(lib))
            self.so[lib] = self.drv.scratch.path("code_%s.bin" % lib)
            subprocess.run(["gcc", "-O1", "-ffp-contract=off", "-shared", "-fPIC", "-o",
                            self.so[lib], c, "-ldl"], check=True)

    def close(self):
        super().close()
        self.cli.close()

    # ------------------------------------------------------------------ model
    def place(self, code, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        shutil.copyfile(self.so[code], path)

    def library(self, s, i, where):
        """A library file and its declaration (in a model file in the directory where)."""
        name = s.choice(["lib%d", "L%d", "a_%d", "x-%d"]) % i
        if s.bool(0.12):
            f = s.choice(["libm.so.6", "libc.so.6"])
            at = {"path": f, "system": "true"}
            if s.bool(0.3):
                at["decorate"] = "false"
            return Lib(name, f, at, None)
        code = s.choice("ab")
        stem = s.choice(["alpha", "beta.v1", "g_m", "q"]) + str(i)
        sub = s.choice(["", "libs", "libs/deep", "../up"])
        style = s.choice(["plain", "dotted", "absolute", "system"])
        decorated = s.bool(0.35)
        base = ("lib%s.so" % stem) if decorated else stem + s.choice([".so", ".so.1", "", ".dll"])
        here = os.path.normpath(os.path.join(where, sub))
        file = os.path.join(here, base)
        path = os.path.join(sub, stem if decorated else base)
        if style == "dotted":
            path = "./" + path
        elif style == "absolute" or style == "system" and ("/" not in path or s.bool()):
            path = os.path.join(here, stem if decorated else base)
        at = {"path": path}
        if decorated:
            at["decorate"] = s.choice(["true", "1"])
        elif s.bool(0.2):
            at["decorate"] = "false"
        if style == "system":
            at["system"] = "true"
        elif s.bool(0.2):
            at["system"] = "false"
        return Lib(name, code, at, file)

    def function(self, s, i, libs):
        lib = s.choice(libs)
        name = s.choice(["f%d", "Fun%d", "g_%d", "fn-%d"]) % i
        if lib.code in BASE:
            ret, sig = s.choice("di"), s.choice(SIGS)
            if s.bool(0.5):
                sig = "".join(s.choice("id") for _ in range(s.int(0, 5)))
            return Fun(name, lib, ret, sig, "f_%s_%s" % (ret, sig))
        sym = s.choice([k for k, v in sorted(SYSTEM.items()) if v[0] == lib.code and v[2]])
        return Fun(name, lib, SYSTEM[sym][1][0], SYSTEM[sym][1][1:], sym)

    def num(self, s, d):
        """(xml, value, native xml): native computes the same without external code."""
        k = s.weighted([(3, "leaf"), (5, "call" if self.funs else "leaf"), (2, "op"), (2, "par")]) \
            if d > 0 else s.choice(["leaf", "leaf", "par"])
        if k == "leaf":
            v = s.int(-320, 320) / 64.0 if s.bool(0.7) else float(s.int(-9, 9))
            t = E("float", {"value": repr(v)})
            if v == int(v) and s.bool():
                t = E("int", {"value": str(int(v))})
            return t, v, t
        if k == "par":
            name, v = s.choice(self.pars)
            t = E("parameter", {"name": name})
            return t, v, t
        if k == "op":
            op = s.choice(["add", "sub", "mul", "min", "max", "neg"])
            a = [self.num(s, d - 1) for _ in range(1 if op == "neg" else 2)]
            v = [x[1] for x in a]
            r = {"add": lambda: v[0] + v[1], "sub": lambda: v[0] - v[1],
                 "mul": lambda: v[0] * v[1], "min": lambda: min(v), "max": lambda: max(v),
                 "neg": lambda: -v[0]}[op]()
            if abs(r) > 1e6:
                raise Discard("large")
            return (E(op, {}, *[x[0] for x in a]), r,
                    None if any(x[2] is None for x in a) else E(op, {}, *[x[2] for x in a]))
        f = s.choice(self.funs)
        f.used = True
        self.calls += 1
        a = [self.num(s, d - 1) for _ in f.sig]
        if f.symbol == "ldexp" and abs(a[1][1]) > 8:
            raise Discard("large")
        r = f.value([x[1] for x in a])
        if abs(r) > 1e6:
            raise Discard("large")
        xml = E("extern-function", {"name": f.name}, *[x[0] for x in a])
        if f.symbol in SYSTEM:
            return xml, r, None
        nat = E("add", {}, E("float", {"value": repr(offset(f.lib.code, f.ret, f.sig))}),
                E("float", {"value": "0"}))
        for i, (t, x) in enumerate(zip(f.sig, a)):
            y = x[2]
            if y is None:
                return xml, r, None
            if t == "i":
                y = ntrunc(y)
            nat.add(E("mul", {}, E("float", {"value": str(WEIGHTS[i])}), y))
        if f.ret == "i":
            nat = ntrunc(nat)
        return xml, r, nat

    def case(self, s):
        sc = self.drv.scratch
        self.n = getattr(self, "n", 0) + 1
        top = sc.path("c%d" % self.n)
        try:
            return self.attempt(s, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def attempt(self, s, top):
        os.makedirs(top + "/m/n")
        os.makedirs(top + "/up")
        two = s.bool(0.3)
        dirs = [top + "/m"] + ([top + "/m/n"] if two and s.bool() else [top + "/m"] if two else [])
        roots = [E("opsa-mef") for _ in dirs]
        libs, self.funs, self.pars, self.calls = [], [], [], 0
        lib_at = {}
        for i in range(s.int(1, 3)):
            k = s.int(0, len(dirs) - 1)
            lib = self.library(s, i, dirs[k])
            if any(lib.file and lib.file == l.file for l in libs):
                continue
            libs.append(lib)
            lib_at[lib.name] = k
        for lib in libs:
            if lib.file:
                self.place(lib.code, lib.file)
        for i in range(s.int(0 if s.bool(0.1) else 1, 5)):
            self.funs.append(self.function(s, i, libs))
            self.funs[-1].at = s.int(0, len(roots) - 1)
        # Parameters, constant and random.
        defs = []
        devs = 0
        for i in range(s.int(1, 3)):
            v = s.int(-200, 200) / 32.0
            if s.bool(0.4):
                w = s.choice([0.5, 2.0, 8.0])
                body = E("uniform-deviate", {}, E("float", {"value": repr(v - w)}),
                         E("float", {"value": repr(v + w)}))
                devs += 1
            else:
                body = E("float", {"value": repr(v)})
            self.pars.append(("d%d" % i, v))
            defs.append(E("define-parameter", {"name": "d%d" % i}, body))
        want, same = {}, []
        for i in range(s.int(1, 4)):
            xml, v, nat = self.num(s, 1 + int(2.5 * s.size))
            if not (v == v and abs(v) <= 1e6):
                raise Discard("large")
            name = "p%d" % i
            want[name] = v
            defs.append(E("define-parameter", {"name": name}, xml))
            if nat is not None and devs:
                same.append("s%d" % i)
                defs.append(E("define-parameter", {"name": "s%d" % i},
                              E("sub", {}, E("parameter", {"name": name}), nat)))
            if s.bool(0.4):
                self.pars.append((name, v))
        p, v, _ = self.num(s, 1)
        prob = E("exponential", {}, E("abs", {}, p), E("float", {"value": "0.125"}))
        pv = 1 - math.exp(-abs(v) * 0.125)
        root = s.choice(roots)
        ft = E("define-fault-tree", {"name": "ft"},
               E("define-gate", {"name": "top"}, E("or", {}, E("basic-event", {"name": "e"}),
                                                   E("basic-event", {"name": "z"}))),
               E("define-basic-event", {"name": "e"}, prob),
               E("define-basic-event", {"name": "z"}, E("float", {"value": "0.5"})))
        for r, k in ((r, k) for k, r in enumerate(roots)):
            mine = [lib.el() for lib in libs if lib_at[lib.name] == k]
            mine += [f.el() for f in self.funs if f.at == k]
            if r is root:
                mine.append(ft)
                mine.append(E("model-data", {}, *s.shuffle(defs)))
            r.add(*s.shuffle(mine))
        # What is broken?
        how = s.weighted([(5, "values"), (2, "forbidden"), (3, "broken"), (2, "tool")])
        bad = None
        if how == "broken":
            bad = self.spoil(s, roots, libs)
        files = [("%s/m%d.xml" % (os.path.relpath(d, self.drv.scratch.dir), i), r.text())
                 for i, (d, r) in enumerate(zip(dirs, roots))]
        marks = lambda: sorted(glob.glob(top + "/**/*.mark", recursive=True))
        paths = [os.path.join(self.drv.scratch.dir, n) for n, _ in files]
        st = {"mission_time": 10.0, "seed": s.int(1, 99), "probability": True}
        self.last_files, self.last_settings = files, st
        own = [lib for lib in libs if lib.file]
        tags = [how] + ["signature %s" % len(f.sig) for f in self.funs if f.used]
        if how == "forbidden":
            if s.bool(0.5):
                r = self.load(files, st, **s.choice([{}, {"extern": 0}]))
                if "error" not in r:
                    self.fail("external libraries were accepted without permission",
                              sig="accepted without permission")
                if r.get("kind") != "user":
                    self.fail("internal error: %s" % r, sig="kind without permission")
            else:
                for n, t in files:
                    self.drv.scratch.write(n, t)
                args = list(paths)
                if s.bool(0.3):
                    args.append("--validate")
                rc, o, e = self.cli.run(args, cwd=self.cwd(s, top))
                if rc != 1 or not e.strip():
                    self.fail("status %s without permission: %r" % (rc, e[-500:]),
                              sig="accepted without permission by the tool")
            if marks():
                self.fail("a library was loaded without permission: %s" % marks(),
                          sig="loaded without permission")
        elif how == "broken":
            if bad is None:
                raise Discard("not applicable")
            r = self.load(files, st, extern=1)
            if "error" not in r:
                self.fail("accepted: %s" % bad, sig="accepted: " + bad)
            if r.get("kind") != "user":
                self.fail("internal error (%s): %s" % (bad, r), sig="kind: " + bad)
            tags.append(bad)
        elif how == "values":
            n = 6 if devs else 0
            r = self.run_ok(files, st, extern=1, dump=1, samples=n, analyze=1)
            d = r["dump"]
            for name, v in want.items():
                got = d["parameters"][name]
                if not close(got["value"], v, 1e-12, 1e-12):
                    self.fail("%s evaluates to %r, expected %r" % (name, got["value"], v),
                              sig="value")
                if not got["deviate"] and n and any(
                        not close(x, v, 1e-12, 1e-12) for x in got["samples"]):
                    self.fail("%s samples to %r, expected %r" % (name, got["samples"], v),
                              sig="constant sample")
            for name in same:
                got = d["parameters"][name]
                if any(abs(x) > 1e-6 for x in got["samples"]):
                    self.fail("%s: samples differ from the native formula by %r"
                              % (name, got["samples"]), sig="sample")
            self.marked(own, "loaded with permission")
            got = d["basic_events"]["e"]["value"]
            if not close(got, pv, 1e-9, 1e-12):
                self.fail("probability %r, expected %r" % (got, pv), sig="event value")
        else:
            for n, t in files:
                self.drv.scratch.write(n, t)
            args = ["--allow-extern", "--probability"] + paths
            rc, o, e = self.cli.run(args, cwd=self.cwd(s, top))
            if rc != 0:
                self.fail("status %s with permission: %r" % (rc, e[-500:]),
                          sig="refused with permission")
            o = o.decode("utf-8", "replace")
            m = re.search(r'<sum-of-products[^>]* probability="([^"]*)"', o)
            exp = pv + 0.5 - pv * 0.5
            if not m or not close(float(m.group(1)), exp, 1e-5, 1e-7):
                self.fail("probability %s, expected %r" % (m and m.group(1), exp),
                          sig="reported value")
            self.marked(own, "loaded by the tool")
            for head, names in (("Unused libraries: ",
                                 {l.name for l in libs if not any(f.lib is l for f in self.funs)}),
                                ("Unused extern functions: ",
                                 {f.name for f in self.funs if not f.used})):
                m = re.search("<warning>%s(.*?)</warning>" % head, o)
                got = set(m.group(1).split()) if m else set()
                if got != names:
                    self.fail("%s%s reported, expected %s" % (head, sorted(got), sorted(names)),
                              sig=head)
        key = None
        if self.calls or how in ("forbidden", "broken"):
            key = hashlib.sha1(re.sub(r"c\d+/", "", repr([(n, t.replace(top, "")) for n, t in files])
                                      + how).encode()).hexdigest()
        return Result(key, {"how": how, "broken": bad,
                            "functions": ["%s(%s)%s" % (f.ret, f.sig, "" if f.used else " unused")
                                          for f in self.funs],
                            "values": want}, tags)

    def cwd(self, s, top):
        return s.choice([top, top + "/up", self.cli.scratch.dir])

    def marked(self, own, what):
        for lib in own:
            if not os.path.exists(lib.file + ".mark"):
                self.fail("%s was not %s" % (lib.name, what), sig="not loaded")

    # ------------------------------------------------------------------ errors
    def spoil(self, s, roots, libs):
        """Breaks one declaration; None if there is nothing to break."""
        def find(tag):
            return [x for r in roots for x in r.walk() if x.tag == tag]

        def holder(x):
            return next(p for r in roots for p in r.walk() if any(k is x for k in p.kids))
        ls, fs, cs = (find("define-extern-library"), find("define-extern-function"),
                      find("extern-function"))
        k = s.choice(["missing file", "path", "no library", "missing symbol", "too many parameters",
                      "too few arguments", "too many arguments", "no function", "duplicate library",
                      "duplicate function", "type", "no return type", "decoration", "not a library",
                      "other directory", "library of the symbol"])
        if k in ("missing file", "path", "duplicate library", "decoration", "not a library",
                 "other directory") and ls:
            x = s.choice(ls)
            if k == "missing file":
                x.attrs["path"] = x.attrs["path"] + "_none"
            elif k == "path":
                x.attrs["path"] = s.choice(["", ".", "..", "libs/", "x/..", "x/.", "lib:"])
            elif k == "duplicate library":
                holder(x).add(E("define-extern-library", dict(x.attrs)))
            elif k == "decoration":
                if x.attrs.pop("decorate", None) not in ("true", "1"):
                    return None
            else:
                lib = next(l for l in libs if l.name == x.attrs["name"])
                if not lib.file:
                    return None
                if k == "not a library":
                    with open(lib.file, "wb") as f:
                        f.write(s.choice([b"", b"text", b"\x7fELF"]))
                else:
                    # Found in the working directory of the tool only.
                    if lib.attrs["path"].startswith("/"):
                        return None
                    x.attrs["path"] = os.path.relpath(lib.file, self.drv.scratch.dir)
        elif k in ("no library", "missing symbol", "too many parameters", "duplicate function",
                   "type", "no return type", "library of the symbol") and fs:
            x = s.choice(fs)
            if k == "no library":
                x.attrs["library"] = "nolib"
            elif k == "missing symbol":
                x.attrs["symbol"] = s.choice([x.attrs["symbol"] + "x", "f", "nosuch",
                                              x.attrs["symbol"][:-1] + "q"])
            elif k == "library of the symbol":
                m = [l for l in libs if not l.file]
                if not m or not x.attrs["symbol"].startswith("f_"):
                    return None
                x.attrs["library"] = m[0].name
            elif k == "too many parameters":
                while len(x.kids) <= 6:
                    x.add(E(s.choice(["int", "double"])))
            elif k == "duplicate function":
                holder(x).add(E(x.tag, dict(x.attrs), *x.kids))
            elif k == "type":
                x.kids[s.int(0, len(x.kids) - 1)] = E(s.choice(["bool", "string", "float", "long"]))
            else:
                x.kids = []
        elif k in ("too few arguments", "too many arguments", "no function") and cs:
            x = s.choice(cs)
            if k == "no function":
                x.attrs["name"] = s.choice(["nofun", x.attrs["name"] + "x"])
            elif k == "too many arguments":
                x.add(E("float", {"value": "1"}))
            elif x.kids:
                x.kids.pop(s.int(0, len(x.kids) - 1))
            else:
                return None
        else:
            return None
        return k


def ntrunc(y):
    zero = E("float", {"value": "0"})
    return E("ite", {}, E("lt", {}, y, zero), E("ceil", {}, y), E("floor", {}, y))
