"""Content-hash build of /repo/src (in place) into /verif/build.

An object is reused only if the flags and the contents of the source and of
every header it read are what they were, so time stamps never matter.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = [
    "-std=c++17", "-w", "-include", "boost/current_function.hpp",
    "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION",
    '-DPROJECT_SOURCE_DIR="%s"' % REPO, "-DBOOST_ALL_DYN_LINK", "-fPIC",
    "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-I/usr/include/libxml2",
]
LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system",
        "-lboost_random", "-lxml2", "-ldl", "-lpthread"]

VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "rel": ("g++", ["-O1", "-fno-new-ttp-matching", "-g0"], []),
    "asan": ("g++", ["-O1", "-g1", "-fno-new-ttp-matching",
                     "-fsanitize=address,undefined,float-cast-overflow",
                     "-fno-sanitize=vptr",
                     "-fno-sanitize-recover=all",
                     "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"],
             ["-fsanitize=address,undefined"]),
}

_hash_memo = {}


def fhash(path):
    """The content hash of a file, or None."""
    if path in _hash_memo:
        return _hash_memo[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = None
    _hash_memo[path] = h
    return h


def core_sources():
    """The sources of the library, as the repository's own build lists them."""
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"set\(SCRAM_CORE_SRC(.*?)\)", text, re.S)
    names = [w for w in m.group(1).split() if w.endswith(".cc")]
    return [os.path.join(REPO, "src", n) for n in names]


def gen_headers():
    """version.h, from the repository's template."""
    inc = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(inc, "src"), exist_ok=True)
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def num(k):
        m = re.search(r"set\(\s*(?:SCRAM|PROJECT|CPACK_PACKAGE)_VERSION_%s\s+\"?(\d+)" % k, top)
        return m.group(1) if m else "0"
    v = {"MAJOR": num("MAJOR"), "MINOR": num("MINOR"), "PATCH": num("PATCH")}
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", top)
    if m:
        v = dict(zip(("MAJOR", "MINOR", "PATCH"), m.groups()))
    text = open(os.path.join(REPO, "src/version.h.in")).read()
    for k, x in v.items():
        text = text.replace("@SCRAM_VERSION_%s@" % k, x)
    text = text.replace("@SCRAM_VERSION@", "%(MAJOR)s.%(MINOR)s.%(PATCH)s" % v)
    text = text.replace("@SCRAM_GIT_REVISION@", "")
    for out in (os.path.join(inc, "src/version.h"), os.path.join(inc, "version.h")):
        if not os.path.exists(out) or open(out).read() != text:
            with open(out, "w") as f:
                f.write(text)
    return ["-I", inc, "-I", os.path.join(inc, "src")]


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(variant, src, flags, cxx):
    """Compiles one source; returns the object's path."""
    tag = hashlib.sha256(("%s|%s|%s" % (src, cxx, " ".join(flags))).encode()
                         ).hexdigest()[:24]
    odir = os.path.join(BUILD, "obj", variant)
    os.makedirs(odir, exist_ok=True)
    memo = os.path.join(odir, tag + ".json")
    entries = []
    if os.path.exists(memo):
        try:
            entries = json.load(open(memo))
        except ValueError:
            entries = []
    for e in entries:
        obj = os.path.join(odir, e["obj"])
        if os.path.exists(obj) and all(fhash(d) == h
                                       for d, h in e["deps"].items()):
            return obj, None
    tmp = os.path.join(odir, "%s.%d.o" % (tag, os.getpid()))
    dep = tmp + ".d"
    r = _run([cxx] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode:
        return None, "%s\n%s" % (src, r.stdout[-4000:])
    text = open(dep).read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    keep = {d: fhash(d) for d in deps
            if not d.startswith("/usr/")}
    sig = hashlib.sha256(json.dumps(keep, sort_keys=True).encode()
                         ).hexdigest()[:12]
    name = "%s.%s.o" % (tag, sig)
    os.replace(tmp, os.path.join(odir, name))
    os.unlink(dep)
    entries = [e for e in entries if e["obj"] != name]
    entries.insert(0, {"obj": name, "deps": keep})
    for e in entries[6:]:
        try:
            os.unlink(os.path.join(odir, e["obj"]))
        except OSError:
            pass
    json.dump(entries[:6], open(memo + ".tmp", "w"))
    os.replace(memo + ".tmp", memo)
    return os.path.join(odir, name), None


class BuildError(Exception):
    """The tree does not build."""


def compile_all(variant, sources, extra=()):
    """Compiles the sources; returns the objects."""
    cxx, vflags, _ = VARIANTS[variant]
    flags = COMMON + vflags + ["-I", REPO] + gen_headers() + list(extra)
    out = [None] * len(sources)
    errs = []
    # Big files first.
    order = sorted(range(len(sources)),
                   key=lambda i: -os.path.getsize(sources[i]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, variant, sources[i], flags, cxx): i
                for i in order}
        for f in cf.as_completed(futs):
            obj, err = f.result()
            out[futs[f]] = obj
            if err:
                errs.append(err)
    if errs:
        raise BuildError("\n".join(errs))
    return out


def gui_sources():
    """The sources of the GUI's library, as the repository's own build lists
    them, with what moc and uic make of its headers and forms."""
    gdir = os.path.join(REPO, "gui")
    text = open(os.path.join(gdir, "CMakeLists.txt")).read()
    m = re.search(r"set\(SCRAM_GUI_SRC(.*?)\)", text, re.S)
    names = [w for w in m.group(1).split() if w.endswith(".cpp")]
    out = os.path.join(BUILD, "gui", "gen")
    os.makedirs(out, exist_ok=True)
    srcs = [os.path.join(gdir, n) for n in names]
    jobs = []
    for n in sorted(os.listdir(gdir)):
        p = os.path.join(gdir, n)
        if n.endswith(".ui"):
            jobs.append((["/usr/lib/qt5/bin/uic", p], "ui_%s.h" % n[:-3], None))
        elif n.endswith(".h") and "Q_OBJECT" in open(p).read():
            t = "moc_%s.cpp" % n[:-2]
            jobs.append((["/usr/lib/qt5/bin/moc", "-I", REPO, "-I", gdir,
                          "-p", gdir, p], t, n))
            srcs.append(os.path.join(out, t))
        elif n.endswith(".cpp") and '#include "%s.moc"' % n[:-4] in open(p).read():
            jobs.append((["/usr/lib/qt5/bin/moc", p], n[:-4] + ".moc", None))

    def one(job):
        cmd, name, _ = job
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError(r.stderr.decode("utf-8", "replace"))
        dst = os.path.join(out, name)
        if not os.path.exists(dst) or open(dst, "rb").read() != r.stdout:
            with open(dst, "wb") as f:
                f.write(r.stdout)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(one, jobs))
    flags = ["-I", gdir, "-I", out]
    for lib in ("QtWidgets", "QtCore", "QtGui", "QtSvg", "QtOpenGL",
                "QtPrintSupport", "QtConcurrent", ""):
        flags += ["-isystem", "/usr/include/x86_64-linux-gnu/qt5/" + lib]
    return srcs, flags + ["-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB"]


def link(variant, objs, target, libs=(), shared=False):
    """Links the objects unless the target is what they give."""
    cxx, _, lflags = VARIANTS[variant]
    cmd = [cxx] + (["-shared"] if shared else []) + lflags + objs + [
        "-o", target + ".tmp"] + list(libs) + LIBS
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    stamp = target + ".key"
    if os.path.exists(target) and os.path.exists(stamp) and \
            open(stamp).read() == key:
        return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    r = _run(cmd)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    os.replace(target + ".tmp", target)
    with open(stamp, "w") as f:
        f.write(key)
    return target


def rename(obj, syms):
    """A copy of the object with other symbol names."""
    out = obj[:-2] + ".renamed.o"
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(obj):
        cmd = ["objcopy"]
        for a, b in syms.items():
            cmd += ["--redefine-sym", "%s=%s" % (a, b)]
        r = _run(cmd + [obj, out + ".tmp"])
        if r.returncode:
            raise BuildError(r.stdout)
        os.replace(out + ".tmp", out)
    return out


def copy_schemas(variant):
    """The schemas, where the tool looks for them."""
    dst = os.path.join(BUILD, variant, "share", "scram")
    os.makedirs(dst, exist_ok=True)
    for n in ("input.rng", "project.rng", "report.rng", "gui.rng"):
        src = os.path.join(REPO, "share", n)
        d = os.path.join(dst, n)
        if not os.path.exists(d) or open(d, "rb").read() != open(src, "rb").read():
            shutil.copyfile(src, d)
    os.makedirs(os.path.join(dst, "translations"), exist_ok=True)  # The GUI lists them.


class Lock:
    """One build at a time."""

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def gui_objects(variant):
    """The GUI's library and its driver (the driver first)."""
    srcs, flags = gui_sources()
    return compile_all(variant, [os.path.join(VERIF, "harness/guidrv.cc")] + srcs,
                       flags)


def build(variant="rel", targets=("sdrv", "scram")):
    """Builds the driver and the command line tool; returns their paths."""
    with Lock():
        _hash_memo.clear()
        bindir = os.path.join(BUILD, variant, "bin")
        os.makedirs(bindir, exist_ok=True)
        copy_schemas(variant)
        core = core_sources()
        srcs = list(core)
        extra = {"sdrv": os.path.join(VERIF, "harness/sdrv.cc"),
                 "scram": os.path.join(REPO, "src/scram.cc")}
        names = [t for t in targets]
        gui = "guidrv" in names
        if gui:
            names.remove("guidrv")
        srcs += [extra.get(t) or os.path.join(VERIF, "harness", t + ".cc")
                 for t in names]
        # One pool for all: the GUI's sources are compiled beside the others.
        with cf.ThreadPoolExecutor(max_workers=1) as ex:
            job = ex.submit(gui_objects, variant) if gui else None
            objs = compile_all(variant, srcs)
            gobjs = job.result() if gui else []
        lib = objs[:len(core)]
        out = {}
        for t, o in zip(names, objs[len(core):]):
            more = []
            if t == "clidrv":
                tool = compile_all(variant, [extra["scram"]])[0]
                more = [rename(tool, {"main": "scram_main",
                                      "xmlCleanupParser": "verif_cleanup"})]
            out[t] = link(variant, [o] + more + lib, os.path.join(bindir, t))
        if gui:
            out["guidrv"] = link(
                variant, gobjs + lib, os.path.join(bindir, "guidrv"),
                ["-lQt5" + n for n in ("PrintSupport", "OpenGL", "Svg",
                                       "Widgets", "Gui", "Concurrent", "Core")])
        return out


if __name__ == "__main__":
    import time
    t0 = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "rel",
                sys.argv[2:] or ("sdrv", "scram")))
    print(time.time() - t0)
