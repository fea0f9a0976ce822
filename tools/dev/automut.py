#!/usr/bin/env python3
"""automut.py SEED PER_FILE [FILE...]: mutates lines of the sources in a copy of the repository,
and runs the checks of the file until one catches it; survivors go to the log.

Works in /tmp/m (repo: a clone of the repository, verif: a copy of /verif)."""
import os, random, re, subprocess, sys, time, json
R, V, LOG = "/tmp/m/repo", "/tmp/m/verif", "/tmp/m/log.txt"
MAP = {
 "src/pdag.cc": "C01 C03 C02", "src/pdag.h": "C01 C03", "src/preprocessor.cc": "C01 C03 C02", "src/preprocessor.h": "C01 C03",
 "src/bdd.cc": "C03 C02 C05", "src/bdd.h": "C03 C02", "src/zbdd.cc": "C01 C02", "src/zbdd.h": "C01 C02", "src/mocus.cc": "C01",
 "src/probability_analysis.cc": "C03 C04 C19", "src/probability_analysis.h": "C03 C04 C19", "src/importance_analysis.cc": "C05",
 "src/importance_analysis.h": "C05", "src/uncertainty_analysis.cc": "C09", "src/ccf_group.cc": "C06 C14", "src/ccf_group.h": "C06",
 "src/expression.cc": "C07 C08", "src/expression/numerical.cc": "C07 C08", "src/expression/numerical.h": "C07 C08",
 "src/expression/exponential.cc": "C07 C08 C09", "src/expression/exponential.h": "C07 C08", "src/expression/random_deviate.cc": "C08 C07 C09",
 "src/expression/random_deviate.h": "C08 C09", "src/expression/conditional.cc": "C08 C07", "src/expression/conditional.h": "C07",
 "src/expression/boolean.h": "C07 C08", "src/event_tree_analysis.cc": "C10 C18", "src/instruction.h": "C10", "src/initializer.cc": "C14 C13 C10 C15 C06 C21",
 "src/initializer.h": "C14 C13", "src/substitution.cc": "C12", "src/alignment.cc": "C14 C11", "src/risk_analysis.cc": "C11 C18",
 "src/reporter.cc": "C17", "src/reporter.h": "C17", "src/serialization.cc": "C16", "src/settings.cc": "C20", "src/project.cc": "C20", "src/scram.cc": "C20 C24 C15",
 "src/xml_stream.h": "C24 C17 C16", "src/xml.cc": "C15 C20", "src/xml.h": "C20 C15", "src/cycle.cc": "C14", "src/cycle.h": "C14",
 "src/element.cc": "C13 C14", "src/element.h": "C14 C13", "src/event.cc": "C14 C01", "src/event.h": "C01 C14", "src/fault_tree.cc": "C17 C14 C13",
 "src/fault_tree_analysis.cc": "C01 C17", "src/fault_tree_analysis.h": "C01 C04", "src/model.cc": "C13 C14", "src/model.h": "C14", "src/parameter.cc": "C14",
 "src/parameter.h": "C14 C07", "src/event_tree.cc": "C14 C10", "src/event_tree.h": "C14", "src/expression/extern.cc": "C21", "src/expression/extern.h": "C21",
 "gui/model.cpp": "C22", "gui/model.h": "C22", "gui/elementcontainermodel.cpp": "C22", "gui/modeltree.cpp": "C22", "gui/eventdialog.cpp": "C22",
 "gui/elementcontainermodel.h": "C22", "gui/mainwindow.cpp": "C22", "gui/validator.cpp": "C22",
 "scripts/fault_tree_generator.py": "C23", "scripts/fault_tree.py": "C23", "src/expression/test_event.cc": "C10", "src/expression/test_event.h": "C10",
 "src/ext/combination_iterator.h": "C06 C01", "src/ext/scope_guard.h": "C10", "src/ext/linear_set.h": "C01", "src/ext/index_map.h": "C01", "src/event_tree_analysis.h":"C10",
}
OPS = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"if \(!", ["if ("]), (r"if \((?=[^!])", ["if (!"]), (r"(?<=[(, ])!(?=[a-z*])", [""]), (r"\b0\b", ["1"]), (r"\b1\b", ["2", "0"]), (r"\b2\b", ["1", "3"]),
 (r"\+=", ["-="]), (r"\.first\b", [".second"]), (r"\bmin\b\(", ["max("]), (r"\bmax\b\(", ["min("]), (r"\bfront\(\)", ["back()"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
 (r"\bhigh\(\)", ["low()"]), (r"\blow\(\)", ["high()"]), (r"\bbegin\(\)", ["end()"]), (r"->", []), 
]
PYOPS = OPS + [(r" and ", [" or "]), (r" or ", [" and "]), (r"\bnot ", [""]), (r" is ", [" is not "]), (r"randint\((\w+), ", ["randint(1, "])]

def candidates(path):
    out = []
    lines = open(os.path.join(R, path)).read().split("\n")
    py = path.endswith(".py")
    orig = set()
    for n, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "/*", "assert", "template", "using", "include", "namespace", "class ", "struct ", "LOG(", "CLOCK", "friend", '"""', "import", "from")) or "assert(" in t or "static_assert" in t or "LOG(" in t:
            continue
        code = l.split("//")[0]
        for rx, reps in (PYOPS if py else OPS):
            for m in re.finditer(rx, code):
                q = code[:m.start()].count('"')
                if q % 2: continue
                for r in reps:
                    out.append((n, l[:m.start()] + r + l[m.end():]))
        # delete statements
        if not py and re.match(r"^[\w\->.:()\[\]&*, !+=<>{}'\"]+;$", t) and not t.startswith(("return", "break", "}", "const ", "auto ", "int ", "double ", "bool ", "std::", "typedef", "continue")) and (("(" in t and not re.match(r"^\w[\w:<>]* [\w]+\(", t)) or " = " in t or t.startswith("++")):
            prev = lines[n-1].strip()
            if prev.endswith((";", "{", "}")) or prev == "" or prev.startswith("//"):
                out.append((n, l[:len(l)-len(l.lstrip())] + ";"))
        if py and re.match(r"^[\w.]+\(.*\)$", t): out.append((n, l[:len(l)-len(l.lstrip())] + "pass"))
    return lines, out

def main():
    seed, per = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(MAP)
    rng = random.Random(seed)
    jobs = []
    for f in files:
        if not os.path.exists(os.path.join(R, f)): continue
        lines, c = candidates(f)
        rng.shuffle(c)
        for n, new in c[:per]: jobs.append((f, n, lines[n], new))
    rng.shuffle(jobs)
    for f, n, old, new in jobs:
        if os.path.exists("/tmp/m/stop"): return
        p = os.path.join(R, f)
        text = open(p).read().split("\n")
        assert text[n] == old
        text[n] = new
        open(p, "w").write("\n".join(text))
        res, t0 = [], time.time()
        tag = "%s:%d" % (f, n + 1)
        try:
            for c in MAP.get(f, "C07 C15").split():
                env = dict(os.environ, VERIF_REPO=R, VERIF_SHRINK="1", VERIF_SEED=str(seed))
                try:
                    r = subprocess.run(["nice", "-n", "10", "timeout", "600", "python3-vt", "run.py", c, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                except Exception as e:
                    res.append(c + ":exc"); continue
                if r.returncode == 1: res.append(c + ":CAUGHT"); break
                if r.returncode == 2 and "does not build" in r.stdout: res.append("nobuild"); break
                res.append("%s:%s" % (c, "missed" if r.returncode == 0 else "rc%d" % r.returncode))
                if r.returncode not in (0,): open("/tmp/m/err-%s-%d.txt" % (f.replace("/", "_"), n), "w").write(r.stdout)
        finally:
            text[n] = old
            open(p, "w").write("\n".join(text))
        st = "killed" if res and res[-1].endswith("CAUGHT") else "nobuild" if res and res[-1] == "nobuild" else "SURVIVED"
        with open(LOG, "a") as o:
            o.write("%s %s [%s] %.0fs\n    - %s\n    + %s\n" % (st, tag, " ".join(res), time.time() - t0, old.strip(), new.strip()))
main()
