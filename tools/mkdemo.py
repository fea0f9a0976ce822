#!/usr/bin/env python3
"""mkdemo.py ID (--replay FILE | --files F...) [--args ...]: builds the demonstration of a
planted change: model files, the arguments, and what the unchanged tool answers."""
import argparse
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = """#!/bin/sh
# Runs the built tool on the model beside this file; compares with the right answer.
d=$(cd "$(dirname "$0")" && pwd)
exec python3 "$d/demo.py" check
"""

DEMO_PY = r'''"""Runs scram on the models in runs.json and compares with the stored answers."""
import json
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

D = os.path.dirname(os.path.abspath(__file__))
BIN = "/repo/_install/bin/scram"


def num(s):
    try:
        f = float(s)
    except ValueError:
        return s
    return f


def canon(e):
    """An element without order, white space and float noise."""
    attrs = tuple(sorted((k, "%.3g" % num(v) if isinstance(num(v), float) else v)
                         for k, v in e.attrib.items()))
    kids = sorted((canon(k) for k in e), key=repr)
    t = (e.text or "").strip()
    t = " ".join("%.3g" % num(x) if isinstance(num(x), float) else x for x in t.split())
    return [e.tag, attrs, t, kids]


def run(args, files):
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out.xml")
        p = subprocess.run([BIN] + args + [os.path.join(D, f) for f in files] + ["-o", out],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        r = {"rc": p.returncode}
        if p.returncode == 0:
            if os.path.exists(out):
                root = ET.parse(out).getroot()
                res = root.find("results")
                r["results"] = repr(canon(res)) if res is not None else None
                r["warnings"] = sorted(w.text or "" for w in root.iter("warning"))
        return r


def main():
    runs = json.load(open(os.path.join(D, "runs.json")))
    bad = 0
    for r in runs:
        got = run(r["args"], r["files"])
        if sys.argv[1] == "record":
            r["want"] = got
        elif got != r["want"]:
            bad = 1
            print("scram %s %s" % (" ".join(r["args"]), " ".join(r["files"])))
            print("want:", str(r["want"])[:2000])
            print("got: ", str(got)[:2000])
    if sys.argv[1] == "record":
        json.dump(runs, open(os.path.join(D, "runs.json"), "w"), indent=1)
    sys.exit(bad)


main()
'''


def cli_args(st):
    a = []
    alg = st.get("algorithm")
    if alg:
        a.append("--" + alg)
    ap = st.get("approximation")
    if ap in ("rare-event", "mcub"):
        a.append("--" + ap)
    for k in ("probability", "importance", "uncertainty", "ccf", "sil"):
        if st.get(k):
            a.append("--" + k)
    if st.get("prime_implicants"):
        a.append("--prime-implicants")
    for k in ("limit_order", "cut_off", "num_trials", "num_quantiles", "num_bins",
              "seed", "mission_time", "time_step"):
        if k in st:
            a += ["--" + k.replace("_", "-"), repr(st[k])]
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--files", nargs="*", default=[])
    ap.add_argument("--args", default=None)
    o = ap.parse_args()
    d = os.path.join(ROOT, "seeded", o.id)
    os.makedirs(d, exist_ok=True)
    names = []
    args = o.args.split() if o.args is not None else []
    if o.replay:
        r = json.load(open(o.replay))
        det = r["detail"]
        for name, text in det["files"]:
            open(os.path.join(d, name), "w").write(text)
            names.append(name)
        if o.args is None:
            args = cli_args(det["settings"] or {})
    for f in o.files:
        t = os.path.join(d, os.path.basename(f))
        if os.path.abspath(f) != t:
            shutil.copy(f, t)
        names.append(os.path.basename(f))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(DEMO_PY)
    rj = os.path.join(d, "runs.json")
    runs = [{"args": args, "files": names}]
    json.dump(runs, open(rj, "w"), indent=1)
    subprocess.run([sys.executable, os.path.join(d, "demo.py"), "record"], check=True)
    print(open(rj).read()[:int(os.environ.get("SHOW", "300"))])


main()
