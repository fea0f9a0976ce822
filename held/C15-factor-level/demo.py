"""Runs scram on the models in runs.json and compares with the stored answers."""
import json
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

D = os.path.dirname(os.path.abspath(__file__))
BIN = "/repo/_install/bin/scram"


def num(s):
    try:
        f = float(s)
    except ValueError:
        return s
    return f


def canon(e):
    """An element without order, white space and float noise."""
    attrs = tuple(sorted((k, "%.3g" % num(v) if isinstance(num(v), float) else v)
                         for k, v in e.attrib.items()))
    kids = sorted((canon(k) for k in e), key=repr)
    t = (e.text or "").strip()
    t = " ".join("%.3g" % num(x) if isinstance(num(x), float) else x for x in t.split())
    return [e.tag, attrs, t, kids]


def run(args, files):
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out.xml")
        p = subprocess.run([BIN] + args + [os.path.join(D, f) for f in files] + ["-o", out],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        r = {"rc": p.returncode}
        if p.returncode == 0:
            if os.path.exists(out):
                root = ET.parse(out).getroot()
                res = root.find("results")
                r["results"] = repr(canon(res)) if res is not None else None
                r["warnings"] = sorted(w.text or "" for w in root.iter("warning"))
        return r


def main():
    runs = json.load(open(os.path.join(D, "runs.json")))
    bad = 0
    for r in runs:
        got = run(r["args"], r["files"])
        if sys.argv[1] == "record":
            r["want"] = got
        elif got != r["want"]:
            bad = 1
            print("scram %s %s" % (" ".join(r["args"]), " ".join(r["files"])))
            print("want:", str(r["want"])[:2000])
            print("got: ", str(got)[:2000])
    if sys.argv[1] == "record":
        json.dump(runs, open(os.path.join(D, "runs.json"), "w"), indent=1)
    sys.exit(bad)


main()
