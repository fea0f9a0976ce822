#!/usr/bin/env python3-vt
"""run.py ID [quick|thorough] | run.py --replay FILE"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

# Which module holds each check.
MODULES = {"C01": "c01", "C02": "c01", "C03": "c03", "C04": "c03", "C05": "c03", "C06": "c06", "C07": "c07", "C08": "c07", "C09": "c09", "C10": "c10", "C11": "c11", "C12": "c12", "C13": "c13", "C14": "c14", "C16": "c16", "C17": "c17", "C18": "c18", "C19": "c19", "C20": "c20", "C24": "c24", "C15": "c15", "C21": "c21", "C22": "c22", "C23": "c23", "C25": "c25", "C26": "c26", "C27": "c27"}


def get(pid):
    mod = importlib.import_module("vlib.checks." + MODULES.get(pid, pid.lower()))
    return getattr(mod, pid)()


def main():
    from vlib import engine
    from vlib.build import BuildError
    if sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        return engine.replay(get(f["property"]), sys.argv[2])
    if sys.argv[1] == "--setup":
        # The checks build what they need; this only shows that it builds.
        from vlib import build
        build.build("rel", ("sdrv", "scram"))
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return engine.main(get(pid), tier, seed)
    except BuildError as e:
        print("the tree does not build:\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
