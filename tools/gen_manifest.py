#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run to regenerate it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing"
T = {
    "C01": (PBT + ": random fault trees against truth-table minimal cut sets", ""),
    "C02": (PBT + ": random fault trees against truth-table prime implicants", ""),
    "C03": (PBT + ": random fault trees against the truth-table probability", ""),
    "C04": (PBT + ": definitions of the approximations over reference cut sets", ""),
    "C05": (PBT + ": conditional probabilities by truth table", ""),
    "C06": (PBT + ": own expansion of the common-cause models, truth tables", ""),
    "C07": (PBT + ": generated expressions against an independent evaluator", ""),
    "C08": (PBT + ": domain predicates and sampled containment over generated expressions", ""),
    "C09": (PBT + ": summary invariants and distribution tests over generated models", ""),
    "C10": (PBT + ": generated event trees against a path-walking interpreter", ""),
    "C11": (PBT + ": metamorphic rewriting of each phase into its own model", ""),
    "C12": (PBT + ": generated substitutions against their set and truth-table definitions", ""),
    "C13": (PBT + ": metamorphic re-layout of generated models, scope oracle", ""),
    "C14": (PBT + ": violation injection into generated valid models", ""),
    "C15": ("fuzzing: grammar-based generation, structured and byte mutation under ASan/UBSan with assertions", ""),
    "C16": (PBT + ": save/load round trip of generated models", ""),
    "C17": (PBT + ": generated models, schema validation and report contents against results", ""),
    "C18": (PBT + ": repetition in fresh and shared processes over generated models", ""),
    "C19": (PBT + ": generated time-dependent models against own integration", ""),
    "C20": (PBT + ": generated option sets against a reference of the settings rules", ""),
    "C21": (PBT + ": generated external functions compiled and called", ""),
    "C22": ("stateful model-based testing of the GUI undo stack", ""),
    "C23": (PBT + ": generated parameter sets of the generator, output parsed against them", ""),
    "C24": (PBT + ": injected write failures over generated reports and models", ""),
    "C25": ("stateful model-based testing of the settings, analyses and result views of the GUI, against the library", ""),
    "C26": ("stateful model-based testing of the diagrams over edit histories", ""),
    "C27": ("stateful model-based testing of opening, saving and closing in the main window, with failing saves", ""),
}


def main():
    import importlib, sys
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import run
    checks, na = [], []
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    for p in props:
        pid = p["id"]
        if pid not in run.MODULES:
            na.append({"property": pid, "reason": "Its check is still being built."})
            continue
        c = run.get(pid)
        tech, note = T[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt run.py %s quick" % pid,
            "thorough_cmd": "python3-vt run.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech,
            "level": "exploration",
            "level_note": "Searched, not proved: " + c.rule + ". Trusts: "
                          + "; ".join(c.assumptions) + ".",
        })
    m = {"version": 1,
         "setup_cmd": "python3-vt run.py --setup",
         "checks": checks,
         "not_applicable": na,
         "notes": "No hooks are needed in /repo. run.py --replay FILE re-runs a replay file."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
