#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the rule modules present."""
import json, os, sys, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "rules")]
NA = json.load(open(os.path.join(H, "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(H, "rules", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=getattr(m, "TECHNIQUE", "static analysis: path-sensitive typestate and value-numbering dataflow over LLVM IR"),
                           level="other",
                           level_note="Decided from the source on every path of the functions analysed, nothing is run. Assumes: "
                           + "; ".join(getattr(m, "ASSUMES", []) or ["the IR of clang -O0 represents the program"]) + "."))
    else:
        na.append(dict(property=i, reason="no check for it has been built yet"))
out = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(out, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
