"""Regenerates MANIFEST.json from the properties and the check modules."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from tools.texts import TECH, NOTE, NA

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "atrcheck", "props", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": TECH[p], "level": "other", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "its check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, symtable, sys; sys.exit(sys.version_info < (3, 9))'",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
