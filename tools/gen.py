#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
from levels import level    # noqa: E402

PROPS = []
NA = []
EQ = "symbolic abstract interpretation; agreement with reference definitions (static)"


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=(), technique=EQ, note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    PROPS.append((d, technique, level(pid), note, na))


NOTE_EQ = ("All inputs of the stated domain are covered by symbolic paths of the current source; a violation is reported only with a concrete "
           "input that separates code and reference. Trusts the interpreter's operator rules in /verif/sa, CPython's compiler, and the reference "
           "definitions in /verif/specs.")

exec(open(os.path.join(HERE, "tools", "props_src.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], list(NA)
for d, technique, level, note, n in PROPS:
    if n:
        na.append({"property": d["id"], "reason": n})
        continue
    checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"], "evidence_file": "evidence/%s.json" % d["id"],
                   "technique": technique, "level": level, "level_note": (note or NOTE_EQ) + ("" if level == "proof" else " Sizes are bounded as the property's quantifier states.")})
m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: the source of /repo is compiled to bytecode and interpreted abstractly; it is never imported or executed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
