#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and rules/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "rules"), HERE]
from props import PROPS, NA
from registry import RULES

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        p = dict(p)
        p["anchors"] = {k: v for k, v in p["anchors"].items() if v not in ([], None)}
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in RULES:
        R = RULES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": R["technique"], "level": "other",
                       "level_note": R["note"]})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "The checks need no hooks: they read /repo's source through a compiler driver.", "source_commits": []},
     "notes": "All checks are static: a rustc_private driver dumps the type-checked program (MIR, resolved callees, types) of "
              "/repo's current tree, and each rule decides over that dump. Nothing of /repo is executed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not claimed")

# DESIGN.md
def wrap(t):
    import textwrap
    return textwrap.fill(t, 110, break_long_words=False, break_on_hyphens=False)


with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(HERE, "design_head.md")).read())
    for p in PROPS:
        i = p["id"]
        f.write(f"\n### {i} {p['title']}\n\n" + wrap(p["statement"]) + "\n\n")
        if i not in RULES:
            f.write("Not applicable: " + NA[i] + "\n")
            continue
        R = RULES[i]
        f.write(wrap("*Rules:* " + ", ".join(f"`{m}.{n}`" for m, n in R["rules"]) + ". *Method:* " + R["technique"] + ".") + "\n\n")
        f.write(wrap("*Decided:* " + R["explain"]) + "\n\n" + wrap("*Limits:* " + R["note"]) + "\n\n")
        f.write(wrap("*Beyond tests because:* " + p["why_tests_cant"]) + "\n")
    f.write(open(os.path.join(HERE, "design_tail.md")).read())
    mp = os.path.join(HERE, "matrix.json")
    M = json.load(open(mp)) if os.path.exists(mp) else {}
    f.write("| planted bug | property | caught by | also by |\n|---|---|---|---|\n")
    for k in sorted(M):
        own = [x for x in M[k]["caught"] if x == M[k]["property"]]
        f.write(f"| {k} | {M[k]['property']} | {'yes' if own else 'NO'} | {', '.join(x for x in M[k]['caught'] if x not in own)} |\n")
