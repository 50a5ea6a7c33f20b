#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import props
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(props.PROPS.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
NOTE = "Held on the executions listed in the evidence file (seeded, counted, two build configurations quick, six thorough); nothing is proved about the others. Trusts the compilers, sanitizers, libstdc++ and the reference model in the driver."
m = dict(version=1, setup_cmd="python3 run.py --setup",
         checks=[dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough", technique=p["technique"], level="exploration", level_note=p.get("note", NOTE)) for i, p in sorted(props.PROPS.items()) if p["sources"]],
         not_applicable=getattr(props, "NOT_APPLICABLE", []),
         notes="No hooks: everything is observed through the public headers. Statements, drivers and bounds: DESIGN.md. Genuine defects found and repaired: KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
