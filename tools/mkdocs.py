#!/usr/bin/env python3
"""Authoring: writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=None, theorems=(), na=None, level="proof", technique=None):
    PS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe,
                   note=note, theorems=list(theorems), na=na, level=level, technique=technique))


exec(open(os.path.join(HERE, "tools", "proptext.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the harness crate in .build symlinks /repo/ebi/src and appends one module to lib.rs, so crate-private items are visible to it", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "See DESIGN.md. Every check regenerates its Verus input from /repo's current source, and builds its executable oracle from the same source.",
}
for p in PS:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        c = {"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}", "thorough_cmd": f"python3 tools/check.py {p['id']} --thorough",
             "technique": p["technique"] or "contract-based deductive verification of the extracted real code (Verus)",
             "level": p["level"], "level_note": p["note"]}
        if p["theorems"]:
            c["theorems"] = p["theorems"]
        man["checks"].append(c)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
