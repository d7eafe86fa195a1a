#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*.json-like records below."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, spec, technique=None, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  level_note=level_note, spec=spec, technique=technique, claim=claim, reason=reason))
exec(open(os.path.join(here, "props.py")).read())
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"[.;](?=\s|$)", p["statement"])) <= 5, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's working tree unmodified, out of tree, with AddressSanitizer", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"] or "TLA+ specification %s checked with TLC; scripts executed on the real code, recorded traces validated against the specification by TLC" % p["spec"],
                 "level": "model_checking", "level_note": p["level_note"]} for p in P if p["claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
     "notes": "See DESIGN.md; known findings and repaired defects: known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
