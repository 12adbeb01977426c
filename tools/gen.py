#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    CHECKS.append(dict(property=id, quick_cmd=f"bash check.sh {id} quick", thorough_cmd=f"bash check.sh {id} thorough",
        technique=technique, level="other", level_note=note))
CHECKS = []
exec(open(os.path.join(here, "tools", "props.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = []
for id, title, statement, over, text, why, files, mech, reason in NA:
    with open(os.path.join(here, "properties.jsonl"), "a") as f:
        f.write(json.dumps(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + "\n")
    na.append(dict(property=id, reason=reason))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=CHECKS, not_applicable=na,
    notes="All checks are one static analyser (analyzer/, Go, golang.org/x/tools/go/ssa) run by check.sh on /repo's current source; nothing of /repo is executed. See DESIGN.md."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
