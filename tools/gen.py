#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import P, NA
root = os.path.dirname(here)
built = set(open(os.path.join(here, "built.txt")).read().split())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])), ensure_ascii=False) + "\n")
    for id, title, st, over, text, reason, files in NA:
        f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=[over], text=text),
            why_tests_cant="It quantifies over all of these; tests sample a few.",
            anchors=dict(files=files, mechanism=[])), ensure_ascii=False) + "\n")
NOTE = ("Decided from the source on every run, for all inputs at once; nothing of the module is executed. Trusts the analyser in "
        "/verif/checker, go/types, and its models of the few library functions the code calls; int arithmetic is taken as unbounded "
        "(narrower integer types wrap exactly), and caller-supplied callbacks as functions of their arguments.")
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[],
         notes="All checks are static analysis by one Go program (/verif/checker, standard library only). 'thorough' decides the property in addition for the sources of six further build configurations (linux/386, darwin, freebsd, windows, js/wasm, appengine). known_findings.txt lists the repaired defects; no finding is open.")
for p in P:
    if p["id"] in built:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"bash tools/check.sh {p['id']} quick",
            thorough_cmd=f"bash tools/check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
            technique=p["tech"], level="other", level_note=p["note"] or NOTE))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
for id, title, st, over, text, reason, files in NA:
    m["not_applicable"].append(dict(property=id, reason=reason))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
