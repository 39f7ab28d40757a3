#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib"))
import props  # noqa: E402

ids = [json.loads(ln)["id"] for ln in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    technique, note = props.ABOUT[i]
    checks.append(dict(
        property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=technique, level="model_checking", level_note=note))
na = [dict(property=i, reason="no check has been built for it yet") for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, harnesses in harness/, driver in check and lib/. "
               "No hooks: the harnesses use the packages' exported interfaces.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
