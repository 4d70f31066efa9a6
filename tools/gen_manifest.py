#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if s:
        sans = sorted({p.get("san", "asan") for p in s["parts"]})
        names = {"asan": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer", "none": "no sanitizer"}
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=s.get("technique", "runtime monitoring: random histories against a "
                            "reference model, under " + " and ".join(names[x] for x in sans)),
            level=s.get("level", "exploration"),
            level_note=s.get("level_note", "Held on the generated executions only; assumes the "
                             "compiler and sanitizers, and the reference model in harness/.")))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Header-only library: every check compiles its harness against /repo's working "
               "tree. No hooks in /repo are needed; known and fixed defects are in known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
