#!/usr/bin/env python3
"""Nothing is kept between checks (each builds its own harness from /repo):
this only verifies that the tools are there."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "clang++", "pkg-config"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
json.load(open(os.path.join(here, "MANIFEST.json")))
os.makedirs(os.path.join(here, "build"), exist_ok=True)
os.makedirs(os.path.join(here, "out"), exist_ok=True)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("ok")
