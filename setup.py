#!/usr/bin/env python3
"""setup_cmd: compiles the harness once, to warm the Go build cache."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import run
conf = json.load(open(os.path.join(V, "checks.json")))
work = tempfile.mkdtemp(prefix="cxo-setup-")
try:
    seen = set()
    for i, c in conf.items():
        if i.startswith("_"):
            continue
        for part in c["parts"]:
            k = (part["pkg"], bool(part.get("race")))
            if k in seen:
                continue
            seen.add(k)
            run.build(c, part, work)
            print("built", k, flush=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
