#!/usr/bin/env python3-vt
"""replay.py FILE: run the inputs recorded in a replay file against the installed package again"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
jobs = []
for v in d["violations"]:
    print("lemma:", v["lemma"])
    for f in v["failed_obligations"]:
        print("  obligation: %s: %s" % (f["label"], f["why"][:600]))
    if "input" in v:
        jobs.append(dict(lemma=v["lemma"], cfg=v["cfg"], points=[v["input"]], n=0, seed=1, literals=[], seconds=20))
if not jobs:
    print("no failing input was found for these obligations")
    sys.exit(1)
r = subprocess.run([os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python"), os.path.join(HERE, "engine", "concrete.py")],
                   input=json.dumps(jobs), capture_output=True, text=True, cwd="/tmp", env=dict(os.environ, PYTHONHASHSEED="0"))
out = json.loads(r.stdout)
bad = False
for j, o in zip(jobs, out):
    bad = bad or bool(o.get("found"))
    print("%s at %s: %s" % (j["lemma"], json.dumps(j["points"][0]), "fails: %s" % o["fails"][0] if o.get("found") else "holds now"))
sys.exit(1 if bad else 0)
