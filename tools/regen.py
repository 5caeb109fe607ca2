#!/usr/bin/env python3
"""Rewrites properties.jsonl, tools/not_applicable.json (only the ids whose check is not built) and MANIFEST.json."""
import json, re, glob, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
open("properties.jsonl","w").write(subprocess.check_output(["python3","tools/props.py"],text=True))
ids=[json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
have=set()
for f in glob.glob("harness/h/c*.go"):
    have|=set(re.findall(r"^func (C\d\d)_",open(f).read(),re.M))
try: na=json.load(open("tools/not_applicable.json"))
except Exception: na={}
na={i: na.get(i,"check not built yet") for i in ids if i not in have}
json.dump(na,open("tools/not_applicable.json","w"),indent=1)
open("MANIFEST.json","w").write(subprocess.check_output(["python3","tools/manifest.py"],text=True))
subprocess.check_call(["python3","tools/design.py"])
print("claimed",sorted(have),"na",sorted(na))
