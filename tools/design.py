#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md between the markers from the doc comments of the harnesses: the bounds of each check."""
import re, glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
docs={}
for f in sorted(glob.glob("harness/h/c*.go")):
    for m in re.finditer(r"((?:^//[^\n]*\n)+)^func (C\d\d_\w+)\(\)",open(f).read(),re.M):
        text=[l[2:].strip() for l in m[1].strip().split("\n")]
        text=[l for l in text if not re.match(r"(Shards|Steps|MapRot|Tries|Timeout|Reaches|Env|Tier):",l)]
        t=" ".join(l for l in text if l)
        t=re.sub(r"^"+m[2]+r":?\s*","",t)
        docs.setdefault(m[2][:3],[]).append((m[2],t))
props=[json.loads(l) for l in open("properties.jsonl") if l.strip()]
notes={}
sec=open("tools/notes.md").read()
for m in re.finditer(r"^## (C\d\d)\n(.*?)(?=^## |\Z)",sec,re.M|re.S): notes[m[1]]=m[2].strip()
na=json.load(open("tools/not_applicable.json"))
out=[]
for p in props:
    i=p["id"]
    out.append("### %s %s\n"%(i,p["title"]))
    if i in na: out.append("Not applicable: "+na[i]+"\n")
    for n,t in docs.get(i,[]): out.append("* `%s`: %s"%(n,t))
    if docs.get(i): out.append("")
    if i in notes: out.append(notes[i]+"\n")
s=open("DESIGN.md").read()
a,b="<!-- harnesses -->\n","<!-- end of harnesses -->\n"
s=s[:s.index(a)+len(a)]+"\n"+"\n".join(out)+"\n"+s[s.index(b):]
open("DESIGN.md","w").write(s)
