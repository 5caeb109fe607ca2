# Source of /verif/MANIFEST.json: python3 tools/manifest.py > MANIFEST.json
import json,os,re
here=os.path.dirname(os.path.abspath(__file__))+"/.."
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
have=set()
for f in os.listdir(here+"/harness/h"):
    for m in re.finditer(r"^func (C\d+)_",open(here+"/harness/h/"+f).read(),re.M): have.add(m.group(1))
na=json.load(open(here+"/tools/not_applicable.json"))
for k in na: have.discard(k)
T="symbolic execution of the real Go code (SSA) with an SMT solver, counterexamples replayed natively"
N="Bounded: holds for every value, graph and schedule inside the bounds listed per harness in the evidence file; trusts the SSA interpreter, its library models and z3, sampled paths of which are re-run on the native build."
m=dict(version=1,setup_cmd="bash /verif/setup.sh",
 checks=[dict(property=p["id"],quick_cmd=f"bash /verif/check.sh {p['id']} quick",thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",evidence_file=f"evidence/{p['id']}.json",technique=T,level="model_checking",level_note=N) for p in props if p["id"] in have],
 not_applicable=[dict(property=p["id"],reason=na.get(p["id"],"no check built yet")) for p in props if p["id"] not in have])
print(json.dumps(m,indent=1))
