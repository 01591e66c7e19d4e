#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay consistent)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
FIELDS=["src/field/tweedledee_base.rs","src/field/tweedledum_base.rs","src/field/pallas_base.rs","src/field/vesta_base.rs","src/field/bls12_377_base.rs","src/field/bls12_377_scalar.rs"]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props_body.py")).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
