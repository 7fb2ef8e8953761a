#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_*.md, the properties, the last evidence and the planted bugs.
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda f:open(V+"/"+f).read()
P=[json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
N=json.loads(rd("tools/notes.json"))
txt={}
for b in rd("tools/design_props.md").split("\n@"):
    b=b.lstrip("@"); i,t=b.split("\n",1); txt[i.strip()]=t.strip()
out=[rd("tools/design_text.md"),"\n## 2. The properties\n"]
for p in P:
    i=p["id"]; out.append(f"\n### {i} {p['title']}\n")
    if i not in N["claimed"]:
        out.append("\nNot claimed: "+N["na"].get(i,"no contract within reach decides it yet")+"\n"); continue
    out.append("\n"+txt[i]+"\n\n*Level*: "+N["claimed"][i]+"\n")
    f=V+f"/evidence/{i}.json"
    if os.path.exists(f):
        c=json.load(open(f))["coverage"]
        fs=", ".join(f"`{k}`" for k in sorted(c["functions_under_contract"]))
        out.append(f"\n*Functions with obligations of this property*: {fs}.\n")
        out.append(f"*Size*: {c['obligations']} obligations, about {max(1,round(json.load(open(f))['wall_s']))} s.\n")
out.append("\n## 3. Cost\n\nA check takes 1–40 s on 8 cores (loading /repo's packages included). The proofs are unbounded in both tiers; the thorough command has every obligation that z3 discharged decided again by cvc5 (a disagreement fails the check; the evidence counts the confirmations).\n\n")
out.append(rd("tools/design_tail.md").split("## 6.")[0])
out.append("## 5. Planted bugs\n\nEach breaks one property, compiles, passes the tests, and has a demonstration. All are caught by the check of their property, with a failing input found by the replay unless noted.\n\n| id | property | needs |\n|---|---|---|\n")
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |\n")
out.append("\n## 6."+rd("tools/design_tail.md").split("## 6.")[1])
open(V+"/DESIGN.md","w").write("".join(out))
