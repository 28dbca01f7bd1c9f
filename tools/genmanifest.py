#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl; a property is claimed when NOT in NA."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))+"/.."
NA={}
T={
"C01":"exhaustive fault enumeration over template truncations/substitutions (stateless exploration of the real parser and calculators)",
"C02":"exhaustive environment-fault exploration: every read split and every error offset against the real reader stack",
"C29":"exhaustive preemption-bounded schedule exploration of the instrumented library under a controlled scheduler, plus a free-running race pass",
}
D="bounded exhaustive stateless exploration of the real code against an executable reference model"
NOTE={
"C01":"Every input of the stated template/alphabet bound is run through the real parser and every calculator entry point; trusts the crash/hang monitor and the tolerant-line rules of the model.",
"C02":"Every delivery of the stated streams and every error offset is run; trusts only equality of parse observations.",
"C29":"All schedules up to the stated preemption bound at statement granularity on small shared workloads, compared with sequential results; unsynchronised memory accesses additionally searched by a separate -race pass (not the deciding step). Weak-memory effects are outside the scheduler.",
}
N="Every execution within the stated alphabet and depth is run on the real library and compared with an independent reference model written from the game's rules (mc/ref); values outside the alphabet are not covered; float comparisons use the tolerances stated in DESIGN.md."
checks=[];na=[]
for l in open(here+"/properties.jsonl"):
    i=json.loads(l)["id"]
    if i in NA: na.append({"property":i,"reason":NA[i]}); continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} thorough","technique":T.get(i,D),"level":"model_checking","level_note":NOTE.get(i,N)})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every check drives the public API; C29 instruments a scratch copy at check time. known_findings.txt records the fixed defects."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
