#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from `bin/sa meta` and properties.jsonl."""
import json, os, subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([R+"/build.sh"])
meta={}
for l in subprocess.check_output([R+"/bin/sa","meta"],text=True).splitlines():
    d=json.loads(l); meta[d["id"]]=d
NA={
"C40":"Wall-clock latency depends on the scheduler and the clock; no static rule bounds it (that the wait is for exactly the remaining time is part of C06).",
"C41":"A probability over hash seeds and inputs: a sizing formula in floating point, no static argument in reach bounds it.",
"C42":"Floating-point numerics (decimal rounding, logarithms): the correctness is about concrete rounding behaviour of float64 values, not decidable by dataflow over the source.",
"C43":"A distribution claim about a seeded generator; static analysis sees neither uniformity nor unpredictability.",
"C44":"Round-trip byte equality is a fact about the deflate codec of the standard library; the static part (all data is copied, errors reported, archives finalised) is in C25, C26 and C31.",
"C45":"A history property across two critical sections (flush removes, then fires): which of the two a concurrent Stop meets is decided at run time; the static part (every section is atomic, Stop reports what its removal found) is in C07 and C09.",
}
checks=[];na=[]
for l in open(R+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if i in meta:
        m=meta[i]
        checks.append(dict(property=i,quick_cmd="./check "+i,thorough_cmd="./check "+i,technique=m["tech"] or "static analysis",level=m["level"] or "other",level_note=m["note"]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"No check registered for it yet.")))
json.dump(dict(version=1,setup_cmd="./build.sh",checks=checks,not_applicable=na,notes="All checks are one static analyser (sa/) run on /repo's current source; see DESIGN.md."),open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not claimed")
