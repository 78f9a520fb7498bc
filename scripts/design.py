#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, `sa meta`, properties.jsonl and seeded/*/meta.json."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
meta = {}
for l in subprocess.run([V + "/bin/sa", "meta"], capture_output=True, text=True, check=True).stdout.splitlines():
    d = {k.lower(): v for k, v in json.loads(l).items()}; meta[d["id"]] = d
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds, mut, good = {}, {}, {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((f.split("/")[-2], d["what_it_breaks"], d["needs"]))
for f in glob.glob(V + "/scripts/mut/*.txt"):
    for m in re.finditer(r"^=== (\S+) (bad|good) ", open(f).read(), re.M):
        for p in m.group(1).split(","):
            t = mut if m.group(2) == "bad" else good
            t[p] = t.get(p, 0) + 1
notes = {}
cur = None
for l in open(V + "/scripts/design_notes.md"):
    m = re.match(r"## (C\d\d)", l)
    if m: cur = m.group(1); notes[cur] = ""
    elif cur: notes[cur] += l
o = [open(V + "/scripts/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
for id in sorted(props):
    p = props[id]
    o.append("### %s %s" % (id, p["title"])); o.append("")
    if id in na:
        o.append("Not applicable: " + na[id]); o.append(""); continue
    m = meta[id]
    o.append("*Method*: " + m["tech"] + "." if m.get("tech") else "*Method*: static analysis.")
    o.append(""); o.append("*Rule*: " + m["rule"].rstrip(".") + "."); o.append("")
    o.append("*Ranges over*: " + p["quantifier"]["text"].rstrip(".") + ". *Why tests cannot settle it*: " + p["why_tests_cant"].rstrip(".") + "."); o.append("")
    if m.get("assume"): o.append("*Assumes*: " + "; ".join(m["assume"]) + "."); o.append("")
    if m.get("note"): o.append("*Limits and trust*: " + m["note"].rstrip(".") + "."); o.append("")
    if notes.get(id, "").strip(): o.append(notes[id].strip()); o.append("")
    s = seeds.get(id, [])
    t = "*Exercised by*: %d mutants that must be reported, %d rewritings that must not be" % (mut.get(id, 0), good.get(id, 0))
    if s: t += "; planted bugs " + ", ".join(x[0] for x in s)
    o.append(t + "."); o.append("")
o += ["## Planted bugs and the checks that catch them", "",
      "Every row is `seeded/<id>`; the check of the property named reports it (exit 1). `bash scripts/…` is not needed: apply the patch, run `./check <property>`.", "",
      "| bug | caught by | what breaks | what it needs to show |", "|---|---|---|---|"]
for p in sorted(seeds):
    for n, b, need in seeds[p]:
        o.append("| %s | %s | %s | %s |" % (n, p, b.replace("|", "/"), need.replace("|", "/")))
o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
