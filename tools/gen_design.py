#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md (between the markers)"""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = json.load(open(R + "/tools/not_applicable.json"))
man = {c["property"] for c in json.load(open(R + "/MANIFEST.json"))["checks"]}
t = []
for p in props:
    i = p["id"]; f = "%s/vc/specs/%s.py" % (R, i)
    if i not in man: 
        if i not in NA: t.append("### %s %s\nnot claimed: check not built yet\n" % (i, p["title"]))
        continue
    s = open(f).read()
    units = re.findall(r'^def (unit_\w+)\(U.*?\):\s*\n\s+"""(.*?)"""', s, re.M | re.S)
    ass = re.search(r"^ASSUMPTIONS = (\[.*?\])\n", s, re.M | re.S); trusted = re.search(r"^TRUSTED = (\[.*?\])\n", s, re.M | re.S)
    doc = re.match(r'"""(.*?)"""', s, re.S).group(1)
    t.append("### %s %s\n%s\n" % (i, p["title"], doc.strip()))
    for n, d in units: t.append("* `%s`: %s" % (n, " ".join(d.split())))
    try: a = eval(ass.group(1)) if ass else []
    except Exception: a = [ass.group(1)]
    try: a += eval(trusted.group(1)) if trusted else []
    except Exception: pass
    if a: t.append("* assumed: " + "; ".join(a))
    ev = R + "/evidence/%s.json" % i
    t.append("")
na = "\n".join("* %s: %s" % (p["id"], NA[p["id"]]) for p in props if p["id"] in NA)
known = json.load(open(R + "/known_findings.json"))
fx = "\n".join("* " + k["line"] if k["status"] == "fixed" else "* known, not repaired: property=%s %s" % (k["property"], k["what"]) for k in known)
rs = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
sd = ["| change | property | needs | result |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    sd.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], rs.get(n, "not run yet")))
parts = {"TABLE": "\n".join(t), "NA": na, "FIXED": fx, "SEEDS": "\n".join(sd)}
s = open(R + "/tools/DESIGN.in.md").read()
for k, v in parts.items(): s = s.replace("@@%s@@" % k, v)
open(R + "/DESIGN.md", "w").write(s)
