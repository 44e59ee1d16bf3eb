#!/usr/bin/env python3
"""Writes DESIGN.md (run: python3 meta/design.py) from the texts below, the properties, notes, findings and seeded changes."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
PBT = "property-based testing"
import importlib.util
def load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(here, n + ".py")); m = importlib.util.module_from_spec(s); return s, m
props = {p["id"]: p for p in map(json.loads, open(os.path.join(root, "properties.jsonl")))}
man = json.load(open(os.path.join(root, "MANIFEST.json"))); kf = json.load(open(os.path.join(root, "known_findings.json")))
T = {}       # id: (how it is decided: generator and oracle, what the tests cannot reach, corrected false alarms and the limits of the domain)
exec(open(os.path.join(here, "design_text.py")).read())
seeded = {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))) if os.path.isdir(os.path.join(root, "seeded")) else []:
    p = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(p): seeded.setdefault(json.load(open(p))["property"], []).append((d, json.load(open(p))))
o = [HEAD]
ca = {}
for c in man["checks"]: ca[c["property"]] = c
o.append("## Properties\n")
for i in sorted(props):
    p = props[i]; o.append("### %s %s\n" % (i, p["title"]))
    if i not in ca:
        na = [x for x in man["not_applicable"] if x["property"] == i]
        o.append("Not claimed: %s\n" % (na[0]["reason"] if na else "no check.")); continue
    t = T.get(i, ("", "", ""))
    src = open(os.path.join(root, "checks", i.lower() + ".py")).read(); r = re.search(r"rule = \(?(.*?)\)?\n    def strategy", src, re.S)
    rule = " ".join(re.findall(r'"((?:[^"\\]|\\.)*)"', r.group(1))).replace('\\"', '"') if r else ""; rule = re.sub(r"\s+", " ", rule)
    q = re.search(r"quick = (\d+); thorough = (\d+)", src)
    o.append("*Check:* `checks/%s.py` (%s quick / %s thorough cases).\n" % (i.lower(), q.group(1) if q else "?", q.group(2) if q else "?"))
    if t[0]: o.append("*Oracle.* %s\n" % t[0])
    if rule: o.append("*%s\n" % ("Cases.* " + (lambda r: r[0].upper() + r[1:].rstrip(".") + ".")(rule.replace("cases: ", "", 1))))
    if t[1]: o.append("*Beyond the tests.* %s\n" % t[1])
    o.append("*Bounds.* %s.%s\n" % (NOTE.get(i, "").rstrip(".")[:1].upper() + NOTE.get(i, "").rstrip(".")[1:], " " + t[2] if t[2] else ""))
    k = [x for x in kf["findings"] if x["property"] == i]
    if k: o.append("*Known findings (open defects of ecmwf/fdb).* " + " ".join("`%s`: %s." % (x["id"], x["what"].rstrip(".")) for x in k) + "\n")
    fx = [re.sub(r"^fixed: property=\S+ ", "", x) for x in kf["fixed"] if "property=%s " % i in x]
    if fx: o.append("*Defects found and repaired.* " + "; ".join("%s (%s)" % (x.split(" ", 1)[1].rstrip("."), x.split(" ", 1)[0]) for x in fx) + ".\n")
    s = seeded.get(i, [])
    if s: o.append("*Planted changes.* " + "; ".join("`%s` — %s" % (d, "caught" if CAUGHT.get(d, True) is True else CAUGHT[d]) for d, m in s) + ".\n")
o.append("## Planted changes\n\nEach was written from the property and the code, confirmed to build, to pass the stable tests and to fail its demonstration; `meta/trybug.sh ID` repeats that and runs the check.\n\n| change | property | needs | result |\n|---|---|---|---|")
for i in sorted(seeded):
    for d, m in seeded[i]: o.append("| %s | %s | %s | %s |" % (d, i, m["needs"].replace("|", "/"), "caught" if CAUGHT.get(d, True) is True else CAUGHT[d]))
o.append("")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(o))
print("DESIGN.md: %d properties, %d checks, %d seeded" % (len(props), len(ca), sum(map(len, seeded.values()))))
