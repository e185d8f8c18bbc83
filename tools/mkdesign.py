#!/usr/bin/env python3
"""write DESIGN.md: fixed text, and per property the technique, rules, findings and planted bugs as they are recorded"""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
T = json.load(open(H + "/tools/techniques.json"))
N = json.load(open(H + "/tools/design_notes.json"))
kf = [l.strip() for l in open(H + "/known_findings.txt") if l.strip() and not l.startswith("#")]
seeds = {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
out = [N["head"].rstrip(), ""]
out.append("## Properties\n")
out.append("| id | title | decided by |\n|---|---|---|")
for p in props:
    out.append("| %s | %s | %s |" % (p["id"], p["title"], T[p["id"]][0].split(":")[0].split(";")[0] if p["id"] in T else "not applicable"))
out.append("")
for p in props:
    i = p["id"]
    if i not in T:
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Method.* %s.\n" % T[i][0].rstrip("."))
    out.append("*Reach.* %s.\n" % T[i][1].rstrip("."))
    src = open(H + "/rules/%s.py" % i).read()
    names = dict(re.findall(r'\b(R\d\w?)\b', "") or [])
    for m in re.finditer(r'^\s*(R\d?(?:, R\d)+)\s*=\s*(.+)$', src, re.M):
        ks = [x.strip() for x in m.group(1).split(",")]
        vs = re.findall(r'"([^"]+)"', m.group(2))
        names.update(zip(ks, vs))
    for m in re.finditer(r'^\s*(R\d?)\s*=\s*"([^"]+)"$', src, re.M):
        names[m.group(1)] = m.group(2)
    rules = re.findall(r'ctx\.rule\((?:"([^"]+)"|(\w+)), "((?:[^"\\]|\\.)*)"', src)
    if rules:
        out.append("*Rules* (an obligation is one instance; the report names the construct):\n")
        for a, b, t in rules:
            out.append("- `%s`: %s" % (a or names.get(b, b), t.replace('\\"', '"')))
        out.append("")
    if i in N["notes"]:
        out.append(N["notes"][i].rstrip() + "\n")
    k = [l for l in kf if ("property=%s " % i) in l]
    if k:
        out.append("*Genuine defects found by this check:*\n")
        for l in k:
            kind, rest = l.split(":", 1)
            rest = rest.strip().replace("property=%s " % i, "", 1)
            out.append("- %s: %s" % ("repaired in" if kind == "fixed" else "known finding", rest.split(" :: ")[-1] if kind == "known" else rest))
        out.append("")
    if i in seeds:
        out.append("*Planted bugs* (all reported by this check):\n")
        for s, w, n in seeds[i]:
            out.append("- `%s`: %s (manifests with %s)" % (s, w, n))
        out.append("")
out.append("## Not applicable\n")
for p in props:
    if p["id"] not in T:
        out.append("- **%s %s**: %s" % (p["id"], p["title"], T.get("NA", {}).get(p["id"], "No sound static rule has been built for it yet; it is not claimed.")))
out.append("")
out.append(N["tail"].rstrip())
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
