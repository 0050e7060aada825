#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md between its markers, from evidence/ (of a quick run of every
check), known_findings.jsonl and seeded/. Nothing reads them."""
import glob, json, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ev = sys.argv[1] if len(sys.argv) > 1 else "evidence"
titles = {d["id"]: d["title"] for d in map(json.loads, open("properties.jsonl"))}

def k(n):
    return f"{n // 1000}k" if n >= 1000 else str(n)

rows = ["| property | arm | cases | non-trivial | s | what a case is |", "| --- | --- | --- | --- | --- | --- |"]
for p, title in titles.items():
    c = json.load(open(f"{ev}/{p}.json"))["coverage"]
    head = f"{p} {title}"
    for a in c["arms"]:
        rule = a["rule"].split("; non-trivial")[0].replace("|", "\\|")
        n = a["distinct_nontrivial"] or a["nontrivial_not_deduplicated"]
        rows.append(f"| {head} | {a['arm']} | {k(a['planned'])} | {k(n)} | {a['wall_s']:.0f} | {rule} |")
        head = ""
fixed = {}
for d in map(json.loads, filter(str.strip, open("known_findings.jsonl"))):
    fixed.setdefault((d["property"], d["commit"]), []).append(d["what"].split(" ", 3)[3])
find = ["| property | commit | what failed |", "| --- | --- | --- |"]
for (p, c), w in sorted(fixed.items()):
    find.append(f"| {p} | {c} | {'; '.join(w)} |".replace("`|`", "bar"))
seed = ["| planted bug | needs | breaks | caught by |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    seed.append(f"| {f.split('/')[1]} | {d['needs']} | {d['what_it_breaks']} | {d['property']} |".replace("\n", " "))
s = open("DESIGN.md").read()
for name, t in ("PROPS", rows), ("FINDINGS", find), ("SEEDED", seed):
    s = re.sub(f"<!-- {name} -->.*?<!-- /{name} -->", lambda m: f"<!-- {name} -->\n" + "\n".join(t) + f"\n<!-- /{name} -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
