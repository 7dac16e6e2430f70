#!/usr/bin/env python3
"""Writes ../DESIGN.md: the hand-written head plus sections generated from the property table, the checks'
sources, the findings and the record of planted bugs."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
out = [open(f"{HERE}/design_head.md").read().rstrip("\n"), "", "## The properties", ""]
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
notes = {c["property"]: c["level_note"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]}
times = {}
if os.path.exists(f"{HERE}/times.json"):
    times = json.load(open(f"{HERE}/times.json"))
for p in props:
    src = open(f"{ROOT}/harness/src/bin/{p['id'].lower()}.rs").read()
    laws = re.findall(r'Law::new\("([^"]+)", ([0-9_]+), \w+\)(\.rng\(\))?', src)
    rule = re.search(r'rule:\s*"((?:[^"\\]|\\.)*)"', src)
    ass = re.search(r"assumptions:\s*&\[(.*?)\]\s*,\s*\n?\s*laws", src, re.S)
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    out.append(f"* generated: {p['quantifier']['text']}")
    out.append(f"* decided by {notes.get(p['id'], '')}")
    out.append("* laws (quick cases; thorough 20 times as many): " + ", ".join(f"`{n}` {int(c.replace('_', '')):,}" + (" (random divisions)" if r else "") for n, c, r in laws) + (f"; about {times[p['id']]} s" if p["id"] in times else ""))
    if rule:
        out.append(f"* non-trivial: {rule.group(1)}")
    if ass:
        a = re.findall(r'"((?:[^"\\]|\\.)*)"', ass.group(1))
        if a:
            out.append("* bounds and assumptions: " + "; ".join(a))
    out.append(f"* why the tests cannot settle it: {p['why_tests_cant']}")
    out.append("")
out += ["## Defects found", "", "Repaired in `/repo` (one `fix:` commit each; the check that found it reports it again if it returns):", ""]
F = [json.loads(l) for l in open(f"{ROOT}/known_findings.jsonl") if l.strip()]
for f in F:
    if f["status"] == "fixed":
        out.append("* " + f["record"][len("fixed: property="):])
out += ["", "Known findings, recorded and not repaired:", ""]
for f in F:
    if f["status"] == "known":
        out.append(f"* {f['property']} `{f['key']}`: {f['what']}")
out += ["", "## Planted bugs", "", "| id | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(f"{HERE}/caught.json")) if os.path.exists(f"{HERE}/caught.json") else {}
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, '?')} |")
if os.path.exists(f"{HERE}/mutation.md"):
    out += ["", open(f"{HERE}/mutation.md").read().rstrip("\n")]
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
