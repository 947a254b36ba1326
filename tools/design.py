#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (tables between markers)."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def table():
    out = []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("mc.checks." + p["id"].lower())
        out.append(f"**{p['id']} {p['title']}**")
        out.append(f"- specified/oracle: {(m.__doc__ or '').strip()} {getattr(m, 'ORACLE', '')}".rstrip())
        out.append(f"- enumerated (quick): {m.BOUNDS['quick']}")
        out.append(f"- [thorough]: {m.BOUNDS['thorough']}")
        out.append(f"- assumes: {'; '.join(m.ASSUME)}")
        out.append(f"- tests cannot: {p['why_tests_cant']}")
        out.append("")
    return "\n".join(out)


def findings():
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    for line in open(p):
        e = json.loads(line)
        if e["status"] == "fixed":
            out.append(f"* {e['commit']} ({e['property']}): {e['what']}")
    return "\n".join(out)


def seeded():
    rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    c = os.path.join(V, "tools", "caught.json")
    caught = json.load(open(c)) if os.path.exists(c) else {}
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        rows.append(f"| {n}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {', '.join(caught.get(n, [])) or '-'} |")
    return "\n".join(rows)


p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for name, f in (("TABLE", table), ("FINDINGS", findings), ("SEEDED", seeded)):
    body = f"<!-- {name} -->\n{f()}\n<!-- /{name} -->"
    if f"@@{name}@@" in s:
        s = s.replace(f"@@{name}@@", body)
    else:
        s = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda m: body, s, flags=re.S)
open(p, "w").write(s)
