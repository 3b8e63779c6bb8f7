#!/usr/bin/env python3
"""Writes DESIGN.md from doc/head.md, the planted bugs and doc/tail.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f"{root}/doc/head.md").read().rstrip(), ""]
missed = {}
p = f"{root}/doc/missed.txt"
if os.path.exists(p):
    for line in open(p):
        if line.strip():
            k, _, v = line.strip().partition(" ")
            missed[k] = v
bugs = sorted(os.listdir(f"{root}/seeded"))
out += ["## Planted bugs", "",
        f"{len(bugs)} changes, each of which compiles, passes the existing tests and breaks one property, written from the statements",
        "and the code. The check of the property named catches the change in the quick tier unless noted. Where a note says",
        "\"first missed\", the check was strengthened afterwards in a general way (the generator or the oracle, not the instance).", "",
        "| Change | Caught by | Needs | Note |", "|---|---|---|---|"]
for b in bugs:
    m = json.load(open(f"{root}/seeded/{b}/meta.json"))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {missed.get(b, '')} |")
out += ["", open(f"{root}/doc/tail.md").read().rstrip(), ""]
open(f"{root}/DESIGN.md", "w").write("\n".join(out))
