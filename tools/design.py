#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: the spaces (from evidence/ of a run) and the planted bugs (from a log of matrix.sh)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{here}/DESIGN.md").read()
def put(name, text):
    global s
    a, b = f"<!-- {name} -->\n", f"<!-- end {name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + s[j:]
out = ""
for f in sorted(os.listdir(f"{here}/evidence")):
    d = json.load(open(f"{here}/evidence/{f}")); c = d["coverage"]
    if d["tier"] != "quick": continue
    out += f"**{d['property']}** {c['traces_validated_against_impl']:,} executions compared, {c['states']:,} distinct results, {c['transitions']:,} transitions\n"
    for sp in c["spaces"]:
        b = sp["bounds"]
        b = b if len(b) < 240 else b[:230].rsplit(" ", 1)[0] + " …"
        out += f"- `{sp['name']}` ({sp['executions']:,}): {b.replace('<', '&lt;')}\n"
    out += "\n"
put("spaces", out)
if len(sys.argv) > 1:
    rows = {}
    for log in sys.argv[1:]:
        for l in open(log):
            m = re.match(r"(\S+) (C\d\d) exit=(\d+) (\d+)s", l)
            if m and os.path.exists(f"{here}/seeded/{m[1]}"): rows[m[1]] = (m[2], m[3])
    t = "| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
    for id in sorted(os.listdir(f"{here}/seeded")):
        m = json.load(open(f"{here}/seeded/{id}/meta.json"))
        r = rows.get(id)
        t += f"| {id} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {r[0] + ' quick' if r and r[1] == '1' else 'missed' if r else 'not run'} |\n".replace("\n|", "|")
    put("planted", t)
open(f"{here}/DESIGN.md", "w").write(s)
