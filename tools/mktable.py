#!/usr/bin/env python3
"""mktable.py LOG...: write the table of DESIGN.md section 7 from the output of tools/trybug.sh."""
import json, re, sys
rows = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) \[(C\d+)\]: exit (\d+)\s*(.*)", l)
        if not m: continue
        rules = re.findall(r"replay=\S*/C\d+-(\w+)-[0-9a-f]+\.txt", m[4]) or re.findall(r"(\w+): ", m[4])[:1]
        rows[m[1]] = (m[2], int(m[3]), rules[0] if rules else "?")
out = ["| planted bug | what it needs to show | check | result |", "|---|---|---|---|"]
for i in sorted(rows):
    p, rc, rule = rows[i]
    try: meta = json.load(open("/verif/seeded/%s/meta.json" % i))
    except OSError: continue
    needs = meta["needs"].replace("|", "/").replace("\n", " ")
    out.append("| %s | %s | %s | %s |" % (i, needs, p, "caught: `%s`" % rule if rc == 1 else "MISSED"))
s = open("/verif/DESIGN.md").read()
head = s.index("## 7. ")
s = s[:head] + "## 7. Which check catches which planted bug\n\n(written by `tools/mktable.py` from `tools/trybug.sh 20`: each check ran for 20 s)\n\n" + "\n".join(out) + "\n"
open("/verif/DESIGN.md", "w").write(s)
print(len(rows), sum(r[1] != 1 for r in rows.values()))
