"""fills the table of planted bugs in DESIGN.md between its header and the next blank line"""
import glob, json, re
T = "|---|---|---|\n"
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s: %s | %s | %s |" % (f.split("/")[-2], d["what_it_breaks"], d["needs"], d.get("caught", d["property"])))
s = open("/verif/DESIGN.md").read()
i = s.index(T) + len(T)
j = s.index("\n\n", i)
open("/verif/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
