"""Writes the table of planted bugs into DESIGN.md (development aid; run from /verif)."""
import glob, json, os, re
rows = ["| bug | property (its check catches it) | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} |")
s = open("DESIGN.md").read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
block = b + "\n" + "\n".join(rows) + "\n" + e
s = s.replace("<SEEDS>", block) if "<SEEDS>" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: block, s, flags=re.S)
open("DESIGN.md", "w").write(s)
