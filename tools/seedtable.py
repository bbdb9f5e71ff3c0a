"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    rows.append((m["property"], f"| {s} | {m['property']} | {m['needs']} |"))
rows.sort()
text = open(f"{root}/DESIGN.md").read()
head = "<!-- planted bugs -->"
table = f"{head}\n| planted bug | caught by | what it needs |\n|---|---|---|\n" + "\n".join(r[1] for r in rows) + "\n" + head
if head in text:
    text = re.sub(re.escape(head) + ".*" + re.escape(head), lambda _: table, text, flags=re.S)
else:
    text += table + "\n"
open(f"{root}/DESIGN.md", "w").write(text)
