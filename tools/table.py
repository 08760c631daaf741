"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} |")
path = root + "/DESIGN.md"
lines = open(path).read().split("\n")
i = lines.index("| planted bug | caught by | needs |") + 2
j = i
while j < len(lines) and lines[j].startswith("|"):
    j += 1
lines[i:j] = rows
open(path, "w").write("\n".join(lines))
print(len(rows), "rows")
