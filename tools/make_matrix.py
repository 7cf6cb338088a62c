#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results passed as JSON."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
text = "<!-- matrix -->\n| planted change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /matrix -->"
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
t = t.replace("@@MATRIX@@", "<!-- matrix -->\n<!-- /matrix -->")
t = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _: text, t, flags=re.S)
open(p, "w").write(t)
