#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by (quick) | needs |", "|---|---|---|"]
for path in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    meta = json.load(open(path, encoding="utf-8"))
    text = lambda v: re.sub(r"\s+", " ", v).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(path))} | {meta['property']} | {text(meta['needs'])} |")
doc = os.path.join(here, "DESIGN.md")
body = open(doc, encoding="utf-8").read()
head = body.split("## 6. Planted bugs")[0].rstrip("\n")
note = ("\n\n## 6. Planted bugs\n\nEach applies to the current tree, passes the repository's tests and is reported by the named property's quick check "
        "with seed 1 (several are reported by other checks as well). Bugs of the workshop that the repository's own tests already find were dropped.\n\n")
open(doc, "w", encoding="utf-8").write(head + note + "\n".join(rows) + "\n")
