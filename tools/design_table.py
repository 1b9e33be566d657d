#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"bytes-head-only", "empty-by-metadata", "mp4-needs-txt", "pdf-stale-buffer", "bytes-copied", "path-extension",
         "slice-4g", "zip-utf8-names", "zip64-all-deferred", "zip-leading-slash", "ebml-codec-rest-u8", "count-65536"}
rows = []
for f in glob.glob(os.path.join(VERIF, "seeded/*/meta.json")):
    m = json.load(open(f))
    id = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], id, m["needs"]))
t = ["| check | planted bug | needs |", "|---|---|---|"]
for p, id, n in sorted(rows):
    t.append("| %s | %s%s | %s |" % (p, id, " *" if id in FIRST else "", n.replace("|", "/")))
d = os.path.join(VERIF, "DESIGN.md")
s = open(d).read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(t) + "\n<!-- /table -->", s, flags=re.S)
open(d, "w").write(s)
print(len(rows), "rows")
