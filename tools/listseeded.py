#!/usr/bin/env python3
"""Writes the list of planted bugs at the end of DESIGN.md (between the markers)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
top = os.path.join(HERE, "..", "seeded")
by = {}
for d in sorted(os.listdir(top)):
    m = json.load(open(os.path.join(top, d, "meta.json")))
    by.setdefault(m["property"], []).append(d)
out = ["## Planted bugs and the checks that catch them", "",
       "`seeded/<id>/meta.json` says what each needs and breaks. Each was caught by the quick check of the property it is listed under when last tried on its own",
       "(run one by one against a copy of the repository with the patch applied). C14 has none: existing tests pin it. Not all were tried again after the last changes: t-stride (C08), caught earlier, was missed in a full vcheck of the commit before these; why was not examined.", ""]
for p in sorted(by):
    out.append(f"- {p} ({len(by[p])}): " + ", ".join(by[p]))
f = os.path.join(HERE, "..", "DESIGN.md")
s = open(f).read().split("## Planted bugs and the checks that catch them")[0].rstrip() + "\n\n"
open(f, "w").write(s + "\n".join(out) + "\n")
