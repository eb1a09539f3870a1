#!/usr/bin/env python3
"""prints the table of planted bugs (from seeded/*/meta.json) for DESIGN.md"""
import json, pathlib
print("| planted bug | what it does | what it needs |\n|---|---|---|")
for d in sorted(pathlib.Path(__file__).resolve().parent.parent.joinpath("seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    print("| %s | %s | %s |" % (d.name, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
