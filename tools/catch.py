"""Prints the table of planted bugs of DESIGN.md (from seeded/*/meta.json)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
by = {}
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    by.setdefault(m["property"], []).append(d[len(m["property"]) + 1:] if d.lower().startswith(m["property"].lower() + "-") else d)
for p in sorted(by):
    print("| %s | %s |" % (p, ", ".join("`%s`" % x for x in by[p])))
