#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs the check missed when they were planted, and what was added for them
MISSED = {
    "c23-deeper-structure": "two nodes altered; a longest difference has to be reported",
    "c23-last-child-skipped": "two nodes altered; a longest difference has to be reported",
    "c04-small-node-cached": "nodes hashed on their own and put under others",
    "c01-zeros-left": "keys of extreme digits, combs",
    "c05-returned-value-cut": "value lengths up to 1000",
    "c22-depths-in-a-byte": "combs and full levels",
    "c24-long-way": "combs and chains to the last nibble",
    "c23-longest-mod-32": "differences at keys of up to 60 nibbles",
    "c21-equal-by-hash": "tries with nodes replaced by their own hashes",
    "c03-value-cut": "values around 65536 bytes",
    "c01-split-cuts-value": "long values in the runs with long keys",
    "c06-hash-in-first-slot": "combs whose keys part to the first and the last slot in turn",
    "c02-zeros-merged": "long keys of zeros or fifteens, short keys of four nibbles",
    "c16-length-in-a-byte": "byte strings of up to 65569 bytes",
    "c18-length-in-a-byte": "byte strings of up to 65569 bytes",
    "c20-value-cut": "byte strings of up to 65569 bytes",
    "c03-remembered-by-tail": "thread-local storage of the analysed code",
}
rows = ["| planted bug | caught by | needs | |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], "missed at first; added: " + MISSED[i] if i in MISSED else ""))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
