#!/usr/bin/env python3
"""Fill the tables of DESIGN.md between markers from known-findings.json and seeded/*/meta.json (+ tools/caught.json)."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    p = os.path.join(H, "DESIGN.md")
    s = open(p).read()
    f = "\n".join("* %s `%s` %s" % (x["property"], x.get("commit", "known"), x["what"]) for x in json.load(open(os.path.join(H, "known-findings.json")))["findings"])
    c = json.load(open(os.path.join(H, "tools", "caught.json")))
    rows = ["| Bug | Property | What breaks | Needs | Caught by |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        n = os.path.basename(os.path.dirname(m))
        rows.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), c.get(n, "not yet run")))
    for mark, t in (("FINDINGS", f), ("BUGS", "\n".join(rows))):
        b, e = "<!-- %s -->" % mark.lower(), "<!-- end %s -->" % mark.lower()
        new = b + "\n" + t + "\n" + e
        if "@%s@" % mark in s:
            s = s.replace("@%s@" % mark, new)
        else:
            s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: new, s, flags=re.S)
    open(p, "w").write(s)


main()
