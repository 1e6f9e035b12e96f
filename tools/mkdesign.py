#!/usr/bin/env python3
"""Rewrite the generated tables of DESIGN.md (corpora and planted bugs)."""
import glob, importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = []
    for f in sorted(glob.glob(V + "/tools/mutants/*.py")):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        bugs = [c for c in m.CASES if c[2]]
        ps = sorted({p for c in bugs for p in c[2]})
        rows.append("| %s | %s | %d | %d |" % (os.path.basename(f)[:-3], " ".join(ps), len(bugs), len(m.CASES) - len(bugs)))
    seeds = []
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(f))
        seeds.append("| %s: %s | %s |" % (os.path.basename(os.path.dirname(f)), d["what_it_breaks"].split(". ")[0].strip().rstrip("."), d["property"]))
    p = V + "/DESIGN.md"
    s = open(p).read()
    for head, body in (("| corpus | checks | bugs | equivalent edits |\n|---|---|---|---|\n", rows), ("| planted bug | caught by |\n|---|---|\n", seeds)):
        i = s.index(head) + len(head)
        j = s.index("\n\n", i)
        s = s[:i] + "\n".join(body) + s[j:]
    open(p, "w").write(s)


main()
