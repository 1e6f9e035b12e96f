#!/usr/bin/env python3
"""Run the check of each planted bug's property (or all checks with --all) on a scratch copy: tools/runseeds.py [ID-substr...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrun"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


allc = "--all" in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
M = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
if not os.path.isdir(W):
    sh("mkdir -p %s; cd /repo && git archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s/" % (W, W, W))
for i in sorted(os.listdir(V + "/seeded")):
    if sel and not any(s in i for s in sel):
        continue
    d = V + "/seeded/" + i
    sh("cd /repo && git archive HEAD | tar x -C %s" % W)
    p = sh("cd %s && patch -p1 < %s/patch.diff" % (W, d))
    if p.returncode:
        print(i, "PATCH FAILS", p.stdout)
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    props = M if allc else [prop]
    env = dict(os.environ, VP_REPO=W, VP_CACHE="/tmp/seedrun.cache", VP_EVIDENCE="/tmp/seedrun.ev")
    res = []
    for q in props:
        r = sh("python3 %s/sa/check.py %s" % (V, q), env=env)
        if r.returncode or q == prop:
            line = [x for x in r.stdout.splitlines() if not x.startswith("KNOWN")]
            res.append("%s rc=%d %s" % (q, r.returncode, line[0][:160] if line else ""))
    print(i, "|", " || ".join(res), flush=True)
