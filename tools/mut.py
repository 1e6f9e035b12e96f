#!/usr/bin/env python3
"""Try the checks on edited copies of /repo (never on /repo itself).

usage: mut.py CORPUS.py [name-substring]...
A corpus defines CASES = [(name, [(file, old, new), ...], [properties expected to alarm])]; an empty list of
properties means the edit keeps the behaviour: every check listed in QUIET (default: all) must stay quiet.
"""
import importlib.util, json, multiprocessing, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SCR", "/tmp/vpmut")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def work(arg):
    m, allp, todo = arg
    k = multiprocessing.current_process()._identity[0]
    scr = "%s/w%d" % (SCR, k)
    os.makedirs(scr, exist_ok=True)
    repo = os.path.join(scr, "repo")
    if k not in READY:
        READY.add(k)
        shutil.rmtree(repo, ignore_errors=True)
        sh(["cp", "-a", "/repo", repo])
        shutil.rmtree(repo + "/target", ignore_errors=True)
    env = dict(os.environ, VP_REPO=repo, VP_CACHE=os.path.join(scr, "cache"), VP_EVIDENCE=os.path.join(scr, "evidence"))
    name, edits, want = todo
    saved, out, bad = {}, [], 0
    ok = True
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        saved.setdefault(p, s)
        if s.count(old) < 1:
            out.append("!! %s: pattern not found in %s: %r" % (name, f, old[:60]))
            ok = False
            bad += 1
            break
        open(p, "w").write(s.replace(old, new, 1))
    if ok:
        r = sh(["python3", os.path.join(VERIF, "sa/facts.py")], env=env)
        if r.returncode:
            bad += 1
            out.append("!! %s does not build:\n%s" % (name, r.stdout[-1500:]))
        else:
            for p in (want or m["QUIET"] or allp):
                r = sh(["python3", os.path.join(VERIF, "sa/check.py"), p], env=env)
                o = r.stdout
                rc, exp = r.returncode, 1 if want else 0
                good = rc == exp and (not want or "VIOLATION property=" + p in o)
                if not good:
                    bad += 1
                lines = [l for l in o.strip().splitlines() if not l.startswith("KNOWN")] or [""]
                out.append("%s %-40s %s rc=%d%s" % ("ok  " if good else "FAIL", name, p, rc, "" if rc == 0 else "  " + lines[0][:170]))
    for p, s in saved.items():
        open(p, "w").write(s)
    return out, bad


READY = set()


def main():
    spec = importlib.util.spec_from_file_location("corpus", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    pats = sys.argv[2:]
    allp = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    info = {"QUIET": getattr(m, "QUIET", None)}
    todo = [(info, allp, c) for c in m.CASES if not pats or any(p in c[0] for p in pats)]
    if os.environ.get("QUIETONLY"):         # only the edits that keep the behaviour, with these checks (first letters)
        info["QUIET"] = [p for p in allp if p[0] in os.environ["QUIETONLY"] and p not in (info["QUIET"] or ())]
        todo = [t for t in todo if not t[2][2]]
    bad = 0
    with multiprocessing.Pool(min(int(os.environ.get("J", "5")), len(todo))) as pool:
        for out, n in pool.imap(work, todo):
            bad += n
            for l in out:
                if "-q" not in os.environ.get("MUTFLAGS", "") or not l.startswith("ok"):
                    print(l, flush=True)
    print("bad:", bad)


main()
