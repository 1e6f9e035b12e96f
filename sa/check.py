#!/usr/bin/env python3
"""check.py <property> [--all]: decide one property on /repo's current source.

exit 0: holds (or only known findings); exit 1 + VIOLATION line: broken.
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
import facts as factsmod
import absint


class Missing(Exception):
    """an anchor of the rule is not in the source any more"""


def mainlib():
    from rules import mainlib as m
    return m


class Ctx:
    def __init__(self, pid, F, tier):
        self.pid, self.F, self.tier = pid, F, tier
        self.viol = {}          # key -> message
        self.obs = []           # (name, ok)
        self.fns = set()
        self.counts = {}
        self.samples = []
        self.notes = []

    def engine(self, hook=None, **kw):
        pin = kw.pop("pin", ())
        live = kw.pop("live", True)
        E = absint.Engine(self.F, hook=hook, **kw)
        if live:
            # nothing can be written once the session is ended or the connection is closed: rules about what has to
            # be written look at the paths on which neither is the case (E and R rules look at the others)
            E.dead = mainlib().closing
        E.pin = frozenset(pin)
        E.analysed = self.fns
        return E

    def ob(self, name, ok, msg=None, key=None):
        """one obligation of the rule; a failed one is a violation"""
        self.obs.append((name, bool(ok)))
        if not ok:
            self.viol.setdefault(key or name, msg or name)
        return ok

    def bad(self, key, msg):
        self.ob(key, False, msg, key)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least):
        """instances counted by hand on the reviewed tree: fewer means the rule went blind"""
        self.counts[name] = n
        if n < least:
            self.bad("floor:" + name, "only %d instance(s) of '%s' found, at least %d expected: "
                     "the rule no longer sees the code it decides on" % (n, name, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def parallel(self, func, items, workers=8):
        """func(sub-context, item) over all items, in forked workers; results merge in item order"""
        import multiprocessing as mp
        global _PAR
        items = list(items)
        if os.environ.get("VP_SERIAL") or len(items) < 2:
            for it in items:
                func(self, it)
            return
        _PAR = (self, func, items)
        with mp.get_context("fork").Pool(min(workers, len(items))) as pool:
            for obs, viol, counts, fns, samples, notes in pool.imap(_par_one, range(len(items)), chunksize=1):
                self.obs += obs
                for k, v in viol.items():
                    self.viol.setdefault(k, v)
                for k, v in counts.items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.fns |= fns
                for x in samples:
                    self.sample(x)
                for x in notes:
                    if x not in self.notes:
                        self.notes.append(x)

    def fn(self, *names, optional=False):
        """a function by path suffix (several alternatives)"""
        for n in names:
            l = [f for f in self.F.find(n) if f.kind != "closure"]
            if len(l) == 1:
                return l[0]
            if len(l) > 1:
                ex = [f for f in l if f.path == n]
                if len(ex) == 1:
                    return ex[0]
                raise Missing("ambiguous anchor %s: %s" % (n, [f.path for f in l][:4]))
        if optional:
            return None
        raise Missing("anchor function %s not found" % (names,))


_PAR = None


def _par_one(i):
    ctx, func, items = _PAR
    sub = Ctx(ctx.pid, ctx.F, ctx.tier)
    try:
        func(sub, items[i])
    except Missing as e:
        sub.bad("anchor:" + str(e)[:80], str(e))
    return sub.obs, sub.viol, sub.counts, sub.fns, sub.samples, sub.notes


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("kind") == "finding":
                    out[d["key"]] = d["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import registry
    F = factsmod.Facts()
    spec = registry.CHECKS[pid]
    ctx = Ctx(pid, F, tier)
    mod = importlib.import_module(spec["module"])
    try:
        getattr(mod, spec["func"])(ctx)
    except Missing as e:
        ctx.bad("anchor:" + str(e)[:80], str(e))
    kn = known(pid)
    new = {k: m for k, m in ctx.viol.items() if k not in kn}
    old = {k: m for k, m in ctx.viol.items() if k in kn}
    nfn = len(ctx.fns)
    lines = sum(F.fns[i].nlines() if hasattr(F.fns[i], "nlines") else 0 for i in ctx.fns if i in F.fns)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": spec["explain"],
              "obligations": len(ctx.obs), "discharged": sum(1 for o in ctx.obs if o[1]),
              "functions_analysed": nfn,
              "functions": sorted({F.fns[i].path for i in ctx.fns if i in F.fns})[:400],
              "counts": ctx.counts,
              "samples": ctx.samples or [o[0] for o in ctx.obs[:12]],
              "known_findings": sorted(old),
          },
          "assumptions": spec.get("assume", []) + ctx.notes,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    EVD = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    rp = os.path.join(EVD, pid + ".violations.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            for k in sorted(new):
                f.write("%s\n    %s\n" % (k, new[k]))
        for k in sorted(new):
            print("  %s: %s" % (k, new[k]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: held; %d obligations over %d functions in %.1fs (%s)" % (
        pid, len(ctx.obs), nfn, time.time() - t0,
        ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items()))))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
