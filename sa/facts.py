"""Build and load the MIR facts of /repo's current working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "+nightly"


class FactsError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def source_files():
    fs = []
    for pat in ("Cargo.toml", "Cargo.lock", "src/**/*", "codec/**/*", "build.rs", ".cargo/**/*"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(f for f in set(fs) if os.path.isfile(f))


def tree_hash():
    h = hashlib.sha256()
    for f in source_files() + [os.path.join(VERIF, "driver/src/main.rs")]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def sysroot():
    r = _run(["rustc", TOOLCHAIN, "--print", "sysroot"])
    if r.returncode != 0:
        raise FactsError("no nightly toolchain: " + r.stdout)
    return r.stdout.strip().splitlines()[-1]


def build_driver():
    src = os.path.join(VERIF, "driver/src/main.rs")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "vp-mirdump-" + key)
    if not os.path.exists(out):
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        tmp = out + ".tmp%d" % os.getpid()
        r = _run(["rustc", TOOLCHAIN, "-O", "--edition", "2024", "-o", tmp, src], env=env)
        if r.returncode != 0:
            raise FactsError("cannot build the MIR driver:\n" + r.stdout)
        os.rename(tmp, out)
    return out


def ensure():
    """Return the directory with the facts of the current tree, building them if needed."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        key = tree_hash()
        d = os.path.join(CACHE, "facts-" + key)
        want = ["ntex_amqp.json", "ntex_amqp_codec.json"]
        if all(os.path.exists(os.path.join(d, w)) for w in want):
            return d
        drv = build_driver()
        for old in glob.glob(os.path.join(CACHE, "facts-*")):
            shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="facts.", dir=CACHE)
        target = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper: forget the workspace crates
        for pat in ("debug/.fingerprint/ntex-amqp-*", "debug/build/ntex-amqp", "debug/build/ntex-amqp-*",
                    "debug/deps/*ntex_amqp*"):
            for f in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)
        env = dict(os.environ)
        for v in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_BUILD_TARGET"):
            env.pop(v, None)
        env.update({
            "CARGO_TARGET_DIR": target, "VP_FACTS_DIR": tmp, "RUSTC_WORKSPACE_WRAPPER": drv,
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "RUSTFLAGS": "--cap-lints allow",
            "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
        })
        r = _run(["cargo", TOOLCHAIN, "check", "--offline", "--lib", "--workspace"], cwd=REPO, env=env)
        if r.returncode != 0 or not all(os.path.exists(os.path.join(tmp, w)) for w in want):
            shutil.rmtree(tmp, ignore_errors=True)
            raise FactsError("cargo check failed on /repo:\n" + r.stdout[-4000:])
        os.rename(tmp, d)
        return d


class Fn:
    __slots__ = ("id", "path", "kind", "file", "line", "argc", "name", "impl_self", "impl_trait",
                 "derived", "coroutine", "upvars", "locals", "names", "blocks", "crate", "parent",
                 "pub", "eff_pub", "isasync", "in_trait", "_loops", "_lex", "_rets", "_rpo")

    def __init__(self, d, crate):
        self.crate = crate
        for k in ("id", "path", "kind", "file", "line", "argc", "locals", "blocks"):
            setattr(self, k, d[k])
        for k in ("name", "impl_self", "impl_trait", "upvars", "parent", "in_trait"):
            setattr(self, k, d.get(k))
        for k in ("derived", "coroutine", "pub", "eff_pub", "isasync"):
            setattr(self, k, bool(d.get(k)))
        self.names = {int(k): v for k, v in d["names"].items()}
        self._loops = None
        self._rpo = None

    def __repr__(self):
        return "<Fn %s>" % self.path

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[5]]
        if k == "yield":
            return [t[1]]
        return []

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def returning(self):
        """blocks from which a return is reachable"""
        if getattr(self, "_rets", None) is None:
            preds = {}
            ok = set()
            for b in self.rpo():
                for x in self.succs(b):
                    preds.setdefault(x, []).append(b)
                t = self.blocks[b]["t"]
                if t and t[0] == "ret":
                    ok.add(b)
            todo = list(ok)
            while todo:
                for q in preds.get(todo.pop(), []):
                    if q not in ok:
                        ok.add(q)
                        todo.append(q)
            self._rets = ok
        return self._rets

    def loop_exits(self, head):
        """blocks of the loop from which the loop can be left (and the function return) without
        passing its head again"""
        if getattr(self, "_lex", None) is None:
            self._lex = {}
        r = self._lex.get(head)
        if r is None:
            body, rets = self.loops()[head], self.returning()
            ok = {b for b in body if any(x not in body and x in rets for x in self.succs(b))}
            ch = True
            while ch:
                ch = False
                for b in body:
                    if b not in ok and any(x in ok and x != head for x in self.succs(b)):
                        ok.add(b)
                        ch = True
            r = self._lex[head] = ok
        return r

    def loops(self):
        """loop head -> set of blocks of its natural loop"""
        if self._loops is None:
            rpo = self.rpo()
            preds = {}
            for b in rpo:
                for s in self.succs(b):
                    preds.setdefault(s, []).append(b)
            # dominators (iterative)
            order = sorted(rpo, key=lambda b: rpo[b])
            idom = {order[0]: order[0]}

            def inter(a, b):
                while a != b:
                    while rpo[a] > rpo[b]:
                        a = idom[a]
                    while rpo[b] > rpo[a]:
                        b = idom[b]
                return a
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    ps = [p for p in preds.get(b, []) if p in idom]
                    if not ps:
                        continue
                    n = ps[0]
                    for p in ps[1:]:
                        n = inter(n, p)
                    if idom.get(b) != n:
                        idom[b] = n
                        changed = True

            def dom(a, b):
                while b != a and idom[b] != b:
                    b = idom[b]
                return a == b
            loops = {}
            for b in order:
                for s in self.succs(b):
                    if rpo[s] <= rpo[b]:
                        body = {s}
                        if dom(s, b):
                            st = [b]
                            while st:
                                x = st.pop()
                                if x not in body:
                                    body.add(x)
                                    st += preds.get(x, [])
                        else:
                            body |= {x for x in order if rpo[s] <= rpo[x] <= rpo[b]}
                        loops.setdefault(s, set()).update(body)
            self._loops = loops
        return self._loops


class Facts:
    def __init__(self, d=None):
        d = d or ensure()
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.consts = []
        for c in ("ntex_amqp_codec", "ntex_amqp"):
            j = json.load(open(os.path.join(d, c + ".json")))
            for f in j["fns"]:
                fn = Fn(f, c)
                if "Const" in fn.kind:
                    self.consts.append(fn)
                else:
                    self.fns[f["id"]] = fn
            for k, v in j["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
        self._froms = None
        self._children = None
        self._modsets = None

    def fn(self, path):
        l = self.by_path.get(path, [])
        return l[0] if len(l) == 1 else None

    def find(self, suffix, crate=None):
        """functions whose path is, or ends with ::suffix"""
        r = []
        for f in self.fns.values():
            if crate and f.crate != crate:
                continue
            if f.path == suffix or f.path.endswith("::" + suffix):
                r.append(f)
        return r

    def children(self, f):
        if self._children is None:
            self._children = {}
            for g in self.fns.values():
                self._children.setdefault(g.parent, []).append(g)
        return self._children.get(f.id, [])

    def variants(self, adt):
        a = self.adts.get(adt)
        return a["variants"] if a else []

    def discr_name(self, adt, val):
        for v in self.variants(adt):
            if v["discr"] == val:
                return v["name"]
        return None

    def calls(self, f):
        """yield (block index, terminator) of every non-cleanup call"""
        for i, b in enumerate(f.blocks):
            if b["cl"] or b["t"] is None:
                continue
            if b["t"][0] == "call":
                yield i, b["t"]

    @staticmethod
    def callee(t):
        f = t[1].get("k", {}).get("fn") if isinstance(t[1], dict) else None
        if f and f["path"].startswith("byteorder::ByteOrder::") and not f["path"].endswith("_le") and \
                any(a["s"].endswith("LittleEndian") for a in f.get("targs", ())[:1]):
            f["path"] += "_le"
        return f

    def froms(self):
        """(From target type string) -> list of (source type string, Fn)"""
        if self._froms is None:
            self._froms = {}
            for f in self.fns.values():
                if f.impl_trait == "core::convert::From" and f.name == "from":
                    self._froms.setdefault(f.impl_self["s"], []).append((f.locals[1]["s"], f))
        return self._froms

    def closure_tree(self, f):
        out = [f]
        for c in self.children(f):
            out += self.closure_tree(c)
        return out


if __name__ == "__main__":
    print(ensure())
