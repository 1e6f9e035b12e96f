"""Abstract interpretation of MIR with trace partitioning (see DESIGN.md).

`Engine.run(fn, args)` returns the abstract paths of an entry function.  Values are hash-consed terms:

  C value [path]        constant                      U            unit
  P name                opaque parameter / object     A adt variant fields   aggregate
  F base field version  field of an opaque value      X name args uid        result of an unknown call
  B op a b, N a         arithmetic / comparison       D v adt      discriminant of v
  is v variant          "v is this variant"           & root path  reference to a place
  W base items          opaque value with overwritten parts

A place is (root, path): root ('L', frame, local) or ('H', term); path is a tuple of
(adt, variant, field) projections.  Heap reads of mutable workspace fields carry a version which is
bumped by writes to the same field of a possibly aliasing object, by suspension points and by loops.
"""
import heapq, re, sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("k", "a", "n")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_TAB = {}


def mk(k, *a):
    key = (k,) + a
    t = _TAB.get(key)
    if t is None:
        t = Term()
        t.k, t.a, t.n = k, a, len(_TAB)
        _TAB[key] = t
    return t


UNIT = mk("U")
TRUE = mk("C", 1, None)
FALSE = mk("C", 0, None)
NEVER = object()


def C(v, path=None):
    return mk("C", v, path)


def P(name):
    return mk("P", name)


def named(path):
    """the name of a constant matters for flags and extreme values; any other constant is its value"""
    if path and path.startswith(("ntex_amqp::", "<ntex_amqp::")) and "::Flags::" not in path and "impl" not in path:
        return None
    return path


def agg(adt, variant="", **fields):
    return mk("A", adt, variant, tuple((k.lstrip("_"), v) for k, v in fields.items()))


def aggl(adt, variant, *vals):
    return mk("A", adt, variant, tuple((str(i), v) for i, v in enumerate(vals)))


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 7:
        return "..."
    k, a = t.k, t.a
    if k == "C":
        return a[1].split("::")[-1] if a[1] else str(a[0])
    if k == "U":
        return "()"
    if k == "P":
        return a[0]
    if k == "A":
        n = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
        return n + ("{" + ", ".join("%s:%s" % (f, show(v, d + 1)) for f, v in a[2]) + "}" if a[2] else "")
    if k == "F":
        v = a[2]
        return show(a[0], d + 1) + "." + (a[1][1] + "." if a[1][1] else "") + str(a[1][2]) + \
            ("'%s" % (v,) if v else "")
    if k == "X":
        return a[0].split("::")[-1] + "(" + ", ".join(show(x, d + 1) for x in a[1]) + ")"
    if k == "B":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == "&":
        return "&" + show(a[0][1], d + 1) + "".join("." + (p[1] + "." if p[1] else "") + str(p[2]) for p in a[1]) \
            if a[0][0] == "H" else "&local%s" % (a[0][2],) + "".join("." + str(p[2]) for p in a[1])
    return k + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


OPT, RES, POLL, CF = ("core::option::Option", "core::result::Result", "core::task::poll::Poll",
                      "core::ops::control_flow::ControlFlow")
VARS = {OPT: ("None", "Some"), RES: ("Ok", "Err"), POLL: ("Ready", "Pending"), CF: ("Continue", "Break")}


def SOME(v):
    return aggl(OPT, "Some", v)


NONE = aggl(OPT, "None")


def OK(v):
    return aggl(RES, "Ok", v)


def ERR(v):
    return aggl(RES, "Err", v)


def walk(t, seen=None):
    """all sub-terms"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


class State:
    __slots__ = ("store", "facts", "ver", "epoch", "ev", "moved", "visits", "rel")

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = self.facts
        s.ver = self.ver
        s.epoch = self.epoch
        s.ev = self.ev
        s.moved = self.moved
        s.visits = self.visits
        s.rel = self.rel
        return s


def new_state():
    s = State()
    s.store, s.facts, s.ver, s.epoch, s.ev, s.moved, s.visits, s.rel = {}, {}, {}, 0, None, frozenset(), (), ()
    return s


class Ev:
    __slots__ = ("kind", "name", "args", "fn", "line", "x", "uid", "c")

    def __repr__(self):
        return "%s:%s(%s)@%s:%s%s" % (self.kind, self.name.split("::")[-1] if isinstance(self.name, str) else self.name,
                                       ", ".join(show(a) for a in self.args),
                                       self.fn.path.split("::", 1)[-1] if self.fn else "", self.line,
                                       " " + repr(self.x) if self.x is not None else "")


class Path:
    __slots__ = ("events", "out", "ret", "state", "where")

    def __repr__(self):
        return "<%s %s %s>" % (self.out, self.ret, self.events)


class Limit(Exception):
    pass


class Engine:
    def __init__(self, facts, hook=None, opaque=None, max_paths=60000, max_depth=24, loop_visits=2,
                 track_asserts=False, extra_models=None, inline_filter=None):
        self.F = facts
        self.hook = hook            # hook(engine, state, Ev) -> Ev or None
        self.opaque = opaque        # predicate on Fn: do not inline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.loop_visits = loop_visits
        self.track_asserts = track_asserts
        self.models = dict(MODELS)
        if extra_models:
            self.models.update(extra_models)
        self.frame_n = 0
        self.evtab = {}
        self.types = {}
        self.evn = 0
        self.analysed = set()
        self.max_part = 8
        self.toobig = set()
        self.encode_err = False
        self.unroll = 0
        self.dead = None            # dead(term, fact): the path is outside of what the rule is about
        self.exact_loops = False    # loops without suspension are followed turn by turn
        self.keep_facts = False
        self.pin = frozenset()      # fields (adt, name): path conditions about them keep paths apart
        self._pinned = {}
        self.codec_inline = False
        self._freshn = 0
        self.steps = 0
        self.stack = []
        self._live = {}
        self._mutfields = mutable_fields(facts)
        self._modsets = facts_modsets(facts)

    # ---- store ------------------------------------------------------------------------------------
    def ver_of(self, st, f):
        key = (f[0], f[2])
        if key not in self._mutfields:
            return 0
        return (st.epoch, st.ver.get(key, 0))

    def proj(self, st, v, f):
        k = v.k
        if k == "A":
            for n, x in v.a[2]:
                if n == f[2]:
                    return x
            return mk("F", v, f, 0)
        if k == "W":
            rest = []
            for rp, x in v.a[1]:
                if rp[0] == f:
                    if len(rp) == 1:
                        return x
                    rest.append((rp[1:], x))
            b = self.proj(st, v.a[0], f)
            return self.overlay(b, rest) if rest else b
        if k == "&":
            return self.read(st, v.a[0], v.a[1] + (f,))
        return mk("F", v, f, self.ver_of(st, f))

    def overlay(self, base, items):
        """base with relative paths replaced"""
        if base.k == "A":
            fields = list(base.a[2])
            by = {}
            for rp, x in items:
                by.setdefault(rp[0], []).append((rp[1:], x))
            for f, l in by.items():
                for i, (n, old) in enumerate(fields):
                    if n == f[2]:
                        whole = [x for rp, x in l if not rp]
                        sub = [(rp, x) for rp, x in l if rp]
                        b = whole[-1] if whole else old
                        fields[i] = (n, self.overlay(b, sub) if sub else b)
                        break
                else:
                    whole = [x for rp, x in l if not rp]
                    if whole:
                        fields.append((f[2], whole[-1]))
            return mk("A", base.a[0], base.a[1], tuple(fields))
        if base.k == "W":
            d = dict(base.a[1])
            d.update(dict(items))
            return mk("W", base.a[0], tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
        return mk("W", base, tuple(sorted(items, key=lambda kv: repr(kv[0]))))

    def read(self, st, root, path):
        d = st.store.get(root)
        if d:
            kids = None
            if len(d) > 1 or path not in d:
                kids = [(p[len(path):], v) for p, v in d.items() if len(p) > len(path) and p[:len(path)] == path]
            for i in range(len(path), -1, -1):
                v = d.get(path[:i])
                if v is not None:
                    for f in path[i:]:
                        v = self.proj(st, v, f)
                    return self.overlay(v, kids) if kids else v
            base = self.rootval(st, root, path)
            return self.overlay(base, kids) if kids else base
        return self.rootval(st, root, path)

    def rootval(self, st, root, path):
        if root[0] == "H":
            v = root[1]
        else:
            v = mk("P", "uninit%s_%s" % (root[1], root[2]))
        for f in path:
            v = self.proj(st, v, f)
        return v

    def write(self, st, root, path, v):
        d = dict(st.store.get(root, ()))
        for p in [p for p in d if len(p) >= len(path) and p[:len(path)] == path]:
            del d[p]
        # fold into an aggregate held at a prefix
        done = False
        for i in range(len(path) - 1, -1, -1):
            b = d.get(path[:i])
            if b is not None:
                if b.k == "A":
                    d[path[:i]] = self.overlay(b, [(path[i:], v)])
                    done = True
                break
        if not done:
            d[path] = v
        st.store[root] = d
        if st.moved:
            st.moved = frozenset(m for m in st.moved if not (m[0] == root and m[1][:len(path)] == path))
        if root[0] == "H" and path:
            # the same field of a possibly aliasing object
            last = None
            for f in reversed(path):
                if (f[0], f[2]) in self._mutfields:
                    last = f
                    break
            if last is not None:
                self.bump(st, (last[0], last[2]), keep=(root, path))

    def bump(self, st, key, keep=None):
        for r, d in list(st.store.items()):
            if r[0] != "H":
                continue
            bad = [p for p in d if p and any((f[0], f[2]) == key for f in p) and
                   not (keep and r == keep[0] and (p == keep[1] or r == keep[0]))]
            if bad:
                d = dict(d)
                for p in bad:
                    del d[p]
                st.store[r] = d
        st.ver = dict(st.ver)
        st.ver[key] = st.ver.get(key, 0) + 1

    def forget_heap(self, st):
        """a suspension point: other tasks may have changed any mutable field"""
        for r, d in list(st.store.items()):
            if r[0] == "H" and not (isinstance(r[1], Term) and r[1].k == "O" and False):
                nd = {p: v for p, v in d.items() if p and not any((f[0], f[2]) in self._mutfields for f in p)}
                if not d.get(()) is None and r[1].k == "O":
                    v = d[()]
                    nd[()] = self.forget_val(v)
                if nd:
                    st.store[r] = nd
                else:
                    del st.store[r]
        st.epoch += 1

    def forget_val(self, v):
        if v.k == "A":
            fs = []
            for n, x in v.a[2]:
                if (v.a[0], n) in self._mutfields:
                    continue
                fs.append((n, x))
            return mk("A", v.a[0], v.a[1], tuple(fs)) if len(fs) != len(v.a[2]) else v
        return v

    # ---- places and operands ----------------------------------------------------------------------
    def place(self, st, fr, pl):
        root, path = ("L", fr, pl[0]), ()
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.deref(st, v, root, path)
            elif e == "?":
                pass
            elif e[0] == "f":
                path = path + ((e[1], e[2], e[3]),)
            elif e[0] == "i":
                idx = self.read(st, ("L", fr, e[1]), ())
                path = path + (("[]", "", idx),)
            elif e[0] == "ci":
                path = path + (("[]", "", C(e[1]) if not e[2] else mk("fromend", e[1])),)
            elif e[0] == "ss":
                path = path + (("[]", "", "ss"),)
        return root, path

    def deref(self, st, v, root=None, path=None):
        if v.k == "&":
            return v.a
        if root is not None and (v.k in ("A", "C", "U", "B", "W") or v.k == "X" and v.a[0].split("::")[-1] == "default"):
            return root, path
        return ("H", v), ()

    def operand(self, st, fr, op):
        if "c" in op:
            r, p = self.place(st, fr, op["c"])
            return self.read(st, r, p)
        if "m" in op:
            r, p = self.place(st, fr, op["m"])
            v = self.read(st, r, p)
            if r[0] == "L":
                st.moved = st.moved | {(r, p)}
            return v
        if "k" in op:
            return self.const(op["k"])
        return mk("P", "?")

    def const(self, k):
        if "fn" in k:
            return mk("fn", k["fn"].get("rid") or k["fn"]["id"], k["fn"]["path"], FnRef(k["fn"]))
        if "str" in k:
            return mk("S", k["str"])
        if "bytes" in k:
            return mk("S", tuple(k["bytes"]))
        ty = k.get("ty", {})
        if "v" in k:
            h = ty.get("h", "")
            if ty.get("k") == "adt" and ty.get("r") == 0:
                a = self.F.adts.get(h)
                if a and a["enum"]:
                    for v in a["variants"]:
                        if v["discr"] == k["v"] and len(a["variants"]) > 1:
                            return mk("A", h, v["name"], ())
            return C(k["v"], named(k.get("path")))
        if k.get("zst"):
            if ty.get("k") == "tuple":
                return UNIT
            return mk("A", ty.get("h") or ty.get("s", "zst"), "", ())
        if k.get("path"):
            return mk("K", k["path"], ty.get("s", ""))
        return mk("K", k.get("tyconst", "?"), ty.get("s", ""))

    # ---- rvalues ------------------------------------------------------------------------------------
    def rvalue(self, st, fr, f, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            r, p = self.place(st, fr, rv[1])
            return mk("&", r, p)
        if k == "agg":
            kind, a, var, ops = rv[1], rv[2], rv[3], rv[4]
            vals = tuple((n, self.operand(st, fr, o)) for n, o in ops)
            if kind == "clo":
                return mk("A", "clo:" + a, "", vals)
            if kind == "tuple" and not vals:
                return UNIT
            if kind == "array":
                return mk("A", "[]", "", vals)
            return mk("A", a, var, vals)
        if k == "bin":
            return self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return self.neg(v)
            if rv[1] == "PtrMetadata":
                return self.lenof(st, v)
            return mk("un", rv[1], v)
        if k == "discr":
            r, p = self.place(st, fr, rv[1])
            v = self.read(st, r, p)
            return mk("D", v, rv[2]["h"])
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            return self.cast(v, rv[1], rv[3], rv[4])
        if k == "repeat":
            return mk("X", "repeat", (self.operand(st, fr, rv[1]),), rv[2])
        return mk("P", "other:" + str(rv[1])[:40])

    def lenof(self, st, v):
        if v.k == "&":
            v = self.read(st, v.a[0], v.a[1])
        if v.k == "S":
            return C(len(v.a[0]))
        return mk("X", "len", (v,), 0)

    WID = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
           "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32}

    def cast(self, v, kind, ft, tt):
        if "IntToInt" in kind:
            a, b = self.WID.get(ft["s"]), self.WID.get(tt["s"])
            if v.k == "C" and isinstance(v.a[0], int):
                n = v.a[0]
                if b and not (0 <= n < (1 << (b - 1))):
                    n &= (1 << b) - 1
                    if tt["s"].startswith("i") and n >> (b - 1):
                        n -= 1 << b
                return C(n)
            if a and b and (b > a or b == a):
                if ft["s"][0] == tt["s"][0] or ft["s"] == "bool":
                    return v
                if ft["s"][0] == "u" and b > a:
                    return v
            return mk("cast", tt["s"], v)
        if kind in ("Transmute",) or "Float" in kind:
            return mk("cast", tt["s"], v)
        return v

    def neg(self, v):
        if v.k == "C":
            return FALSE if v.a[0] else TRUE
        if v.k == "N":
            return v.a[0]
        return mk("N", v)

    def binop(self, op, a, b, ty=None):
        unsigned = bool(ty) and ty["s"].startswith("u")
        if op.endswith("WithOverflow"):
            o = op[:-len("WithOverflow")]
            r = self.binop(o, a, b, ty)
            if r.k == "C":
                return mk("A", "()", "", (("0", r), ("1", FALSE)))
            return mk("A", "()", "", (("0", r), ("1", mk("ovf", o, a, b))))
        op = op.replace("Unchecked", "")
        if a.k == "C" and b.k == "C" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y,
                 "Eq": int(x == y), "Ne": int(x != y), "Lt": int(x < y), "Le": int(x <= y),
                 "Gt": int(x > y), "Ge": int(x >= y)}.get(op)
            if r is None and op in ("Shl", "Shr") and 0 <= y < 128:
                r = x << y if op == "Shl" else x >> y
            if r is None and op in ("Div", "Rem") and y:
                r = x // y if op == "Div" else x % y
            if r is not None and (r >= 0 or not unsigned):
                return C(r)
        if op == "Ne":
            return self.neg(self.binop("Eq", a, b, ty))
        if op == "Gt":
            return self.binop("Lt", b, a, ty)
        if op == "Ge":
            return self.neg(self.binop("Lt", a, b, ty))
        if op == "Le":
            return self.neg(self.binop("Lt", b, a, ty))
        if op == "Eq":
            if a is b:
                return TRUE
            if a.k == "A" and not a.a[2] and a.a[1]:
                a, b = b, a
            if b.k == "A" and not b.a[2] and b.a[1]:
                if a.k == "A" and a.a[1]:
                    return C(int(a.a[1] == b.a[1]))
                return mk("is", a, b.a[1])
            if a.k == "C" and ty and ty["s"] == "bool":
                return b if a.a[0] else self.neg(b)
            if b.k == "C" and ty and ty["s"] == "bool":
                return a if b.a[0] else self.neg(a)
            if b.k != "C" and (a.k == "C" or a.n > b.n):
                a, b = b, a
            return mk("B", "Eq", a, b)
        if op == "Lt" and unsigned:
            if b.k == "C" and b.a[0] == 0:
                return FALSE
            if a.k == "C" and a.a[0] == 0:
                return self.neg(mk("B", "Eq", b, C(0)))
            if b.k == "C" and b.a[0] == 1:
                return mk("B", "Eq", a, C(0))
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and (a.k == "C" and b.k != "C"):
            a, b = b, a
        return mk("B", op, a, b)

    # ---- facts --------------------------------------------------------------------------------------
    def setfact(self, st, t, v):
        st.facts = dict(st.facts)
        st.facts[t] = v

    def variant(self, st, v, adt=None):
        """known variant name of a value, or None"""
        if v.k == "A" and v.a[1]:
            return v.a[1]
        if v.k == "W":
            for rp, x in v.a[1]:
                if rp and rp[0][1]:
                    return rp[0][1]     # something inside this variant was written
            return self.variant(st, v.a[0], adt)
        f = st.facts.get(v)
        if f and f[0] == "is":
            return f[1]
        if f and f[0] == "not" and adt:
            names = [x["name"] for x in self.F.variants(adt)] or list(VARS.get(adt, ()))
            left = [n for n in names if n not in f[1]]
            if len(left) == 1:
                return left[0]
        return None

    def assume_variant(self, st, v, name, adt=None):
        """returns False if contradictory"""
        k = self.variant(st, v, adt)
        if k is not None:
            return k == name
        b = v
        while b.k == "W":
            b = b.a[0]
        f = st.facts.get(b)
        if f and f[0] == "not" and name in f[1]:
            return False
        self.setfact(st, b, ("is", name))
        return not (self.dead and self.dead(b, ("is", name)))

    def assume_not(self, st, v, names, adt=None):
        k = self.variant(st, v, adt)
        if k is not None:
            return k not in names
        while v.k == "W":
            v = v.a[0]
        f = st.facts.get(v)
        old = f[1] if f and f[0] == "not" else frozenset()
        new = old | frozenset(names)
        if adt:
            allv = [x["name"] for x in self.F.variants(adt)] or list(VARS.get(adt, ()))
            left = [n for n in allv if n not in new]
            if allv and not left:
                return False
            if len(left) == 1:
                self.setfact(st, v, ("is", left[0]))
                return not (self.dead and self.dead(v, ("is", left[0])))
        self.setfact(st, v, ("not", new))
        return not (self.dead and self.dead(v, ("not", new)))

    def truth(self, st, t):
        """known truth value of a boolean term: 1, 0 or None"""
        if t.k == "C":
            return 1 if t.a[0] else 0
        if t.k == "N":
            r = self.truth(st, t.a[0])
            return None if r is None else 1 - r
        if t.k == "is":
            k = self.variant(st, t.a[0])
            if k is not None:
                return int(k == t.a[1])
            f = st.facts.get(t.a[0])
            if f and f[0] == "not" and t.a[1] in f[1]:
                return 0
            return None
        f = st.facts.get(t)
        if f is not None and f[0] == "eq":
            return int(bool(f[1]))
        if f is not None and f[0] == "ne" and 0 in f[1]:
            return 1
        if t.k == "ovf":
            return 0
        if t.k == "B" and t.a[0] == "Eq" and t.a[2].k == "C":
            g = st.facts.get(t.a[1])
            if g and g[0] == "eq":
                return int(g[1] == t.a[2].a[0])
            if g and g[0] == "ne" and t.a[2].a[0] in g[1]:
                return 0
        return None

    def assume(self, st, t, val):
        """assume boolean term; False if contradictory"""
        k = self.truth(st, t)
        if k is not None:
            return k == val
        if t.k == "N":
            return self.assume(st, t.a[0], 1 - val)
        if t.k == "is":
            return self.assume_variant(st, t.a[0], t.a[1]) if val else self.assume_not(st, t.a[0], [t.a[1]])
        self.setfact(st, t, ("eq", val))
        if self.dead and self.dead(t, ("eq", val)):
            return False
        if t.k == "B" and t.a[0] == "Eq" and t.a[2].k == "C" and isinstance(t.a[2].a[0], int):
            return self.assume_int(st, t.a[1], t.a[2].a[0], val)
        return True

    def assume_int(self, st, t, n, val):
        if t.k == "C":
            return (t.a[0] == n) == bool(val)
        f = st.facts.get(t)
        if f and f[0] == "eq":
            return (f[1] == n) == bool(val)
        if val:
            if f and f[0] == "ne" and n in f[1]:
                return False
            self.setfact(st, t, ("eq", n))
        else:
            old = f[1] if f and f[0] == "ne" else frozenset()
            self.setfact(st, t, ("ne", old | {n}))
        return not (self.dead and self.dead(t, st.facts[t]))

    # ---- events -------------------------------------------------------------------------------------
    def emit(self, st, kind, name, args, fn, line, x=None, uid=None, c=None):
        if self.hook is None:
            return
        e = Ev()
        e.kind, e.name, e.args, e.fn, e.line, e.x, e.uid = kind, name, args, fn, line, x, uid
        e.c = c
        e = self.hook(self, st, e)
        if e is None:
            return
        key = (st.ev, e.kind, e.name, tuple(e.args), e.fn, e.line, freeze(e.x), e.uid)
        n = self.evtab.get(key)
        if n is None:
            n = (self.evn, st.ev, e)
            self.evn += 1
            n = _EvNode(st.ev, e)
            self.evtab[key] = n
        st.ev = n

    # ---- control ------------------------------------------------------------------------------------
    def run(self, fn, args=None, state=None):
        """abstract paths of fn"""
        st = state or new_state()
        if args is None:
            args = [P(fn.names.get(i + 1, "arg%d" % i)) for i in range(fn.argc)]
        outs = self.call_fn(st, fn, args, ())
        res = []
        for s, out, ret, where in outs:
            p = Path()
            evs = []
            n = s.ev
            while n is not None:
                evs.append(n.e)
                n = n.prev
            evs.reverse()
            p.events, p.out, p.ret, p.state, p.where = evs, out, ret, s, where
            res.append(p)
        return res

    def run_async(self, fn, args=None, state=None):
        """paths of an async fn, awaited"""
        st = state or new_state()
        if args is None:
            args = [P(fn.names.get(i + 1, "arg%d" % i)) for i in range(fn.argc)]
        res = []
        for s, out, ret, where in self.call_fn(st, fn, args, ()):
            if out != "ret":
                outs = [(s, out, ret, where)]
            else:
                outs = []
                for s2, o2, r2, w2 in self.poll_value(s, ret, (fn, 0), ("poll",)):
                    if o2 == "ret" and r2.k == "A" and r2.a[0] == POLL:
                        if r2.a[1] == "Pending":
                            continue
                        r2 = r2.a[2][0][1]
                    outs.append((s2, o2, r2, w2))
            for s2, o2, r2, w2 in outs:
                p = Path()
                evs = []
                n = s2.ev
                while n is not None:
                    evs.append(n.e)
                    n = n.prev
                evs.reverse()
                p.events, p.out, p.ret, p.state, p.where = evs, o2, r2, s2, w2
                res.append(p)
        return res

    def live(self, fn):
        """locals live at block entry (borrowed locals count as always live)"""
        r = self._live.get(fn.id)
        if r is not None:
            return r
        use, defs, borrowed = {}, {}, set()

        def pl_use(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(op, u, d):
            if "c" in op:
                pl_use(op["c"], u, d)
            elif "m" in op:
                pl_use(op["m"], u, d)
        for bi, b in enumerate(fn.blocks):
            u, d = set(), set()
            for s in b["s"]:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] in ("use", "cast", "un", "repeat"):
                        for x in rv[1:]:
                            if isinstance(x, dict):
                                op_use(x, u, d)
                    elif rv[0] == "ref":
                        pl_use(rv[1], u, d)
                        if "*" not in rv[1]:
                            borrowed.add(rv[1][0])
                    elif rv[0] == "bin":
                        op_use(rv[2], u, d)
                        op_use(rv[3], u, d)
                    elif rv[0] == "discr":
                        pl_use(rv[1], u, d)
                    elif rv[0] == "agg":
                        for _, o in rv[4]:
                            op_use(o, u, d)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                    else:
                        pl_use(s[1], u, d)
                else:
                    pl_use(s[1], u, d)
            t = b["t"]
            if t:
                if t[0] == "switch" or t[0] == "assert":
                    op_use(t[1], u, d)
                    if t[0] == "assert":
                        for o in t[4]:
                            op_use(o, u, d)
                elif t[0] == "call":
                    op_use(t[1], u, d)
                    for o in t[2]:
                        op_use(o, u, d)
                    if len(t[3]) > 1:
                        pl_use(t[3], u, d)
                elif t[0] == "drop":
                    pl_use(t[1], u, d)
                elif t[0] == "ret":
                    if 0 not in d:
                        u.add(0)
            use[bi], defs[bi] = u, d
        live = {b: set() for b in use}
        order = sorted(fn.rpo(), key=lambda b: -fn.rpo()[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in fn.succs(b):
                    o |= live[s]
                t = fn.blocks[b]["t"]
                if t and t[0] == "call" and len(t[3]) == 1:
                    o.discard(t[3][0])
                n = use[b] | (o - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        r = {b: live[b] | borrowed for b in live}
        self._live[fn.id] = r
        return r

    def call_fn(self, st, fn, args, ctx):
        """run a workspace function: list of (state, 'ret'|'panic'|'cut', value, where)"""
        self.frame_n += 1
        fr = (fn.id, ctx)
        self.analysed.add(fn.id)
        if len(self.stack) > self.max_depth:
            raise Limit("call depth in " + fn.path)
        self.stack.append(fn)
        try:
            return self._call_fn(st, fn, args, ctx, fr)
        finally:
            self.stack.pop()

    def _call_fn(self, st, fn, args, ctx, fr):
        st = st.copy()
        saved_visits = st.visits
        st.visits = ()
        for i, a in enumerate(args):
            st.store[("L", fr, i + 1)] = {(): a}
        rpo = fn.rpo()
        loops = fn.loops()
        live = self.live(fn)
        preds = {}
        for b in rpo:
            for s in fn.succs(b):
                preds[s] = preds.get(s, 0) + 1
        heap = []
        pend, groups, keyof, dead, keepalive = {}, {}, {}, set(), []
        seq = 0
        results = []
        cnt = 0

        def push(s, b):
            nonlocal seq
            # the last turn of a loop only looks for the way out
            for h, n in s.visits:
                if n >= self.loop_visits and h != b and b in loops[h] and b not in fn.loop_exits(h) and (self.unroll or n > 5 or not self.listed(s, fn, fr, h, loops[h])):
                    return
            if b in loops:
                v = dict(s.visits)
                n = v.get(b, 0) + 1
                # inner loop heads restart when the outer loop turns
                body = loops[b]
                for h in list(v):
                    if h != b and h in body:
                        del v[h]
                v[b] = n
                lst = not self.unroll and self.listed(s, fn, fr, b, loops[b])
                if n > (6 if lst else self.loop_visits):
                    return
                s.visits = tuple(sorted(v.items()))
                if not self.unroll and not lst and not (self.exact_loops and not self.loop_mods(fn, b, loops[b])[2]):
                    self.havoc_loop(s, fn, fr, b, n)
            if preds.get(b, 0) > 1:
                self.prune(s, fr, live[b])
                key = (b, s.visits, s.ev, s.moved, s.rel, self.pins(s), self.storekey(s))
                o = pend.get(key)
                if o is not None:
                    self.join(o, s)
                    return
                gk = (b, s.visits, s.ev, s.moved, s.rel, self.pins(s))
                g = groups.get(gk)
                if g is None:
                    g = groups[gk] = []
                g[:] = [x for x in g if pend.get(x[0]) is x[1]]
                if len(g) >= self.max_part:
                    k0, o = g[-1]
                    pend.pop(k0)
                    self.join_all(o, s, fn, b)
                    key = (b, o.visits, o.ev, o.moved, o.rel, self.pins(o), self.storekey(o))
                    o2 = pend.get(key)
                    g.pop()
                    if o2 is not None and o2 is not o:
                        self.join(o2, o)
                        dead.add(id(o))
                        keepalive.append(o)
                    else:
                        pend[key] = o
                        keyof[id(o)] = key
                        g.append((key, o))
                    return
                pend[key] = s
                keyof[id(s)] = key
                g.append((key, s))
            else:
                key = None
            seq += 1
            heapq.heappush(heap, (dict(s.visits).get(-1, 0), self.prio(fn, s, b, rpo, loops), seq, b, s, key))

        push(st, 0)
        while heap:
            _, _, _, b, s, key = heapq.heappop(heap)
            if key is not None:
                if id(s) in dead:
                    continue
                key = keyof.pop(id(s), key)
                if pend.get(key) is s:
                    del pend[key]
            cnt += 1
            self.steps += 1
            if cnt > self.max_paths:
                raise Limit("too many abstract paths in %s" % fn.path)
            for s2, nb in self.block(s, fn, fr, b, ctx):
                if nb in ("ret", "panic", "cut"):
                    results.append((s2[0], nb, s2[1], s2[2]))
                else:
                    push(s2, nb)
        # drop this frame's locals and merge equal outcomes
        out = {}
        for s, kind, ret, where in results:
            s.visits = saved_visits
            self.drop_frame(s, fr, ret)
            key = (kind, ret, s.ev, s.moved, where, s.rel, self.pins(s), self.storekey(s))
            o = out.get(key)
            if o is not None:
                self.join(o[0], s)
            else:
                out[key] = (s, kind, ret, where)
        return list(out.values())

    def pins(self, s):
        if not self.pin:
            return None
        return frozenset((t, v) for t, v in s.facts.items() if self.is_pinned(t))

    def is_pinned(self, t):
        r = self._pinned.get(t)
        if r is None:
            r = self._pinned[t] = any((x.k == "X" and ((x.a[0], "") in self.pin or (short(x.a[0]), "") in self.pin)) or (x.k == "F" and (x.a[1][0].split("::")[-1], x.a[1][2]) in self.pin) or
                                      (x.k == "&" and any((q[0].split("::")[-1], q[2]) in self.pin for q in x.a[1]))
                                      for x in walk(t))
        return r

    def storekey(self, s):
        for r in [r for r, d in s.store.items() if not d]:
            del s.store[r]
        k = frozenset((r, frozenset(d.items())) for r, d in s.store.items())
        return (k, frozenset(s.facts.items())) if self.keep_facts else k

    def join(self, o, s):
        """o := o join s, for states with equal stores"""
        o.facts = {k: v for k, v in o.facts.items() if s.facts.get(k) == v}
        if o.epoch != s.epoch:
            o.epoch = self.fresh(o.epoch, s.epoch)
        if o.ver is not s.ver and o.ver != s.ver:
            ver = dict(o.ver)
            for k in set(ver) | set(s.ver):
                a, b = ver.get(k, 0), s.ver.get(k, 0)
                if a != b:
                    ver[k] = self.fresh(a, b)
            o.ver = ver

    def fresh(self, a, b):
        k = ("fv", max(a, b), min(a, b))
        r = self._live.get(k)
        if r is None:
            self._freshn += 1
            r = self._live[k] = 1000000 + self._freshn
        return r

    def join_all(self, o, s, fn, b):
        """o := o join s, for different stores: what differs becomes unknown"""
        for r in set(o.store) | set(s.store):
            d, e = o.store.get(r), s.store.get(r)
            if d == e:
                continue
            if r[0] == "L":
                if d is None or e is None:
                    o.store.pop(r, None)
                else:
                    v = mk("P", "phi:%s:%d:%s:%d" % (r[1][0], b, r[2], hash(r) & 0xffffff))
                    if isinstance(r[2], int) and r[1][0] == fn.id:
                        self.types[v] = fn.locals[r[2]]["s"]
                    o.store[r] = {(): v}
            else:
                both = {p: v for p, v in (d or {}).items() if (e or {}).get(p) is v}
                o.store[r] = both
        self.join(o, s)

    def prio(self, fn, s, b, rpo, loops):
        # process loop iterations before what follows the loop
        v = sum(n for _, n in s.visits)
        return (v, rpo[b])

    def prune(self, s, fr, live):
        for r in [r for r in s.store if r[0] == "L" and r[1] == fr and r[2] not in live]:
            del s.store[r]
        if s.moved:
            s.moved = frozenset(m for m in s.moved if m[0] in s.store)

    def drop_frame(self, s, fr, ret):
        keep = set()
        # locals still referenced by the returned value (references into a finished frame do not occur
        # in safe code, but opaque closures may carry them)
        for t in walk(ret) if isinstance(ret, Term) else ():
            if t.k == "&" and t.a[0][0] == "L" and t.a[0][1] == fr:
                keep.add(t.a[0])
        for r in [r for r in s.store if r[0] == "L" and r[1] == fr and r not in keep]:
            del s.store[r]
        if s.moved:
            s.moved = frozenset(m for m in s.moved if m[0] in s.store)

    def havoc_loop(self, s, fn, fr, head, n):
        body = fn.loops()[head]
        locs, fields, yields = self.loop_mods(fn, head, body)
        for l in locs:
            r = ("L", fr, l)
            if r in s.store and fn.locals[l]["k"] != "clo":
                v = mk("P", "loop:%s:%s:%d:%d" % (fn.id, fn.names.get(l, l), head, n))
                self.types[v] = fn.locals[l]["s"]
                s.store[r] = {(): v}
        if yields:
            self.forget_heap(s)
        for key in fields:
            self.bump(s, key)

    def loop_mods(self, fn, head, body):
        ck = ("lm", fn.id, head)
        r = self._live.get(ck)
        if r is not None:
            return r
        locs, fields, yields = set(), set(), False
        iters = set()
        for b in body:
            blk = fn.blocks[b]
            if blk["t"] and blk["t"][0] == "call":
                c = self.F.callee(blk["t"])
                if c and c["path"].endswith(("Iterator::next", "Future::poll", "Pin::<Ptr>::new_unchecked")):
                    for o in blk["t"][2]:
                        if "m" in o or "c" in o:
                            iters.add((o.get("m") or o.get("c"))[0])
        refs_of = {}
        for b in body:
            for st in fn.blocks[b]["s"]:
                if st[0] == "=" and st[2][0] == "ref" and len(st[1]) == 1:
                    refs_of.setdefault(st[1][0], []).append(st[2])
        # the local behind `&mut iter` passed to next()
        exempt = set()
        todo = list(iters)
        while todo:
            x = todo.pop()
            for rv in refs_of.get(x, []):
                y = rv[1][0]
                if y not in exempt:
                    exempt.add(y)
                    todo.append(y)
        def assigned(pl):
            if "*" in pl:
                fs = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
                for e in fs[-1:]:
                    fields.add((e[1], e[3]))
            elif len(pl) == 1 or True:
                locs.add(pl[0])
        for b in body:
            blk = fn.blocks[b]
            for st in blk["s"]:
                assigned(st[1])
                if st[0] == "=" and st[2][0] == "ref" and st[2][2]:
                    pl = st[2][1]
                    if "*" in pl:
                        fs = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
                        for e in fs[-1:]:
                            fields.add((e[1], e[3]))
                    elif pl[0] not in exempt:
                        locs.add(pl[0])
            t = blk["t"]
            if t and t[0] == "call":
                assigned(t[3])
                c = self.F.callee(t)
                if c:
                    for i in (c.get("rid"), c["id"]):
                        if i in self._modsets:
                            fields |= self._modsets[i][0]
                            break
                for a in t[6] if len(t) > 6 else []:
                    pass
            if t and t[0] == "yield":
                yields = True
            for st in blk["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "clo" and st[2][2] in self._modsets:
                    fields |= self._modsets[st[2][2]][0]
        fields = {f for f in fields if f in self._mutfields}
        locs -= set()
        r = (locs, fields, yields)
        self._live[ck] = r
        self._live["lx", fn.id, head] = frozenset(exempt)
        return r

    def listed(self, s, fn, fr, head, body):
        """the loop goes over a list that is written out: its turns are followed one by one"""
        self.loop_mods(fn, head, body)
        for y in self._live["lx", fn.id, head]:
            v = s.store.get(("L", fr, y), {}).get(())
            if v is None:
                continue
            if v.k == "X" and v.a[0] == "itpos":
                v = v.a[1][0]
            if v.k == "&":
                v = self.read(s, v.a[0], v.a[1])
            if v.k == "A" and v.a[0] == "[]" and len(v.a[2]) <= 4:
                return True
        return False

    def block(self, s, fn, fr, b, ctx):
        """execute a block: yields (state, successor) or ((state, value, where), 'ret'|'panic'|'cut')"""
        blk = fn.blocks[b]
        s = s.copy()
        for stt in blk["s"]:
            if stt[0] == "=":
                v = self.rvalue(s, fr, fn, stt[2])
                r, p = self.place(s, fr, stt[1])
                if r[0] == "H" and self.hook:
                    self.emit(s, "write", fieldname(p), (mk("&", r, p), v, self.read(s, r, p)), fn, stt[3])
                self.write(s, r, p, v)
            else:
                r, p = self.place(s, fr, stt[1])
                self.write(s, r, p, mk("A", "?", stt[2], ()))
        t = blk["t"]
        if t is None:
            return
        k = t[0]
        if k == "goto":
            yield s, t[1]
        elif k == "ret":
            v = self.read(s, ("L", fr, 0), ())
            if v.k == "P" and v.a[0].startswith("uninit"):
                v = UNIT
            yield (s, v, (fn, b)), "ret"
        elif k in ("unreachable", "unwind"):
            return
        elif k == "switch":
            yield from self.switch(s, fr, fn, t)
        elif k == "drop":
            r, p = self.place(s, fr, t[1])
            done = False
            if r[0] == "L":
                if (r, p) in s.moved or any(m[0] == r and p[:len(m[1])] == m[1] for m in s.moved) \
                        or r not in s.store:
                    done = True
            if done:
                yield s, t[3]
            else:
                for s2 in self.drop_place(s, r, p, t[2], fn, t[5], ctx + (b,)):
                    yield s2, t[3]
        elif k == "assert":
            if self.track_asserts:
                ops = tuple(self.operand(s, fr, o) for o in t[4])
                ty = ""
                for o in t[4]:
                    if "k" in o:
                        ty = o["k"].get("ty", {}).get("s", ty)
                    else:
                        pl = o.get("c", o.get("m"))
                        if len(pl) == 1:
                            ty = fn.locals[pl[0]]["s"]
                    if t[3].startswith("overflow:Sh"):
                        break
                self.emit(s, "assert", t[3], ops, fn, t[6], (ty, self.operand(s, fr, t[1]), bool(t[2])))
            c = self.operand(s, fr, t[1])
            if self.assume(s, c, 1 if t[2] else 0):
                yield s, t[5]
        elif k == "yield":
            self.emit(s, "yield", "", (), fn, t[3])
            self.forget_heap(s)
            r, p = self.place(s, fr, t[2])
            self.write(s, r, p, mk("P", "resume"))
            yield s, t[1]
        elif k == "call":
            args = [self.operand(s, fr, o) for o in t[2]]
            fterm = self.operand(s, fr, t[1])
            for s2, out, v, where in self.call(s, fterm, args, t, fn, fr, b, ctx):
                if out == "ret":
                    if t[4] < 0:
                        yield (s2, v, (fn, b)), "panic"
                        continue
                    r, p = self.place(s2, fr, t[3])
                    if r[0] == "H" and self.hook:
                        self.emit(s2, "write", fieldname(p), (mk("&", r, p), v, self.read(s2, r, p)), fn, t[5])
                    self.write(s2, r, p, v)
                    if v.k == "X" and len(t[3]) == 1 and v not in self.types:
                        self.types[v] = fn.locals[t[3][0]]["s"]
                    yield s2, t[4]
                else:
                    yield (s2, v, where), out
        else:
            return

    def switch(self, s, fr, fn, t):
        d = self.operand(s, fr, t[1])
        tgts, other = t[3], t[4]
        if d.k == "D":
            v, adt = d.a
            names = {}
            for x in self.F.variants(adt):
                names[x["discr"]] = x["name"]
            if not names and adt in VARS:
                names = dict(enumerate(VARS[adt]))
            used = []
            for val, tb in tgts:
                n = names.get(val, str(val))
                used.append(n)
                s2 = s.copy()
                if self.assume_variant(s2, v, n, adt):
                    self.emit(s2, "branch", n, (v,), fn, t[5])
                    yield s2, tb
            if fn.blocks[other]["t"] and fn.blocks[other]["t"][0] == "unreachable" and not fn.blocks[other]["s"]:
                return
            s2 = s.copy()
            left = [n for n in names.values() if n not in used]
            if names and not left:
                return
            if self.assume_not(s2, v, used, adt):
                self.emit(s2, "branch", "|".join(left), (v,), fn, t[5])
                yield s2, other
            return
        if t[2]["s"] == "bool":
            for val, tb in [(x[0], x[1]) for x in tgts] + [(None, other)]:
                s2 = s.copy()
                b = 0 if val == 0 else 1
                if self.assume(s2, d, b):
                    self.emit(s2, "branch", str(b), (d,), fn, t[5])
                    yield s2, tb
            return
        used = []
        for val, tb in tgts:
            s2 = s.copy()
            used.append(val)
            if self.assume_int(s2, d, val, 1):
                self.emit(s2, "branch", "=%d" % val, (d,), fn, t[5])
                yield s2, tb
        s2 = s.copy()
        for val in used:
            if not self.assume_int(s2, d, val, 0):
                return
        self.emit(s2, "branch", "other", (d,), fn, t[5])
        yield s2, other

    # ---- drops --------------------------------------------------------------------------------------
    def drop_place(self, s, r, p, ty, fn, line, ctx):
        if ty["r"] or not self.type_has_drop(ty["s"]):
            yield s
            return
        v = self.read(s, r, p)
        yield from self.drop_value(s, v, ty["s"], fn, line, ctx, mk("&", r, p))

    def type_has_drop(self, tys):
        ck = ("hd", tys)
        r = self._live.get(ck)
        if r is None:
            r = any(a in tys for a in self.drop_adts())
            self._live[ck] = r
        return r

    def drop_adts(self):
        r = self._live.get("dropadts")
        if r is None:
            ws = {k: a for k, a in self.F.adts.items() if a["local"] and k.startswith("ntex_amqp")}
            r = {k for k, a in ws.items() if a.get("drop")}
            ch = True
            while ch:
                ch = False
                for k, a in ws.items():
                    if k in r or k.endswith("cell::Cell"):
                        continue
                    for v in a["variants"]:
                        for f in v["fields"]:
                            s = f["ty"]["s"]
                            if "cell::Cell<" in s or "Rc<" in s or s.startswith("&"):
                                continue
                            if any(x in s for x in r):
                                r = r | {k}
                                ch = True
            self._live["dropadts"] = r
        return r

    def drop_value(self, s, v, tys, fn, line, ctx, ptr=None):
        if tys.startswith("&") or tys.startswith("ntex_amqp::cell::Cell<") or not self.type_has_drop(tys):
            yield s
            return
        adt = tys.split("<", 1)[0]
        targs = split_targs(tys)
        a = self.F.adts.get(adt)
        if v.k == "P" and v.a[0].startswith("uninit"):
            yield s
            return
        states = [s]
        if a and a.get("drop"):
            f = self.F.fns.get(a["drop"])
            self.emit(s, "drop", adt, (v,), fn, line)
            if f is not None and not (self.opaque and self.opaque(f)):
                if ptr is None:
                    ptr = mk("&", ("H", v), ())
                states = [x[0] for x in self.call_fn(s, f, [ptr], ctx + ("drop",)) if x[1] == "ret"]
            # fields below
        comps = []
        if adt in (OPT, RES) or adt.endswith("future::either::Either") or adt.endswith("::Either"):
            var = self.variant(states[0], v, adt)
            if var == "None":
                yield from states
                return
            if var is None:
                self.emit(states[0], "maydrop", tys, (v,), fn, line)
                yield from states
                return
            i = {"Some": 0, "Ok": 0, "Err": 1, "Left": 0, "Right": 1}.get(var, 0)
            if i < len(targs):
                comps.append((self.proj(states[0], v, (adt, var, "0")), targs[i]))
        elif adt == "alloc::boxed::Box" and targs:
            comps.append((v, targs[0]))
        elif adt == "()" or tys.startswith("("):
            for i, tt in enumerate(split_tuple(tys)):
                comps.append((self.proj(states[0], v, ("()", "", str(i))), tt))
        elif a and a["variants"]:
            var = self.variant(states[0], v, adt) if a["enum"] else ""
            if var is None:
                self.emit(states[0], "maydrop", tys, (v,), fn, line)
            else:
                for vd in a["variants"]:
                    if a["enum"] and vd["name"] != var:
                        continue
                    for fd in vd["fields"]:
                        comps.append((self.proj(states[0], v, (adt, var, fd["name"])), fd["ty"]["s"]))
        else:
            self.emit(states[0], "maydrop", tys, (v,), fn, line)
        for i, (cv, ct) in enumerate(comps):
            nxt = []
            for st in states:
                nxt += list(self.drop_value(st, cv, ct, fn, line, ctx + (i,)))
            states = nxt
        yield from states

    # ---- calls --------------------------------------------------------------------------------------
    def call(self, s, fterm, args, t, fn, fr, b, ctx):
        line = t[5]
        vis = dict(s.visits).get
        uid = (fn.id, ctx, b, s.visits)
        c = self.F.callee(t)
        if c is None:
            yield from self.call_value(s, fterm, args, uid, fn, line, ctx + (b,) + s.visits)
            return
        cx = Call()
        cx.c, cx.t, cx.fn, cx.line, cx.uid, cx.ctx = c, t, fn, line, uid, ctx + ((b,) + s.visits,)
        cx.argtys = t[7] if len(t) > 7 else []
        cx.macros = t[6]
        yield from self.dispatch(s, cx, args)

    def dispatch(self, s, cx, args):
        c = cx.c
        for key in (c.get("rpath"), c["path"]):
            m = self.models.get(key)
            if m is None and key:
                m = self.models.get(short(key))
            if m is not None:
                r = m(self, s, cx, args)
                if r is not None:
                    yield from r
                    return
        if "ctor" in c and "cadt" in c:
            yield s, "ret", aggl(c["cadt"], c["cvar"], *args), None
            return
        for i in (c.get("rid"), c["id"]):
            f = self.F.fns.get(i)
            if f is not None and not f.in_trait:
                yield from self.inline(s, cx, f, args)
                return
        yield from self.external(s, cx, args)

    def inline(self, s, cx, f, args):
        if f in self.stack or f in self.toobig or self.codec_impl(f) or (self.opaque and self.opaque(f)) or f.name == "fmt":
            yield from self.opaque_call(s, cx, args, f)
            return
        s0 = s
        s = s.copy()
        self.emit(s, "enter", f.path, tuple(args), cx.fn, cx.line)
        try:
            outs = self.call_fn(s, f, args, cx.ctx)
        except Limit:
            # too large to follow here: keep it as an opaque call from now on
            self.toobig.add(f)
            yield from self.opaque_call(s0, cx, args, f)
            return
        for s2, out, v, where in outs:
            if out == "ret" and self.hook:
                self.emit(s2, "leave", f.path, (v,), cx.fn, cx.line)
            yield s2, out, v, where

    def codec_impl(self, f):
        """encoders and decoders are followed only by the codec rules (E.codec_inline)"""
        return not self.codec_inline and f.impl_trait is not None and \
            f.impl_trait.split("<")[0].split("::")[-1] in ("Encode", "Decode", "DecodeFormatted", "ArrayEncode",
                                                           "ArrayDecode", "Hash")

    def opaque_call(self, s, cx, args, f):
        """a workspace function that is not inlined: event + forget what it may modify"""
        s = s.copy()
        self.emit(s, "call", f.path, tuple(args), cx.fn, cx.line, uid=cx.uid, c=cx.c)
        ms = self._modsets.get(f.id)
        if ms:
            for key in ms[0]:
                if key in self._mutfields:
                    self.bump(s, key)
            if ms[1]:
                self.forget_heap(s)
        self.havoc_mutargs(s, cx, args)
        yield s, "ret", mk("X", f.path, tuple(self.deepval(s, a) for a in args), cx.uid), None

    def deepval(self, s, a):
        """a term for an argument, references replaced by what they point to"""
        n = 0
        while a.k == "&" and n < 8:
            a = self.read(s, a.a[0], a.a[1])
            n += 1
        return a

    def havoc_mutargs(self, s, cx, args):
        for i, a in enumerate(args):
            ty = cx.argtys[i]["s"] if i < len(cx.argtys) else ""
            if a.k == "&" and ty.startswith("&mut"):
                r, p = a.a
                old = self.read(s, r, p)
                if old.k == "A" and old.a[0].startswith("clo:"):
                    continue
                nv = mk("X", "mut:" + cx.c["path"], (old,) + tuple(self.deepval(s, x) for j, x in enumerate(args) if j != i), cx.uid)
                if self.hook:
                    self.emit(s, "mutate", cx.c["path"], (a,) + tuple(args[:i] + args[i + 1:]), cx.fn, cx.line)
                self.write(s, r, p, nv)

    def external(self, s, cx, args):
        """a function outside the workspace"""
        c = cx.c
        s = s.copy()
        name = c["path"]
        if cx.t[4] < 0:
            self.emit(s, "panic", name, tuple(args), cx.fn, cx.line)
            yield s, "panic", UNIT, (cx.fn, 0)
            return
        self.emit(s, "call", name, tuple(args), cx.fn, cx.line, uid=cx.uid, c=cx.c)
        res = mk("X", name, tuple(self.deepval(s, a) for a in args), cx.uid)
        if name in PURE or short(name) in PURE_SHORT:
            res = mk("X", name, tuple(self.deepval(s, a) for a in args), 0)
        else:
            self.havoc_mutargs(s, cx, args)
        # closures (and iterators holding closures) handed to outside code may run
        clos = []
        for a in args:
            for x in walk(a):
                if x.k == "A" and isinstance(x.a[0], str) and x.a[0].startswith("clo:"):
                    f = self.F.fns.get(x.a[0][4:])
                    if f is not None and f not in self.stack and (x, f) not in clos:
                        clos.append((x, f))
        if not clos or short(name) in LAZY:
            yield s, "ret", res, None
            return
        states = [s]
        for x, f in clos:
            nxt = []
            for s1 in states:
                if not f.coroutine:
                    nxt.append(s1)          # not called
                s1 = s1.copy()
                self.emit(s1, "deferred", name, (x,), cx.fn, cx.line)
                if f.coroutine:
                    self.forget_heap(s1)
                    for s2, out, v, w in self.call_fn(s1, f, [x, mk("P", "resume")], cx.ctx + ("co", f.id)):
                        if out == "ret":
                            self.emit(s2, "deferred-end", name, (x,), cx.fn, cx.line)
                            nxt.append(s2)
                        elif out == "panic":
                            yield s2, out, v, w
                else:
                    a2 = [x] + [mk("P", "cloarg%d:%s" % (i, f.id)) for i in range(f.argc - 1)]
                    a2 = self.closure_args(s1, f, x, [mk("X", "cloarg", (x, C(i)), cx.uid) for i in range(f.argc - 1)])
                    for s2, out, v, w in self.call_fn(s1, f, a2, cx.ctx + ("clo", f.id)):
                        if out == "ret":
                            nxt.append(s2)
                        elif out == "panic":
                            yield s2, out, v, w
            states = nxt
        for s1 in states:
            yield s1, "ret", res, None

    def closure_args(self, s, f, x, rest):
        """the closure's self argument: by reference or by value, as its body expects"""
        if f.locals[1]["r"]:
            slot = ("L", ("tmp", f.id, x), 0)
            if x.k == "&":
                return [x] + rest
            s.store[slot] = {(): x}
            return [mk("&", slot, ())] + rest
        return [x] + rest

    def call_value(self, s, fv, args, uid, fn, line, ctx):
        """call through a value (closure or function item); args already untupled"""
        n = 0
        base = fv
        while base.k == "&" and n < 8:
            base = self.read(s, base.a[0], base.a[1])
            n += 1
        if base.k == "A" and base.a[0].startswith("clo:"):
            f = self.F.fns.get(base.a[0][4:])
            if f is not None and f not in self.stack:
                s = s.copy()
                a2 = self.closure_args(s, f, fv if (fv.k == "&" and f.locals[1]["r"]) else base, list(args))
                yield from self.call_fn(s, f, a2, (ctx, "clo"))
                return
        if base.k == "fn":
            f = self.F.fns.get(base.a[0])
            c = base.a[2].d
            cx = Call()
            cx.c, cx.t, cx.fn, cx.line, cx.uid, cx.ctx = c, [None, None, None, None, 0, line], fn, line, uid, (ctx, "fn")
            cx.argtys, cx.macros = [], []
            yield from self.dispatch(s, cx, list(args))
            return
        s = s.copy()
        self.emit(s, "call", "<value>", (base,) + tuple(args), fn, line)
        yield s, "ret", mk("X", "<value>", (base,) + tuple(self.deepval(s, a) for a in args), uid), None

    def poll_value(self, s, v, where, ctx):
        """poll a future value; yields with Poll results"""
        fn, line = where
        n = 0
        ptr = v
        while v.k == "&" and n < 8:
            ptr = v
            v = self.read(s, v.a[0], v.a[1])
            n += 1
        if v.k == "A" and v.a[0].startswith("clo:"):
            f = self.F.fns.get(v.a[0][4:])
            if f is not None and f not in self.stack and not (self.opaque and self.opaque(f)):
                self.emit(s, "await-in", f.path, (), fn, line)
                for s2, out, r, w in self.call_fn(s, f, [v, mk("P", "resume")], (ctx, "poll", f.id)):
                    if out == "ret":
                        yield s2, "ret", aggl(POLL, "Ready", r), None
                    else:
                        yield s2, out, r, w
                return
        if v.k == "A" and v.a[0] == "PollFn":
            s = s.copy()
            self.forget_heap(s)
            for s2, out, r, w in self.call_value(s, v.a[2][0][1], [mk("P", "cx")], ctx, fn, line, (ctx, "pollfn")):
                if out == "ret":
                    var = self.variant(s2, r, POLL)
                    if var == "Pending":
                        s2 = s2.copy()
                        self.emit(s2, "pending", "", (), fn, line)
                        yield s2, "ret", aggl(POLL, "Pending"), None
                    else:
                        yield s2, "ret", r, None
                else:
                    yield s2, out, r, w
            return
        if v.k == "A" and v.a[0].endswith("Either") and v.a[2]:
            yield from self.poll_value(s, v.a[2][0][1], where, ctx)
            return
        if v.k == "A" and v.a[0].endswith("ready::Ready"):
            var = v.a[1]
            if var in ("Ok", "Err"):
                yield s, "ret", aggl(POLL, "Ready", aggl(RES, var, *[x for _, x in v.a[2]])), None
                return
        if v.k == "X" and v.a[0].endswith(("time::timeout_checked", "time::timeout")) and len(v.a[1]) == 2:
            # a future bounded in time: gives up, or runs to its end
            s0 = s.copy()
            self.emit(s0, "timeout", "", (v.a[1][0],), fn, line)
            yield s0, "ret", aggl(POLL, "Ready", ERR(UNIT)), None
            s = s.copy()
            self.emit(s, "timed", "", (v.a[1][0],), fn, line)
            for s2, out, r, w in self.poll_value(s, v.a[1][1], where, ctx):
                if out == "ret":
                    s2 = s2.copy()
                    self.emit(s2, "timed-end", "", (), fn, line)
                    var = self.variant(s2, r, POLL)
                    r = r if var == "Pending" else aggl(POLL, "Ready", OK(payload(self, s2, r, POLL, "Ready")))
                yield s2, out, r, w
            return
        s = s.copy()
        self.emit(s, "await", "", (v,), fn, line)
        self.forget_heap(s)
        yield s, "ret", aggl(POLL, "Ready", mk("X", "await", (v,), (ctx, fn.id, line))), None


class _EvNode:
    __slots__ = ("prev", "e")

    def __init__(self, prev, e):
        self.prev, self.e = prev, e


class FnRef:
    """callee record carried inside a term (identity by id)"""
    _tab = {}

    def __new__(cls, d):
        k = (d.get("rid"), d["id"], str(d.get("targs")))
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.d = d
            cls._tab[k] = o
        return o


class Call:
    __slots__ = ("c", "t", "fn", "line", "uid", "ctx", "argtys", "macros")

    def targ(self, i):
        l = self.c.get("targs") or []
        return l[i] if i < len(l) else {"s": "", "h": "", "k": "", "r": 0}


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(freeze(v) for v in x)
    return x


def fieldname(path):
    for f in reversed(path):
        if f[0] not in ("[]",):
            return (f[0] + "::" + f[1] if f[1] else f[0]) + "." + str(f[2])
    return ""


def short(p):
    """Type::method without generics"""
    r = _SHORT.get(p)
    if r is None:
        r = _SHORT[p] = _short(p)
    return r


_SHORT = {}


def _short(p):
    m = re.match(r"(.*)::<impl ([^ ]+)>::(\w+)$", p)
    if m:
        t = m.group(2)
        if t.startswith("["):
            t = "slice"
        elif t.startswith("*"):
            t = "ptr"
        t = re.sub(r"<.*", "", t)
        return t.split("::")[-1] + "::" + m.group(3)
    p = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", p)))
    return "::".join([x for x in p.split("::") if x][-2:])


def split_targs(s):
    if "<" not in s:
        return []
    body = s[s.index("<") + 1:s.rindex(">")]
    return split_commas(body)


def split_tuple(s):
    return split_commas(s[1:-1])


def split_commas(body):
    out, d, cur = [], 0, ""
    prev = ""
    for ch in body:
        if ch in "<([":
            d += 1
        elif ch in ")]" or (ch == ">" and prev != "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur.strip())
    return out


def mutable_fields(F):
    """(adt, field) pairs of workspace types that are assigned or mutably borrowed after construction"""
    r = getattr(F, "_mutf", None)
    if r is not None:
        return r
    mut = set()

    def note(pl):
        # every field on the way whose content is written in place
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f" and e[1].startswith("ntex_amqp"):
                mut.add((e[1], e[3]))
    for f in F.fns.values():
        for b in f.blocks:
            for s in b["s"]:
                if len(s[1]) > 1:
                    note_last(s[1], mut)
                if s[0] == "=" and s[2][0] == "ref" and s[2][2] and len(s[2][1]) > 1:
                    note_last(s[2][1], mut)
            t = b["t"]
            if t and t[0] == "call" and len(t[3]) > 1:
                note_last(t[3], mut)
    # interior mutability
    for k, a in F.adts.items():
        if a["local"] and k.startswith("ntex_amqp"):
            for v in a["variants"]:
                for fd in v["fields"]:
                    s = fd["ty"]["s"]
                    if s.startswith(("core::cell::Cell<", "core::cell::RefCell<", "std::cell::")):
                        mut.add((k, fd["name"]))
    F._mutf = mut
    return mut


def note_last(pl, mut):
    """the fields after the last deref: they are stored inline in what is written"""
    es = []
    for e in pl[1:]:
        if e == "*":
            es = []
        elif isinstance(e, list) and e[0] == "f" and e[1].startswith("ntex_amqp"):
            es.append((e[1], e[3]))
    mut.update(es)


def facts_modsets(F):
    """fn id -> (set of (adt, field) it or its callees may modify, may suspend)"""
    r = F._modsets
    if r is not None:
        return r
    mods, calls, susp = {}, {}, {}
    for f in F.fns.values():
        m, cs, y = set(), set(), False
        for b in f.blocks:
            if b["cl"]:
                continue
            for s in b["s"]:
                if len(s[1]) > 1:
                    note_last(s[1], m)
                if s[0] == "=" and s[2][0] == "ref" and s[2][2] and len(s[2][1]) > 1:
                    note_last(s[2][1], m)
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "clo":
                    cs.add(s[2][2])
            t = b["t"]
            if t and t[0] == "call":
                if len(t[3]) > 1:
                    note_last(t[3], m)
                c = F.callee(t)
                if c:
                    cs.add(c.get("rid") or c["id"])
            if t and t[0] == "drop" and not t[2]["r"]:
                a = F.adts.get(t[2]["h"])
                if a and a.get("drop"):
                    cs.add(a["drop"])
            if t and t[0] == "yield":
                y = True
        mods[f.id], calls[f.id], susp[f.id] = m, cs, y
    ch = True
    while ch:
        ch = False
        for i in mods:
            n = len(mods[i])
            sy = susp[i]
            for c in calls[i]:
                if c in mods:
                    mods[i] |= mods[c]
            if len(mods[i]) != n or susp[i] != sy:
                ch = True
    r = {i: (mods[i], susp[i]) for i in mods}
    F._modsets = r
    return r


# ---- models of library functions ---------------------------------------------------------------------
PURE = set()
PURE_SHORT = {
    "Slab::get", "Slab::get_mut", "Slab::contains", "HashMap::get", "HashMap::get_mut", "HashMap::contains_key",
    "HashMap::len", "VecDeque::len", "VecDeque::back", "VecDeque::front", "VecDeque::back_mut",
    "VecDeque::front_mut", "VecDeque::get", "VecDeque::get_mut", "VecDeque::is_empty", "Vec::len",
    "Vec::is_empty", "Bytes::len", "BytesMut::len", "Bytes::is_empty", "BytesMut::is_empty", "str::len",
    "ByteString::len", "IoRef::tag", "IoRef::is_closed", "IoRef::cfg", "HashMap::is_empty", "Slab::is_empty",
    "Slab::len", "slice::len", "Option::is_some", "u32::wrapping_add", "u32::wrapping_sub", "BytePages::len",
    "VacantEntry::key", "Index::index", "IndexMut::index_mut", "u32::saturating_sub", "usize::saturating_sub",
    "Ord::min", "Ord::max", "cmp::min", "cmp::max", "u32::saturating_add",
    "HashMap::values", "HashMap::values_mut", "HashMap::iter", "HashMap::iter_mut", "Slab::iter",
    "Slab::iter_mut", "VecDeque::iter", "VecDeque::iter_mut", "Vec::iter", "IntoIterator::into_iter",
    "slice::iter", "slice::iter_mut", "LocalWaker::register", "HashMap::keys",
}
LAZY = {"Iterator::map", "Iterator::filter_map", "Iterator::filter", "Iterator::take_while", "Iterator::enumerate",
        "future::poll_fn", "time::timeout_checked", "time::timeout"}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ret(s, v):
    return [(s, "ret", v, None)]


def opt_split(E, s, v, adt):
    """[(state, variant)] for an enum value"""
    k = E.variant(s, v, adt)
    if k is not None:
        return [(s, k)]
    out = []
    for n in VARS[adt]:
        s2 = s.copy()
        if E.assume_variant(s2, v, n, adt):
            out.append((s2, n))
    return out


def payload(E, s, v, adt, var, i="0"):
    return E.proj(s, v, (adt, var, i))


def enum_of(cx, path=None):
    p = path or cx.c["path"]
    if "option::Option" in p:
        return OPT
    if "result::Result" in p:
        return RES
    if "poll::Poll" in p:
        return POLL
    return None


def deref_val(E, s, a):
    n = 0
    while a.k == "&" and n < 6:
        a = E.read(s, a.a[0], a.a[1])
        n += 1
    return a


def ptr_to(E, s, a):
    """location a pointer value designates"""
    if a.k == "&":
        return a.a
    return ("H", a), ()


@model("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "Into::into_iter_",
       "core::clone::Clone::clone")
def m_clone(E, s, cx, args):
    a = args[0]
    if a.k == "&":
        v = E.read(s, a.a[0], a.a[1])
        # clone of a reference-holding option: also strip payload references
        return ret(s, strip_refs(E, s, v))
    return ret(s, a)


def strip_refs(E, s, v):
    if v.k == "&":
        return E.read(s, v.a[0], v.a[1])
    if v.k == "A" and v.a[0] == OPT and v.a[2] and v.a[2][0][1].k == "&":
        return SOME(E.read(s, v.a[2][0][1].a[0], v.a[2][0][1].a[1]))
    return v


MODELS["Option::cloned"] = MODELS["Option::copied"] = lambda E, s, cx, args: ret(s, strip_refs(E, s, args[0]))


def is_ws(cx):
    return False


@model("Cell::get_ref", "Cell::get_mut")
def m_cell(E, s, cx, args):
    if "cell::Cell" not in cx.c["path"]:
        return None
    if "ntex_amqp" not in cx.c["path"]:
        return None
    v = deref1(E, s, args[0])
    return ret(s, v if v.k == "&" else mk("&", ("H", v), ()))


def deref1(E, s, a):
    """value behind one reference"""
    if a.k == "&":
        return E.read(s, a.a[0], a.a[1])
    return a


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "Box::as_mut", "Box::as_ref",
       "AsMut::as_mut")
def m_deref(E, s, cx, args):
    rp = cx.c.get("rpath") or cx.c["path"]
    f = E.F.fns.get(cx.c.get("rid"))
    if "ntex_amqp::cell::Cell" in rp:
        v = deref1(E, s, args[0])
        return ret(s, v if v.k == "&" else mk("&", ("H", v), ()))
    if f is not None:
        return None     # workspace Deref impl: inline
    a = args[0]
    ty = cx.argtys[0]["s"] if cx.argtys else ""
    if any(x in ty for x in ("rc::Rc<", "Ref<", "RefMut<", "sync::Arc<")):
        v = deref1(E, s, a)
        return ret(s, v if v.k == "&" else mk("&", ("H", v), ()))
    return ret(s, a)    # Box, Pin, Bytes, String, Vec, ...: transparent


MODELS["RefCell::borrow_mut"] = MODELS["RefCell::borrow"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["Pin::new_unchecked"] = MODELS["Pin::new"] = MODELS["Pin::as_mut"] = MODELS["Pin::get_mut"] = \
    lambda E, s, cx, args: ret(s, args[0])
MODELS["Box::new"] = MODELS["Box::pin"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["IntoFuture::into_future"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["RefCell::new"] = MODELS["UnsafeCell::new"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["Pin::get_unchecked_mut"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["hint::must_use"] = lambda E, s, cx, args: ret(s, args[0])
MODELS["convert::identity"] = lambda E, s, cx, args: ret(s, args[0])


@model("Cell::new")
def m_cell_new(E, s, cx, args):
    if "ntex_amqp" in cx.c["path"]:
        s = s.copy()
        o = mk("O", cx.uid)
        s.store[("H", o)] = {(): args[0]}
        E.emit(s, "alloc", cx.c["path"], (o, args[0]), cx.fn, cx.line)
        return ret(s, o)
    return ret(s, args[0])          # std Cell


@model("IoRef::encode", "Io::encode")
def m_encode(E, s, cx, args):
    """writing a frame: the failing outcome (cascade into ConnectionInner::set_error) is followed only
    by the rules that ask for it (E.encode_err)"""
    if E.encode_err:
        return None
    s = s.copy()
    E.emit(s, "call", cx.c["path"], tuple(args), cx.fn, cx.line, c=cx.c)
    return ret(s, OK(UNIT))


@model("LocalKey::with")
def m_tls_with(E, s, cx, args):
    """thread-local storage: one shared object per key"""
    key = deref1(E, s, args[0])
    return E.call_value(s, args[1], [mk("&", ("H", mk("X", "tls", (key,), 0)), ())], cx.uid, cx.fn, cx.line, (cx.ctx, "tls"))


@model("Cell::get")
def m_stdcell_get(E, s, cx, args):
    return ret(s, deref1(E, s, args[0]))


@model("Cell::set", "Cell::replace", "Cell::take")
def m_stdcell_set(E, s, cx, args):
    s = s.copy()
    r, p = ptr_to(E, s, args[0])
    old = E.read(s, r, p)
    nv = args[1] if len(args) > 1 else mk("P", "default")
    if r[0] == "H":
        E.emit(s, "write", fieldname(p), (mk("&", r, p), nv, old), cx.fn, cx.line)
    E.write(s, r, p, nv)
    return ret(s, UNIT if short(cx.c["path"]) == "Cell::set" else old)


@model("Rc::new", "Arc::new")
def m_rc_new(E, s, cx, args):
    s = s.copy()
    o = mk("O", cx.uid)
    s.store[("H", o)] = {(): args[0]}
    return ret(s, o)


@model("mem::replace")
def m_replace(E, s, cx, args):
    s = s.copy()
    r, p = ptr_to(E, s, args[0])
    old = E.read(s, r, p)
    if r[0] == "H":
        E.emit(s, "write", fieldname(p), (mk("&", r, p), args[1], old), cx.fn, cx.line)
    E.write(s, r, p, args[1])
    return ret(s, old)


@model("mem::take")
def m_take(E, s, cx, args):
    s = s.copy()
    r, p = ptr_to(E, s, args[0])
    old = E.read(s, r, p)
    nv = mk("X", "default", (C(0, cx.targ(0)["s"]),), 0)
    if cx.targ(0)["h"] == OPT:
        nv = NONE
    if r[0] == "H":
        E.emit(s, "write", fieldname(p), (mk("&", r, p), nv, old), cx.fn, cx.line)
        E.emit(s, "mutate", "mem::take", (mk("&", r, p),), cx.fn, cx.line)
    E.write(s, r, p, nv)
    return ret(s, old)


@model("mem::swap")
def m_swap(E, s, cx, args):
    s = s.copy()
    r, p = ptr_to(E, s, args[0])
    r2, p2 = ptr_to(E, s, args[1])
    a, b = E.read(s, r, p), E.read(s, r2, p2)
    E.write(s, r, p, b)
    E.write(s, r2, p2, a)
    return ret(s, UNIT)


@model("mem::drop")
def m_drop(E, s, cx, args):
    ty = cx.argtys[0]["s"] if cx.argtys else ""
    return [(x, "ret", UNIT, None) for x in E.drop_value(s, args[0], ty, cx.fn, cx.line, cx.ctx)]


MODELS["mem::forget"] = lambda E, s, cx, args: ret(s, UNIT)


@model("Option::take", "Option::replace", "Option::insert")
def m_opt_take(E, s, cx, args):
    s = s.copy()
    r, p = ptr_to(E, s, args[0])
    old = E.read(s, r, p)
    m = short(cx.c["path"]).split("::")[1]
    nv = NONE if m == "take" else SOME(args[1])
    if r[0] == "H":
        E.emit(s, "write", fieldname(p), (mk("&", r, p), nv, old), cx.fn, cx.line)
        E.emit(s, "mutate", "Option::" + m, (mk("&", r, p),), cx.fn, cx.line)
    E.write(s, r, p, nv)
    if m == "insert":
        return ret(s, mk("&", r, p + ((OPT, "Some", "0"),)))
    return ret(s, old)


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut",
       "Option::as_pin_mut")
def m_as_ref(E, s, cx, args):
    adt = enum_of(cx)
    r, p = ptr_to(E, s, args[0])
    v = E.read(s, r, p)
    out = []
    for s2, var in opt_split(E, s, v, adt):
        if var == "None":
            out.append((s2, "ret", NONE, None))
        else:
            if v.k == "A":
                inner = mk("&", r, p + ((adt, var, "0"),))
            else:
                inner = mk("&", r, p + ((adt, var, "0"),))
            out.append((s2, "ret", aggl(adt, var, inner), None))
    return out


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err", "Poll::is_ready", "Poll::is_pending")
def m_is(E, s, cx, args):
    adt = enum_of(cx)
    v = deref1(E, s, args[0])
    m = short(cx.c["path"]).split("::")[1]
    name = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err", "is_ready": "Ready",
            "is_pending": "Pending"}[m]
    k = E.variant(s, v, adt)
    if k is not None:
        return ret(s, C(int(k == name)))
    # canonical positive form
    pos = {"None": "Some", "Err": "Ok", "Pending": "Ready"}.get(name)
    if pos:
        return ret(s, E.neg(mk("is", v, pos)))
    return ret(s, mk("is", v, name))


def m_unwrapish(E, s, cx, args, kind):
    adt = enum_of(cx)
    v = args[0]
    good = {OPT: "Some", RES: "Ok"}[adt]
    out = []
    known = E.variant(s, v, adt)
    for s2, var in opt_split(E, s, v, adt):
        if var == good:
            if kind in ("unwrap", "expect"):
                E.emit(s2, "unwrap", kind, (v,), cx.fn, cx.line, x=("known" if known else "unknown"))
            out.append((s2, "ret", payload(E, s2, v, adt, var), None))
        elif kind in ("unwrap", "expect"):
            s2 = s2.copy()
            E.emit(s2, "panic", cx.c["path"], tuple(args), cx.fn, cx.line)
            out.append((s2, "panic", v, (cx.fn, 0)))
        elif kind == "unwrap_or":
            out.append((s2, "ret", args[1], None))
        elif kind == "unwrap_or_default":
            h = cx.c.get("targs") or [{"s": "?"}]
            ty = h[0]["s"]
            dv = C(0) if ty in ("u8", "u16", "u32", "u64", "usize", "bool", "i32", "i64") else \
                mk("X", "default", (C(0, ty),), 0)
            out.append((s2, "ret", dv, None))
        elif kind == "unwrap_or_else":
            ex = [payload(E, s2, v, adt, var)] if adt == RES else []
            out += list(E.call_value(s2, args[1], ex, cx.uid, cx.fn, cx.line, (cx.ctx, "u")))
    return out


for _k in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
    for _t in ("Option", "Result"):
        MODELS["%s::%s" % (_t, _k)] = (lambda k: lambda E, s, cx, args: m_unwrapish(E, s, cx, args, k))(_k)


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::ok_or_else",
       "Option::or_else", "Result::or_else", "Option::map_or", "Result::map_or", "Option::map_or_else",
       "Result::map_or_else", "Option::is_some_and", "Option::is_none_or", "Option::filter", "Result::is_ok_and",
       "Option::inspect", "Result::inspect", "Result::inspect_err", "Result::is_err_and", "Poll::map", "Poll::map_err",
       "Option::zip", "Option::get_or_insert_with", "Option::xor")
def m_comb(E, s, cx, args):
    adt = enum_of(cx)
    m = short(cx.c["path"]).split("::")[1]
    v = args[0]
    out = []
    good = {OPT: "Some", RES: "Ok", POLL: "Ready"}[adt]

    def call(s2, f, a):
        return E.call_value(s2, f, a, cx.uid, cx.fn, cx.line, (cx.ctx, m))

    def mapret(it, w):
        for s3, o, r, wh in it:
            yield (s3, o, w(r) if o == "ret" else r, wh)
    if m == "zip" or m == "xor":
        return None
    if m == "get_or_insert_with":
        r, p = ptr_to(E, s, v)
        cur = E.read(s, r, p)
        for s2, var in opt_split(E, s, cur, OPT):
            if var == "Some":
                out.append((s2, "ret", mk("&", r, p + ((OPT, "Some", "0"),)), None))
            else:
                for s3, o, x, wh in call(s2, args[1], []):
                    if o == "ret":
                        s3 = s3.copy()
                        if r[0] == "H":
                            E.emit(s3, "write", fieldname(p), (mk("&", r, p), SOME(x), cur), cx.fn, cx.line)
                        E.write(s3, r, p, SOME(x))
                        out.append((s3, "ret", mk("&", r, p + ((OPT, "Some", "0"),)), None))
                    else:
                        out.append((s3, o, x, wh))
        return out
    if adt == POLL and m == "map_err":
        # Poll<Result<..>>
        for s2, var in opt_split(E, s, v, adt):
            if var == "Pending":
                out.append((s2, "ret", aggl(POLL, "Pending"), None))
                continue
            rv = payload(E, s2, v, POLL, "Ready")
            for s3, rvar in opt_split(E, s2, rv, RES):
                if rvar == "Ok":
                    out.append((s3, "ret", aggl(POLL, "Ready", OK(payload(E, s3, rv, RES, "Ok"))), None))
                else:
                    out += list(mapret(call(s3, args[1], [payload(E, s3, rv, RES, "Err")]),
                                       lambda x: aggl(POLL, "Ready", ERR(x))))
        return out
    for s2, var in opt_split(E, s, v, adt):
        pay = payload(E, s2, v, adt, var) if var not in ("None", "Pending") else None
        if m == "map":
            if var == good:
                out += list(mapret(call(s2, args[1], [pay]), lambda x, var=var: aggl(adt, var, x)))
            else:
                out.append((s2, "ret", same(adt, var, pay), None))
        elif m == "map_err":
            if var == "Err":
                out += list(mapret(call(s2, args[1], [pay]), ERR))
            else:
                out.append((s2, "ret", same(adt, var, pay), None))
        elif m == "and_then":
            if var == good:
                out += list(call(s2, args[1], [pay]))
            else:
                out.append((s2, "ret", same(adt, var, pay), None))
        elif m == "or_else":
            if var == good:
                out.append((s2, "ret", same(adt, var, pay), None))
            else:
                out += list(call(s2, args[1], [pay] if adt == RES else []))
        elif m == "ok_or_else":
            if var == good:
                out.append((s2, "ret", OK(pay), None))
            else:
                out += list(mapret(call(s2, args[1], []), ERR))
        elif m in ("map_or", "map_or_else"):
            if var == good:
                out += list(call(s2, args[2], [pay]))
            elif m == "map_or":
                out.append((s2, "ret", args[1], None))
            else:
                out += list(call(s2, args[1], [pay] if adt == RES else []))
        elif m in ("is_some_and", "is_ok_and"):
            if var == good:
                out += list(call(s2, args[1], [pay]))
            else:
                out.append((s2, "ret", FALSE, None))
        elif m == "is_err_and":
            if var == "Err":
                out += list(call(s2, args[1], [pay]))
            else:
                out.append((s2, "ret", FALSE, None))
        elif m == "is_none_or":
            if var == good:
                out += list(call(s2, args[1], [pay]))
            else:
                out.append((s2, "ret", TRUE, None))
        elif m == "filter":
            if var == good:
                slot = ("L", ("flt", cx.uid), 0)
                s2 = s2.copy()
                s2.store[slot] = {(): pay}
                for s3, o, r, wh in call(s2, args[1], [mk("&", slot, ())]):
                    if o != "ret":
                        out.append((s3, o, r, wh))
                        continue
                    s3.store.pop(slot, None)
                    for b, res in ((1, SOME(pay)), (0, NONE)):
                        s4 = s3.copy()
                        if E.assume(s4, r, b):
                            out.append((s4, "ret", res, None))
            else:
                out.append((s2, "ret", NONE, None))
        elif m in ("inspect", "inspect_err"):
            hit = var == (good if m == "inspect" else "Err")
            if hit:
                slot = ("L", ("ins", cx.uid), 0)
                s2 = s2.copy()
                s2.store[slot] = {(): pay}
                for s3, o, r, wh in call(s2, args[1], [mk("&", slot, ())]):
                    if o == "ret":
                        s3.store.pop(slot, None)
                    out.append((s3, o, same(adt, var, pay) if o == "ret" else r, wh))
            else:
                out.append((s2, "ret", same(adt, var, pay), None))
    return out


def same(adt, var, pay):
    return aggl(adt, var, pay) if pay is not None else aggl(adt, var)


@model("Option::ok_or", "Result::ok", "Result::err", "Option::or", "Option::and", "Result::or", "Option::unwrap_unchecked",
       "Option::flatten", "Result::and", "Option::transpose")
def m_simple(E, s, cx, args):
    adt = enum_of(cx)
    m = short(cx.c["path"]).split("::")[1]
    out = []
    v = args[0]
    if m == "transpose":
        return None
    for s2, var in opt_split(E, s, v, adt):
        pay = payload(E, s2, v, adt, var) if var != "None" else None
        if m == "ok_or":
            out.append((s2, "ret", OK(pay) if var == "Some" else ERR(args[1]), None))
        elif m == "ok":
            out.append((s2, "ret", SOME(pay) if var == "Ok" else NONE, None))
        elif m == "err":
            out.append((s2, "ret", SOME(pay) if var == "Err" else NONE, None))
        elif m == "or":
            out.append((s2, "ret", same(adt, var, pay) if var in ("Some", "Ok") else args[1], None))
        elif m == "and":
            out.append((s2, "ret", args[1] if var in ("Some", "Ok") else same(adt, var, pay), None))
        elif m == "flatten":
            out.append((s2, "ret", pay if var == "Some" else NONE, None))
        else:
            out.append((s2, "ret", pay, None))
    return out


@model("bool::then", "bool::then_some")
def m_then(E, s, cx, args):
    out = []
    m = cx.c["path"].split("::")[-1]
    for b in (1, 0):
        s2 = s.copy()
        if E.assume(s2, args[0], b):
            if b and m == "then":
                for s3, o, r, w in E.call_value(s2, args[1], [], cx.uid, cx.fn, cx.line, (cx.ctx, "then")):
                    out.append((s3, o, SOME(r) if o == "ret" else r, w))
            else:
                out.append((s2, "ret", SOME(args[1]) if b else NONE, None))
    return out


@model("Try::branch")
def m_branch(E, s, cx, args):
    h = cx.targ(0)["h"]
    v = args[0]
    out = []
    if h == POLL:
        # Poll<Result<..>> (or Option<Result>)
        for s2, var in opt_split(E, s, v, POLL):
            if var == "Pending":
                out.append((s2, "ret", aggl(CF, "Continue", aggl(POLL, "Pending")), None))
            else:
                rv = payload(E, s2, v, POLL, "Ready")
                for s3, rvar in opt_split(E, s2, rv, RES):
                    p = payload(E, s3, rv, RES, rvar)
                    out.append((s3, "ret", aggl(CF, "Continue", aggl(POLL, "Ready", p)) if rvar == "Ok"
                                else aggl(CF, "Break", ERR(p)), None))
        return out
    if h not in (OPT, RES):
        return None
    for s2, var in opt_split(E, s, v, h):
        if var in ("Some", "Ok"):
            out.append((s2, "ret", aggl(CF, "Continue", payload(E, s2, v, h, var)), None))
        elif var == "Err":
            out.append((s2, "ret", aggl(CF, "Break", ERR(payload(E, s2, v, h, var))), None))
        else:
            out.append((s2, "ret", aggl(CF, "Break", NONE), None))
    return out


@model("FromResidual::from_residual")
def m_residual(E, s, cx, args):
    h = cx.targ(0)["h"]
    v = args[0]
    if v.k == "A" and v.a[1] == "Err":
        e = v.a[2][0][1]
        tgt = cx.targ(0)["s"]
        src = cx.targ(1)["s"]
        te = split_targs(tgt)
        se = split_targs(src)
        out = []
        conv = [(s, "ret", e, None)]
        if len(te) and len(se):
            t_err = te[-1] if h == RES else (split_targs(te[0]) or [""])[-1]
            s_err = se[-1]
            if t_err != s_err:
                conv = convert(E, s, cx, e, s_err, t_err)
        for s2, o, r, w in conv:
            if o == "ret":
                r = ERR(r)
                if h == POLL:
                    r = aggl(POLL, "Ready", r)
            out.append((s2, o, r, w))
        return out
    if v.k == "A" and v.a[1] == "None":
        return ret(s, NONE)
    return None


def convert(E, s, cx, v, src, tgt):
    """From conversion by type names"""
    if src == tgt:
        return ret(s, v)
    cands = [f for (a, f) in E.F.froms().get(tgt, []) if a == src]
    if len(cands) == 1 and cands[0] not in E.stack and not (E.opaque and E.opaque(cands[0])):
        return list(E.call_fn(s, cands[0], [v], (cx.ctx, "from")))
    return ret(s, mk("X", "from", (E.deepval(s, v),), (src, tgt)))


@model("Into::into", "From::from")
def m_into(E, s, cx, args):
    f = E.F.fns.get(cx.c.get("rid"))
    if f is not None:
        return None
    m = cx.c["path"].split("::")[-1]
    if m == "into":
        src, tgt = cx.targ(0)["s"], cx.targ(1)["s"]
    else:
        tgt, src = cx.targ(0)["s"], cx.targ(1)["s"]
    if tgt.startswith("core::option::Option<") and tgt[len("core::option::Option<"):-1] == src:
        return ret(s, SOME(args[0]))
    ints = E.WID
    if src in ints and tgt in ints:
        return ret(s, args[0])
    return convert(E, s, cx, args[0], src, tgt)


INT_RANGE = {("u" if u else "i") + n: ((0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1))
             for u in (0, 1) for n, b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64))}


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(E, s, cx, args):
    f = E.F.fns.get(cx.c.get("rid"))
    if f is not None:
        return None
    if cx.c["path"].endswith("try_from"):
        tgt, src = cx.targ(0)["s"], cx.targ(1)["s"]
    else:
        src, tgt = cx.targ(0)["s"], cx.targ(1)["s"]
    if src in INT_RANGE and tgt in INT_RANGE:
        v = deref_val(E, s, args[0])
        (sl, sh), (tl, th) = INT_RANGE[src], INT_RANGE[tgt]
        ty = {"s": src}
        out, err = [], mk("X", "core::num::TryFromIntError", (v,), 0)
        ok = s.copy()
        good = True
        if tl > sl:
            c = E.binop("Lt", v, C(tl), ty)
            s2 = s.copy()
            if E.assume(s2, c, 1):
                out.append((s2, "ret", ERR(err), None))
            good = E.assume(ok, c, 0)
        if good and th < sh:
            c = E.binop("Lt", C(th), v, ty)
            s2 = ok.copy()
            if E.assume(s2, c, 1):
                out.append((s2, "ret", ERR(err), None))
            good = E.assume(ok, c, 0)
        if good:
            out.append((ok, "ret", OK(v if tgt == src else C(v.a[0]) if v.k == "C" else mk("cast", tgt, v)), None))
        return out
    return None


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains",
       "RangeToInclusive::contains", "RangeBounds::contains")
def m_contains(E, s, cx, args):
    r, v = deref_val(E, s, args[0]), deref_val(E, s, args[1])
    v = deref_val(E, s, v)
    ty = {"s": next((cx.targ(i)["s"] for i in range(3) if cx.targ(i) and cx.targ(i)["s"] in INT_RANGE), "?")}
    if ty["s"] not in INT_RANGE:
        return None
    incl, lo, hi = False, None, None
    if r.k == "X" and short(r.a[0]) == "RangeInclusive::new":
        incl, lo, hi = True, r.a[1][0], r.a[1][1]
    elif r.k == "A" and r.a[0].rsplit("::", 1)[-1] in ("Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
        d = dict(r.a[2])
        lo, hi = d.get("start"), d.get("end")
        incl = r.a[0].endswith("RangeToInclusive")
    if lo is None and hi is None:
        return None
    lo, hi = (deref_val(E, s, x) if x is not None else None for x in (lo, hi))
    out, good, ins = [], True, s.copy()
    for c, want in (((E.binop("Lt", v, lo, ty), 0) if lo is not None else (FALSE, 0)),
                    (FALSE, 0) if hi is None else (E.binop("Lt", hi, v, ty), 0) if incl else (E.binop("Lt", v, hi, ty), 1)):
        s2 = ins.copy()
        if E.assume(s2, c, 1 - want):
            out.append((s2, "ret", FALSE, None))
        if not E.assume(ins, c, want):
            good = False
            break
    if good:
        out.append((ins, "ret", TRUE, None))
    return out


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(E, s, cx, args):
    a, b = deref_val(E, s, args[0]), deref_val(E, s, args[1])
    f = E.F.fns.get(cx.c.get("rid"))
    if f is not None and not f.derived:
        a1 = f.locals[1]["h"]
        if not (b.k == "A" or a.k == "A"):
            pass
    neg = cx.c["path"].endswith("::ne")
    # options with known variants
    for x, y in ((a, b), (b, a)):
        if x.k == "A" and x.a[0] in (OPT,) and x.a[1] == "Some" and y.k != "A":
            # Some(p) == y  <=>  y is Some and payload equal
            out = []
            for s2, var in opt_split(E, s, y, OPT):
                if var == "None":
                    out.append((s2, "ret", TRUE if neg else FALSE, None))
                else:
                    r = E.binop("Eq", x.a[2][0][1], payload(E, s2, y, OPT, "Some"))
                    out.append((s2, "ret", E.neg(r) if neg else r, None))
            return out
    if a.k == "A" and b.k == "A" and a.a[0] == b.a[0] == OPT:
        if a.a[1] != b.a[1]:
            r = FALSE
        elif a.a[1] == "None":
            r = TRUE
        else:
            r = E.binop("Eq", deref_val(E, s, a.a[2][0][1]), deref_val(E, s, b.a[2][0][1]))
    else:
        r = E.binop("Eq", a, b)
    return ret(s, E.neg(r) if neg else r)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(E, s, cx, args):
    if "log::Level" in cx.targ(0)["s"]:
        return ret(s, FALSE)
    a, b = deref_val(E, s, args[0]), deref_val(E, s, args[1])
    m = cx.c["path"].split("::")[-1]
    ty = {"s": cx.targ(0)["s"]}
    return ret(s, E.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], a, b, ty))


@model("VecDeque::is_empty", "Vec::is_empty", "HashMap::is_empty", "Bytes::is_empty", "BytesMut::is_empty",
       "Slab::is_empty", "slice::is_empty", "str::is_empty")
def m_isempty(E, s, cx, args):
    v = deref_val(E, s, args[0])
    return ret(s, E.binop("Eq", mk("X", "len", (v,), 0), C(0), {"s": "usize"}))


@model("VecDeque::len", "Vec::len", "HashMap::len", "Bytes::len", "BytesMut::len", "Slab::len", "slice::len",
       "str::len", "BytePages::len")
def m_len(E, s, cx, args):
    v = deref_val(E, s, args[0])
    return ret(s, mk("X", "len", (v,), 0))


@model("Future::poll")
def m_poll(E, s, cx, args):
    v = args[0]
    f = E.F.fns.get(cx.c.get("rid"))
    val = deref_val(E, s, v)
    if f is not None and not f.coroutine and not (val.k == "A" and val.a[0].startswith("clo:")):
        return None
    return list(E.poll_value(s, v, (cx.fn, cx.line), cx.ctx))


@model("future::poll_fn", "poll_fn::poll_fn")
def m_pollfn(E, s, cx, args):
    return ret(s, mk("A", "PollFn", "", (("f", args[0]),)))


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_fncall(E, s, cx, args):
    tup = deref_val(E, s, args[1])
    rest = [v for _, v in tup.a[2]] if tup.k == "A" else ([] if tup.k == "U" else [tup])
    return list(E.call_value(s, args[0], rest, cx.uid, cx.fn, cx.line, (cx.ctx, "fn")))


@model("IntoIterator::into_iter", "Iterator::by_ref", "Iterator::rev")
def m_iter(E, s, cx, args):
    f = E.F.fns.get(cx.c.get("rid"))
    if f is not None:
        return None
    return ret(s, args[0])


ITERWRAP = {"slice::iter", "slice::iter_mut", "Vec::iter", "HashMap::iter", "VecDeque::iter", "IntoIterator::into_iter",
            "Vec::as_slice", "Deref::deref", "AsRef::as_ref", "Borrow::borrow", "HashMap::into_iter", "Vec::into_iter",
            "Iterator::by_ref", "Iterator::copied", "Iterator::cloned", "Vec::deref", "HashMap::iter_mut", "Slab::iter"}


def iter_src(E, s, v):
    """(what is iterated, position)"""
    n = 0
    while n < 16:
        n += 1
        if v.k == "&":
            v = E.read(s, v.a[0], v.a[1])
        elif v.k == "X" and v.a[0] == "itpos":
            return v.a[1][0], v.a[1][1].a[0]
        elif v.k == "A" and v.a[0].endswith("range::Range"):
            f = dict(v.a[2])
            lo, hi = f.get("start"), f.get("end")
            if lo is not None and lo.k == "C" and lo.a[0] == 0 and hi is not None:
                if hi.k == "X" and hi.a[0] == "len":
                    return mk("X", "indices", (iter_src(E, s, hi.a[1][0])[0],), 0), 0
                return mk("X", "upto", (hi,), 0), 0
            break
        elif v.k == "X" and v.a[1] and short(v.a[0]) in ITERWRAP:
            v = v.a[1][0]
        else:
            break
    return v, 0


def iter_step(E, s, cx, src, k):
    """unrolled iteration: yields (state, outcome, element or None)"""
    if src.k == "X" and short(src.a[0]) == "Iterator::map":
        inner, k0 = iter_src(E, s, src.a[1][0])
        for s2, e in iter_step(E, s, cx, inner, k0 + k):
            if e is None:
                yield s2, None
                continue
            for s3, o, r, w in E.call_value(s2, src.a[1][1], [e], cx.uid, cx.fn, cx.line, (cx.ctx, "map", k)):
                if o == "ret":
                    yield s3, r
        return
    if src.k == "X" and short(src.a[0]) == "Iterator::enumerate":
        inner, k0 = iter_src(E, s, src.a[1][0])
        for s2, e in iter_step(E, s, cx, inner, k0 + k):
            yield s2, None if e is None else aggl("()", "", C(k), e)
        return
    if src.k == "X" and short(src.a[0]) == "Iterator::chain":
        a, _ = iter_src(E, s, src.a[1][0])
        b, _ = iter_src(E, s, src.a[1][1])
        ca = s.facts.get(mk("X", "itercount", (a,), 0))
        if ca is not None and ca[0] == "eq" and k >= ca[1]:
            yield from iter_step(E, s, cx, b, k - ca[1])
            return
        for s2, e in iter_step(E, s, cx, a, k):
            if e is None:
                yield from iter_step(E, s2, cx, b, 0)
            else:
                yield s2, e
        return
    if src.k == "X" and src.a[0] == "indices":
        for s2, e in iter_step(E, s, cx, src.a[1][0], k):
            yield s2, None if e is None else C(k)
        return
    cnt = mk("X", "itercount", (src,), 0)
    f = s.facts.get(cnt)
    elem = C(k) if src.k == "X" and src.a[0] == "upto" else mk("X", "elem", (src, C(k)), 0)
    known = f[1] if f is not None and f[0] == "eq" else None
    if known is None or known == k:
        s2 = s.copy()
        E.assume_int(s2, cnt, k, True)
        E.emit(s2, "next", "end", (src, C(k)), cx.fn, cx.line)
        yield s2, None
    if (known is None and k < E.unroll) or (known is not None and k < known):
        s2 = s.copy()
        E.emit(s2, "next", "elem", (src, elem), cx.fn, cx.line)
        yield s2, elem


def iter_fold(E, s, cx, src, k, acc, step, out):
    for s2, e in iter_step(E, s, cx, src, k):
        if e is None:
            out.append((s2, "ret", acc, None))
            continue
        if k > E.unroll * 4:
            raise Limit("fold")
        for s3, o, r, w in step(s2, acc, e, k):
            if o == "ret":
                iter_fold(E, s3, cx, src, k + 1, r, step, out)
            else:
                out.append((s3, o, r, w))


@model("Index::index")
def m_index(E, s, cx, args):
    if E.unroll and args[1].k == "C" and isinstance(args[1].a[0], int):
        src, k = iter_src(E, s, args[0])
        return ret(s, mk("X", "elem", (src, C(args[1].a[0] + k)), 0))
    return None


@model("Iterator::fold", "Iterator::sum")
def m_fold(E, s, cx, args):
    if not E.unroll:
        return None
    src, k = iter_src(E, s, args[0])
    out = []
    if len(args) == 1:
        iter_fold(E, s, cx, src, k, C(0), lambda s2, a, e, k: [(s2, "ret", E.binop("Add", a, e, {"s": "usize"}), None)], out)
    else:
        iter_fold(E, s, cx, src, k, args[1], lambda s2, a, e, k:
                  E.call_value(s2, args[2], [a, e], cx.uid, cx.fn, cx.line, (cx.ctx, "fold", k)), out)
    return out


def adapted(it):
    return it.k == "X" and short(it.a[0]) in ("Iterator::filter", "Iterator::map", "Iterator::inspect", "Iterator::filter_map") and \
        len(it.a[1]) > 1


def gen_elems(E, s, cx, it, tag=()):
    """one turn of an iterator with adapters: yields (state, "elem" | "end" | other outcome, value, where)"""
    if not adapted(it):
        v = mk("X", "next", (it,), (cx.uid, tag) if tag else cx.uid)
        s = s.copy()
        E.emit(s, "next", cx.c["path"], (it, v), cx.fn, cx.line)
        none = s.copy()
        if E.assume_variant(none, v, "None", OPT):
            yield none, "end", None, None
        if "end" not in tag and E.assume_variant(s, v, "Some", OPT):
            yield s, "elem", mk("F", v, (OPT, "Some", "0"), 0), None
        return
    m, inner, clo = short(it.a[0]).split("::")[-1], it.a[1][0], it.a[1][1]
    for s2, o, e, w in list(gen_elems(E, s, cx, inner, tag)):
        if o != "elem":
            yield s2, o, e, w
            continue
        if m == "map":
            for s3, o3, r, w3 in E.call_value(s2, clo, [e], cx.uid, cx.fn, cx.line, (cx.ctx, "gm", tag)):
                yield s3, ("elem" if o3 == "ret" else o3), r, w3
            continue
        if m == "filter_map":
            for s3, o3, r, w3 in E.call_value(s2, clo, [e], cx.uid, cx.fn, cx.line, (cx.ctx, "gx", tag)):
                if o3 != "ret":
                    yield s3, o3, r, w3
                    continue
                for s4, var in opt_split(E, s3, r, OPT):
                    if var == "Some":
                        yield s4, "elem", payload(E, s4, r, OPT, "Some"), None
                    else:
                        yield from gen_elems(E, s4, cx, it, tag + ("end",))
            continue
        slot = ("L", ("gf", cx.uid, tag), 0)
        s2 = s2.copy()
        s2.store[slot] = {(): e}
        for s3, o3, r, w3 in E.call_value(s2, clo, [mk("&", slot, ())], cx.uid, cx.fn, cx.line, (cx.ctx, "gf", tag)):
            if o3 != "ret":
                yield s3, o3, r, w3
                continue
            if m == "inspect":
                yield s3, "elem", e, None
                continue
            s4 = s3.copy()
            if E.assume(s4, r, 1):
                yield s4, "elem", e, None
            if E.assume(s3, r, 0):      # passed over: the turns that follow are covered from here only at their end
                yield from gen_elems(E, s3, cx, it, tag + ("end",))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(E, s, cx, args):
    f = E.F.fns.get(cx.c.get("rid"))
    if f is not None:
        return None
    if E.unroll and args[0].k == "&":
        src, k = iter_src(E, s, args[0])
        root, path = args[0].a
        out = []
        for s2, e in iter_step(E, s, cx, src, k):
            if e is None:
                out.append((s2, "ret", NONE, None))
            else:
                s2 = s2.copy()
                E.write(s2, root, path, mk("X", "itpos", (src, C(k + 1)), 0))
                out.append((s2, "ret", SOME(e), None))
        return out
    it = deref_val(E, s, args[0])
    base = it
    if args[0].k == "&":            # a list written out: each element in turn
        src, k = (base.a[1][0], base.a[1][1].a[0]) if base.k == "X" and base.a[0] == "itpos" else (base, 0)
        byref = src.k == "&"
        arr = E.read(s, src.a[0], src.a[1]) if byref else src
        if arr.k == "A" and arr.a[0] == "[]" and len(arr.a[2]) <= 4:
            if k >= len(arr.a[2]):
                return ret(s, NONE)
            root, path = args[0].a
            s = s.copy()
            E.write(s, root, path, mk("X", "itpos", (src, C(k + 1)), 0))
            return ret(s, SOME(arr.a[2][k][1]))
    if base.k == "X" and base.a[0] == "next-state":
        base = base.a[1][0]
    if adapted(base) and base.a[1][1].k == "A":
        out = []
        for s2, o, e, w in gen_elems(E, s, cx, base):
            out.append((s2, "ret", SOME(e) if o == "elem" else NONE, None) if o in ("elem", "end") else (s2, o, e, w))
        return out
    v = mk("X", "next", (base,), cx.uid)
    if E.hook:
        s = s.copy()
        E.emit(s, "next", cx.c["path"], (base, v), cx.fn, cx.line)
    return ret(s, v)


@model("Iterator::for_each")
def m_foreach(E, s, cx, args):
    if E.unroll:
        src, k = iter_src(E, s, args[0])
        out = []
        iter_fold(E, s, cx, src, k, UNIT, lambda s2, a, e, k:
                  E.call_value(s2, args[1], [e], cx.uid, cx.fn, cx.line, (cx.ctx, "fe", k)), out)
        return out
    it = deref_val(E, s, args[0])
    out = []
    for s2, o, e, w in gen_elems(E, s, cx, it):
        if o == "end":
            out.append((s2, "ret", UNIT, None))
        elif o != "elem":
            out.append((s2, o, e, w))
        else:
            for s3, o3, r, w3 in E.call_value(s2, args[1], [e], cx.uid, cx.fn, cx.line, (cx.ctx, "fe")):
                if o3 != "ret":
                    out.append((s3, o3, r, w3))
                    continue
                for s4, o4, e4, w4 in gen_elems(E, s3, cx, it, ("end",)):
                    out.append((s4, "ret", UNIT, None) if o4 == "end" else (s4, o4, e4, w4))
    return out


@model("HashMap::retain", "VecDeque::retain", "VecDeque::retain_mut", "Vec::retain", "Vec::retain_mut", "Slab::retain", "HashSet::retain")
def m_retain(E, s, cx, args):
    """the closure is followed for one element; "retain" events say whether it stays"""
    clo = deref_val(E, s, args[1])
    if E.unroll or not E.hook or not (clo.k == "A" and clo.a[0].startswith("clo:")):
        return None
    s = s.copy()
    E.emit(s, "call", cx.c["path"], tuple(args), cx.fn, cx.line, uid=cx.uid, c=cx.c)
    src = E.deepval(s, args[0])
    v = mk("X", "next", (src,), cx.uid)
    e = mk("F", v, (OPT, "Some", "0"), 0)
    m = short(cx.c["path"]).split("::")[0]
    cargs = [E.proj(s, e, ("tuple", "", "0")), E.proj(s, e, ("tuple", "", "1"))] if m in ("HashMap", "Slab") else [e]
    end = s.copy()
    E.emit(s, "next", cx.c["path"], (src, v), cx.fn, cx.line)
    E.emit(end, "next", cx.c["path"], (src, mk("X", "next", (src,), (cx.uid, "end"))), cx.fn, cx.line)
    states = []
    if E.assume_variant(end, mk("X", "next", (src,), (cx.uid, "end")), "None", OPT):
        states.append(end)
    out = []
    if E.assume_variant(s, v, "Some", OPT):
        for s2, o, r, w in E.call_value(s, args[1], cargs, cx.uid, cx.fn, cx.line, (cx.ctx, "rt")):
            if o != "ret":
                out.append((s2, o, r, w))
                continue
            for keep in (1, 0):
                s3 = s2.copy()
                if E.assume(s3, r, keep):
                    E.emit(s3, "retain", cx.c["path"], (src, v, C(keep)), cx.fn, cx.line)
                    end = mk("X", "next", (src,), (cx.uid, "end"))
                    E.emit(s3, "next", cx.c["path"], (src, end), cx.fn, cx.line)
                    if E.assume_variant(s3, end, "None", OPT):
                        states.append(s3)
    for s2 in states:
        E.havoc_mutargs(s2, cx, args[:1])
        out.append((s2, "ret", UNIT, None))
    return out


@model("Iterator::collect")
def m_collect(E, s, cx, args):
    """the closures of the adapters are followed for one element; what is collected is reported as a "collect" event"""
    it = deref_val(E, s, args[0])
    if E.unroll or not E.hook or not (adapted(it) and it.a[1][1].k == "A"):
        return None
    out = []
    res = mk("X", cx.c["path"], (it,), cx.uid)
    into = cx.targ(len(cx.c["targs"]) - 1)["h"]
    if into in (RES, OPT):
        # stops at the first element that is a failure
        good, bad = ("Ok", "Err") if into == RES else ("Some", "None")
        for s2, o, e, w in gen_elems(E, s, cx, it):
            if o == "elem":
                for s3, var in opt_split(E, s2, e, into):
                    if var == bad:
                        out.append((s3, "ret", same(into, bad, payload(E, s3, e, into, bad) if into == RES else None), None))
                        continue
                    s3 = s3.copy()
                    E.emit(s3, "collect", cx.c["path"], (res, payload(E, s3, e, into, good)), cx.fn, cx.line)
                    for s4, o4, e4, w4 in gen_elems(E, s3, cx, it, ("end",)):
                        out.append((s4, "ret", aggl(into, good, res), None) if o4 == "end" else (s4, o4, e4, w4))
            else:
                out.append((s2, "ret", aggl(into, good, res), None) if o == "end" else (s2, o, e, w))
        return out
    for s2, o, e, w in gen_elems(E, s, cx, it):
        if o == "elem":
            s2 = s2.copy()
            E.emit(s2, "collect", cx.c["path"], (res, e), cx.fn, cx.line)
            for s4, o4, e4, w4 in gen_elems(E, s2, cx, it, ("end",)):
                out.append((s4, "ret", res, None) if o4 == "end" else (s4, o4, e4, w4))
        else:
            out.append((s2, "ret", res, None) if o == "end" else (s2, o, e, w))
    return out


@model("log::max_level", "__private_api::log", "__private_api::loc", "log::logger")
def m_log(E, s, cx, args):
    return ret(s, mk("P", "log"))


@model("panicking::panic_fmt", "panicking::panic", "panicking::unreachable_display")
def m_panic(E, s, cx, args):
    s = s.copy()
    E.emit(s, "panic", cx.c["path"], (), cx.fn, cx.line)
    return [(s, "panic", UNIT, (cx.fn, 0))]


@model("Default::default")
def m_default(E, s, cx, args):
    f = E.F.fns.get(cx.c.get("rid"))
    ty = cx.targ(0)
    if ty["h"] == OPT:
        return ret(s, NONE)
    if ty["s"] in E.WID:
        return ret(s, C(0))
    if f is not None:
        return None
    return ret(s, mk("X", "default", (C(0, ty["s"]),), 0))
