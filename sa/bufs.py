"""Length domain for byte buffers: every buffer value is (base, offset, end) over a base buffer of unknown length;
offsets, ends and integers derived from them are linear forms."""
import re
from absint import *
from lin import *

RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1),
         "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
         "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "bool": (0, 1), "char": (0, 0x10ffff),
         "u128": (0, 2 ** 128 - 1)}
GETW = {"get_u8": 1, "get_i8": 1, "get_u16": 2, "get_i16": 2, "get_u32": 4, "get_i32": 4, "get_u64": 8, "get_i64": 8,
        "get_f32": 4, "get_f64": 8, "get_u128": 16, "get_i128": 16}
GETW.update({k + "_le": v for k, v in list(GETW.items())})
READW = {"read_u16": 2, "read_i16": 2, "read_u24": 3, "read_u32": 4, "read_i32": 4, "read_u64": 8, "read_i64": 8,
         "read_f32": 4, "read_f64": 8, "read_u128": 16, "read_i128": 16}
READW.update({k + "_le": v for k, v in list(READW.items())})
SAME = {"deref", "deref_mut", "as_ref", "as_slice", "clone", "freeze", "borrow", "as_mut", "chunk", "to_vec", "into",
        "from", "as_bytes", "into_inner", "copy_from_slice", "bytes"}
PURE1 = {"unsigned_abs"}


def last(p):
    return p.rsplit("::", 1)[-1]


def fval(t, name):
    if t.k == "A":
        for n, v in t.a[2]:
            if n == name:
                return v
    return None


class Bufs:
    def __init__(self, F, fn, E):
        self.F, self.fn, self.E = F, fn, E
        self.nmemo = {}
        self.cmemo = {}
        self.side = {}
        self.ptypes = {}
        for i in range(1, fn.argc + 1):
            n = fn.names.get(i)
            if n:
                self.ptypes[n] = fn.locals[i]["s"]

    # ---- buffers
    def norm(self, t):
        r = self.nmemo.get(t)
        if r is None:
            self.nmemo[t] = r = self._norm(t)
        return r

    def base(self, t):
        return (t, Lin(), None)

    def _norm(self, t):
        if t.k == "X":
            p, args = t.a[0], t.a[1]
            n = last(p)
            if p.startswith("mut:"):
                old = args[0]
                b, o, e = self.norm(old)
                if n in ("advance", "advance_to") and len(args) == 2:
                    return b, o + self.conv(args[1]), e
                if n in ("split_to", "split_to_checked", "copy_to_bytes") and len(args) == 2:
                    return b, o + self.conv(args[1]), e
                if n in GETW:
                    return b, o + Lin(c=GETW[n]), e
                if n in ("split_off",) and len(args) == 2:
                    return b, o, o + self.conv(args[1])
                if n == "clear":
                    return b, o, o
                if n in ("reserve",):
                    return b, o, e
                self.sides(t, [self.length_of(self.base(t)) - self.length(old)])
                return self.base(t)
            if n in ("split_to", "split_to_checked", "copy_to_bytes") and len(args) == 2:
                b, o, e = self.norm(args[0])
                return b, o, o + self.conv(args[1])
            if n == "split_off" and len(args) == 2:
                b, o, e = self.norm(args[0])
                return b, o + self.conv(args[1]), e
            if n in ("index", "index_mut", "get", "get_mut", "slice") and len(args) == 2:
                b, o, e = self.norm(args[0])
                g = args[1]
                if g.k == "A":
                    rn = last(g.a[0])
                    s, x = fval(g, "start"), fval(g, "end")
                    if rn in ("RangeFrom", "Range", "RangeTo", "RangeFull"):
                        ne = o + self.conv(x) if x is not None and rn != "RangeFrom" else e
                        no = o + self.conv(s) if s is not None and rn != "RangeTo" else o
                        return b, no, ne
            if n in SAME and len(args) == 1:
                return self.norm(args[0])
            if n in ("try_into", "try_from", "slice_ref") and args:
                return self.norm(args[0])
        if t.k == "F" and t.a[1][2] == "0" and t.a[1][1] in ("Some", "Ok") and t.a[0].k == "X" and \
                last(t.a[0].a[0]) in ("try_into", "try_from", "get", "get_mut", "split_to_checked", "first"):
            return self.norm(t.a[0])
        if t.k == "&" and t.a[0][0] == "H" and not t.a[1]:
            return self.norm(t.a[0][1])
        return self.base(t)

    def length_of(self, n):
        b, o, e = n
        if e is not None:
            return e - o
        if b.k == "S":
            v = b.a[0]
            return Lin(c=len(v.encode() if isinstance(v, str) else v)) - o
        if b.k == "X" and b.a[0] == "repeat":
            m = re.match(r"(\d+)", str(b.a[2]))
            if m:
                return Lin(c=int(m.group(1))) - o
            return Lin({mk("K", str(b.a[2]), "usize"): 1}) - o
        if b.k == "A" and b.a[0] == "[]":
            return Lin(c=len(b.a[2])) - o
        return Lin({mk("X", "LEN", (b,), 0): 1}) - o

    def length(self, t):
        return self.length_of(self.norm(t))

    def byte(self, buf, off, w, signed=False):
        b, o, e = self.norm(buf)
        return Lin({mk("X", "BEs" if signed else "BE", (b,), o + off, w): 1})

    # ---- integers
    def sides(self, key, cons):
        self.side[key] = cons

    def conv(self, t):
        r = self.cmemo.get(t)
        if r is None:
            r = self.cmemo[t] = self._conv(t)
        return r

    def _conv(self, t):
        k = t.k
        if k == "C" and isinstance(t.a[0], int):
            return Lin(c=t.a[0])
        if k == "B":
            op, a, b = t.a
            if op in ("Add", "Sub"):
                x, y = self.conv(a), self.conv(b)
                return x + y if op == "Add" else x - y
            if op == "Mul":
                x, y = self.conv(a), self.conv(b)
                if x.const() is not None:
                    return y.scale(x.c)
                if y.const() is not None:
                    return x.scale(y.c)
            if op == "Shl" and b.k == "C":
                return self.conv(a).scale(1 << b.a[0])
            if op in ("Div", "Shr") and b.k == "C" and b.a[0] > 0:
                d = b.a[0] if op == "Div" else 1 << b.a[0]
                x = self.conv(a)
                if d == 1 and op == "Div":
                    return x
                q = Lin({mk("X", "div", (t,), 0): 1})
                lo = Box(self.rng).eval(x)[0]
                dif = x - q.scale(d)
                self.sides(t, [dif - Lin(c=d - 1), (Lin() if lo >= 0 else Lin(c=-(d - 1))) - dif])
                return q
            if op == "Rem" and b.k == "C" and b.a[0] > 0:
                q = Lin({t: 1})
                lo = Box(self.rng).eval(self.conv(a))[0]
                self.sides(t, [q - Lin(c=b.a[0] - 1), (Lin() if lo >= 0 else Lin(c=-(b.a[0] - 1))) - q])
                return q
            if op == "BitAnd":
                q = Lin({t: 1})
                for c in (a, b):
                    if c.k == "C" and c.a[0] >= 0:
                        self.sides(t, [q - Lin(c=c.a[0]), q.scale(-1)])
                return q
            return Lin({t: 1})
        if k == "cast":
            x = self.conv(t.a[1])
            tr = RANGE.get(t.a[0])
            lo, hi = self.boxnow().eval(x)
            if tr and lo >= tr[0] and hi <= tr[1]:
                return x
            if len(x.m) == 1 and x.c == 0:
                # reinterpreting the sign of bytes just read
                (q, c), = x.m.items()
                bits = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8}.get(t.a[0])
                if c == 1 and q.k == "X" and q.a[0] in ("BE", "BEs") and q.a[3] == bits:
                    return Lin({mk("X", "BEs" if t.a[0][0] == "i" else "BE", *q.a[1:]): 1})
            return Lin({t: 1})
        if k == "F":
            b, f = t.a[0], t.a[1]
            if f[0] == "[]":
                if isinstance(f[2], Term):
                    return self.byte(b, self.conv(f[2]), 1)
                try:
                    return self.byte(b, Lin(c=int(f[2])), 1)
                except ValueError:
                    return Lin({t: 1})
            if b.k == "X" and f[1] in ("Some", "Ok") and f[2] == "0":
                n = last(b.a[0])
                if n == "checked_sub":
                    return self.conv(b.a[1][0]) - self.conv(b.a[1][1])
                if n == "checked_add":
                    return self.conv(b.a[1][0]) + self.conv(b.a[1][1])
                if n == "checked_mul":
                    return self.conv(mk("B", "Mul", *b.a[1]))
                if n in ("get", "first") and b.a[1]:
                    i = b.a[1][1] if len(b.a[1]) > 1 else C(0)
                    if i.k != "A":
                        return self.byte(b.a[1][0], self.conv(i), 1)
                if n in ("try_from", "try_into", "unwrap") and len(b.a[1]) == 1:
                    return self.conv(b.a[1][0])
            return Lin({t: 1})
        if k == "X":
            p, args = t.a[0], t.a[1]
            n = last(p)
            if n in ("len", "remaining") and len(args) == 1:
                return self.length(args[0])
            if n in GETW and not n.endswith("_le") and len(args) == 1 and not p.startswith("mut:"):
                return self.byte(args[0], Lin(), GETW[n], n[4] == "i")
            if n in READW and not n.endswith("_le") and len(args) == 1:
                return self.byte(args[0], Lin(), READW[n], n[5] == "i")
            if n == "from_be_bytes" and len(args) == 1:
                m = re.search(r"<impl (\w+)>", p)
                w = {"u16": 2, "u32": 4, "u64": 8, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "i8": 1}.get(m.group(1)) if m else None
                if w:
                    ar = args[0]
                    if ar.k == "A" and ar.a[0] == "[]" and len(ar.a[2]) == w:
                        # [b[i], b[i+1], ..]
                        at = [self.conv(v) for _, v in sorted(ar.a[2], key=lambda kv: int(kv[0]))]
                        ks = [next(iter(l.m)) if len(l.m) == 1 and l.c == 0 else None for l in at]
                        if all(a is not None and a.k == "X" and a.a[0] == "BE" and a.a[3] == 1 and
                               a.a[1] == ks[0].a[1] and a.a[2] == ks[0].a[2] + Lin(c=i) for i, a in enumerate(ks)):
                            return Lin({mk("X", "BEs" if m.group(1)[0] == "i" else "BE", ks[0].a[1], ks[0].a[2], w): 1})
                        return Lin({t: 1})
                    return self.byte(ar, Lin(), w, m.group(1)[0] == "i")
            if n in ("min", "max") and len(args) == 2:
                q = Lin({t: 1})
                s = 1 if n == "min" else -1
                self.sides(t, [(q - self.conv(a)).scale(s) for a in args])
                return q
            if n == "saturating_sub" and len(args) == 2:
                q = Lin({t: 1})
                a, b = self.conv(args[0]), self.conv(args[1])
                c = [q.scale(-1)]
                if self.boxnow().eval(b)[0] >= 0:
                    c.append(q - a)
                self.sides(t, c)
                return q
            if n in ("from", "into", "clone") and len(args) == 1:
                return self.conv(args[0])
            if n == "unsigned_abs" and len(args) == 1:
                x = self.conv(args[0])
                if self.boxnow().implies_le0(x.scale(-1)):
                    return x
            return Lin({t: 1})
        return Lin({t: 1})

    def rng(self, a):
        if a.k == "X":
            if a.a[0] == "LEN":
                return 0, 2 ** 63 - 1
            if a.a[0] == "BE":
                return 0, 256 ** a.a[3] - 1
            if a.a[0] == "BEs":
                return -(256 ** a.a[3] // 2), 256 ** a.a[3] // 2 - 1
            if a.a[0] == "div":
                t = a.a[1][0]
                x = Box(self.rng).eval(self.conv(t.a[1]))
                d = t.a[2].a[0] if t.a[0] == "Div" else 1 << t.a[2].a[0]
                return (x[0] if x[0] in (INF, -INF) else -(-x[0] // d) if x[0] < 0 else x[0] // d,
                        x[1] if x[1] in (INF, -INF) else x[1] // d)
            ty = self.E.types.get(a)
            if ty in RANGE:
                return RANGE[ty]
            return -INF, INF
        if a.k == "P":
            return RANGE.get(self.ptypes.get(a.a[0]) or self.E.types.get(a), (-INF, INF))
        if a.k == "K":
            return RANGE.get(a.a[1], (-INF, INF))
        if a.k == "cast":
            return RANGE.get(a.a[0], (-INF, INF))
        if a.k == "F":
            f = a.a[1]
            ad = self.F.adts.get(f[0])
            if ad:
                for v in ad["variants"]:
                    if v["name"] == f[1] or len(ad["variants"]) == 1:
                        for x in v["fields"]:
                            if x["name"] == f[2]:
                                return RANGE.get(x["ty"]["s"], (-INF, INF))
            return -INF, INF
        return -INF, INF

    def boxnow(self):
        b = Box(self.rng)
        for l in list(self.side.values()):
            for c in l:
                b.le0(c)
        for t, f in self.cur.items():
            self.fact(b, t, f)
        return b

    cur = {}

    def fact(self, b, t, f):
        if f[0] == "is" and f[1] in ("Some", "Ok") and t.k == "X" and len(t.a[1]) >= 1:
            n = last(t.a[0])
            if n == "checked_sub":
                b.le0(self.conv(t.a[1][1]) - self.conv(t.a[1][0]))
            elif n in ("get", "first", "split_to_checked"):
                i = t.a[1][1] if len(t.a[1]) > 1 else C(0)
                if i.k == "A":
                    x = fval(i, "end") or fval(i, "start")
                    if x is not None:
                        b.le0(self.conv(x) - self.length(t.a[1][0]))
                else:
                    b.le0(self.conv(i) - self.length(t.a[1][0]) + Lin(c=0 if n == "split_to_checked" else 1))
        elif f[0] == "eq" and t.k == "X" and last(t.a[0]) == "has_remaining" and f[1]:
            b.le0(Lin(c=1) - self.length(t.a[1][0]))
        else:
            add_fact(b, t, f, self.conv)

    def box(self, facts):
        """constraints of a path condition"""
        self.cur = {}
        self.cmemo, self.nmemo = {}, {}
        b = Box(self.rng)
        for t, f in facts.items():
            self.fact(b, t, f)
        for l in list(self.side.values()):
            for c in l:
                b.le0(c)
        self.cur = facts
        return b

    def close(self, b):
        """constraints discovered while converting a query"""
        for l in list(self.side.values()):
            for c in l:
                b.le0(c)
        return b
