"""Linear forms over terms and interval reasoning on path conditions (no solver: one pass of interval
propagation per canonical linear form)."""
from math import gcd
from absint import *

INF = float("inf")
UMAX = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1, "usize": 2 ** 64 - 1}


class Lin:
    """sum of coef*atom + const"""
    __slots__ = ("m", "c")

    def __init__(self, m=None, c=0):
        self.m = {k: v for k, v in (m or {}).items() if v}
        self.c = c

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Lin(m, self.c + o.c)

    def scale(self, n):
        return Lin({k: v * n for k, v in self.m.items()}, self.c * n)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __eq__(self, o):
        return self.m == o.m and self.c == o.c

    def __hash__(self):
        return hash((frozenset(self.m.items()), self.c))

    def const(self):
        return None if self.m else self.c

    def __repr__(self):
        p = ["%s%s" % ("" if v == 1 else "%d*" % v, show(k)) for k, v in sorted(self.m.items(), key=lambda kv: kv[0].n)]
        if self.c or not p:
            p.append(str(self.c))
        return " + ".join(p)


class Conv:
    """term -> Lin; `atom` maps a term to a Lin or None (opaque)"""

    def __init__(self, atom=None, narrow=()):
        self.atom = atom
        self.memo = {}
        self.casts = []

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.conv(t)
        return r

    def conv(self, t):
        if t.k == "C" and isinstance(t.a[0], int):
            return Lin(c=t.a[0])
        if t.k == "B":
            op, a, b = t.a
            if op in ("Add", "Sub"):
                x, y = self(a), self(b)
                return x + y if op == "Add" else x - y
            if op == "Mul":
                x, y = self(a), self(b)
                if x.const() is not None:
                    return y.scale(x.c)
                if y.const() is not None:
                    return x.scale(y.c)
            if op == "Shl" and b.k == "C":
                return self(a).scale(1 << b.a[0])
        if t.k == "cast":
            return self(t.a[1])
        if self.atom:
            r = self.atom(t)
            if isinstance(r, Lin):
                return r
            if r is not None:
                return self(r) if r is not t else Lin({t: 1})
        return Lin({t: 1})


def canon(l):
    """(form key, factor, const): l = factor*form + const"""
    if not l.m:
        return (), 1, l.c
    items = sorted(l.m.items(), key=lambda kv: kv[0].n)
    g = 0
    for _, v in items:
        g = gcd(g, v)
    if items[0][1] < 0:
        g = -g
    return tuple((k, v // g) for k, v in items), g, l.c


class Box:
    """intervals per canonical linear form"""

    def __init__(self, rng=None):
        self.iv = {}
        self.ne = {}
        self.rng = rng or (lambda atom: (0, INF))
        self.dead = False

    def copy(self):
        b = Box(self.rng)
        b.iv = dict(self.iv)
        b.ne = dict(self.ne)
        b.dead = self.dead
        return b

    def atom_iv(self, a):
        lo, hi = self.rng(a)
        l2, h2 = self.iv.get(((a, 1),), (-INF, INF))
        return max(lo, l2), min(hi, h2)

    def eval(self, l):
        """interval of a linear form"""
        k, s, c = canon(l)
        if not k:
            return c, c
        lo = hi = 0
        for a, v in k:
            x, y = self.atom_iv(a)
            lo += v * x if v > 0 else v * y
            hi += v * y if v > 0 else v * x
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        x, y = self.iv.get(k, (-INF, INF))
        lo, hi = max(lo, x), min(hi, y)
        lo, hi = lo * s, hi * s
        if s < 0:
            lo, hi = hi, lo
        return lo + c, hi + c

    def le0(self, l):
        """add l <= 0"""
        k, s, c = canon(l)
        if not k:
            if c > 0:
                self.dead = True
            return
        x, y = self.iv.get(k, (-INF, INF))
        if s > 0:
            y = min(y, (-c) // s)
        else:
            x = max(x, -((-c) // -s))
        self.iv[k] = (x, y)
        lo, hi = self.eval(Lin(dict(k)))
        n = self.ne.get(k, ())
        while lo in n:
            lo += 1
        while hi in n:
            hi -= 1
        self.iv[k] = (max(lo, x), min(hi, y))
        if lo > hi:
            self.dead = True

    def eq0(self, l):
        self.le0(l)
        self.le0(l.scale(-1))

    def ne0(self, l):
        k, s, c = canon(l)
        if not k:
            if c == 0:
                self.dead = True
            return
        if c % s:
            return
        v = -c // s
        self.ne[k] = self.ne.get(k, frozenset()) | {v}
        lo, hi = self.eval(Lin(dict(k)))
        n = self.ne[k]
        while lo in n:
            lo += 1
        while hi in n:
            hi -= 1
        self.iv[k] = (lo, hi)
        if lo > hi:
            self.dead = True

    def implies_le0(self, l, depth=2):
        """is l <= 0 under the constraints: interval evaluation, then up to `depth` constraints as steps"""
        if self.dead or self.eval(l)[1] <= 0:
            return True
        if depth == 0:
            return False
        for k, (x, y) in list(self.iv.items()):
            done = set()
            for a, v in k:
                w = l.m.get(a)
                if not w or w % v:
                    continue
                r = w // v
                if r in done:
                    continue
                done.add(r)
                # l = r*f + rest
                b = y if r > 0 else x
                if b in (INF, -INF) or len(k) < 2 and self.rng(a)[1 if r > 0 else 0] == b:
                    continue
                rest = l - Lin(dict(k)).scale(r) + Lin(c=r * b)
                if self.implies_le0(rest, depth - 1):
                    return True
        return False


def add_facts(box, facts, conv):
    """path facts (term -> fact) as linear constraints"""
    for t, f in facts.items():
        add_fact(box, t, f, conv)


def add_fact(box, t, f, conv):
    if f[0] == "eq" and t.k == "B" and t.a[0] in ("Lt", "Le", "Eq", "Gt", "Ge"):
        op, a, b = t.a
        if not f[1] and op != "Eq":
            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
        d = conv(a) - conv(b)
        if op == "Lt":
            box.le0(d + Lin(c=1))
        elif op == "Le":
            box.le0(d)
        elif op == "Gt":
            box.le0(d.scale(-1) + Lin(c=1))
        elif op == "Ge":
            box.le0(d.scale(-1))
        elif f[1]:
            box.eq0(d)
        else:
            box.ne0(d)
    elif f[0] == "eq" and isinstance(f[1], int) and t.k in ("X", "F", "P", "B", "cast"):
        if t.k == "B" and t.a[0] not in ("Add", "Sub", "Mul"):
            return
        box.eq0(conv(t) - Lin(c=f[1]))
    elif f[0] == "ne" and t.k in ("X", "F", "P", "B", "cast"):
        if t.k == "B" and t.a[0] not in ("Add", "Sub", "Mul"):
            return
        for n in f[1]:
            if isinstance(n, int):
                box.ne0(conv(t) - Lin(c=n))


def compatible(f1, f2):
    """variant facts of two paths do not contradict"""
    a, b = (f1, f2) if len(f1) < len(f2) else (f2, f1)
    for t, f in a.items():
        g = b.get(t)
        if g is None:
            continue
        if f[0] == "is" and g[0] == "is" and f[1] != g[1]:
            return False
        if f[0] == "is" and g[0] == "not" and f[1] in g[1]:
            return False
        if f[0] == "not" and g[0] == "is" and g[1] in f[1]:
            return False
        if f[0] == "eq" and g[0] == "eq" and f[1] != g[1]:
            return False
        if f[0] == "eq" and g[0] == "ne" and f[1] in g[1]:
            return False
        if f[0] == "ne" and g[0] == "eq" and g[1] in f[1]:
            return False
    return True
