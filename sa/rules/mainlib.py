"""Shared vocabulary of the rules about the protocol engine (crate ntex-amqp)."""
from absint import *
from lin import *

CR = "ntex_amqp::"
FRAMES = ("Open", "Begin", "Attach", "Flow", "Transfer", "Disposition", "Detach", "End", "Close", "Empty")


def strip(t, memo=None):
    """drop version numbers of field reads, everywhere"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == "F":
        r = mk("F", strip(t.a[0], memo), t.a[1], 0)
    else:
        a = tuple(_strip(x, memo) for x in t.a)
        r = mk(t.k, *a) if a != t.a else t
    memo[t] = r
    return r


def _strip(x, memo):
    if isinstance(x, Term):
        return strip(x, memo)
    if isinstance(x, tuple):
        return tuple(_strip(y, memo) for y in x)
    return x


def last(t):
    """name of the field a place term ends in"""
    while t is not None:
        if t.k == "F":
            return t.a[1][2]
        if t.k == "&":
            return t.a[1][-1][2] if t.a[1] else last(t.a[0][1]) if t.a[0][0] == "H" else None
        if t.k in ("W", "cast"):
            t = t.a[0] if t.k == "W" else t.a[1]
            continue
        return None


def adt_field(t):
    """(adt short name, field) a value was read from"""
    if t.k == "W":
        return adt_field(t.a[0])
    if t.k == "F":
        return (t.a[1][0].split("::")[-1], t.a[1][2])
    if t.k == "&":
        if t.a[1]:
            f = t.a[1][-1]
            return (f[0].split("::")[-1], f[2])
        return adt_field(t.a[0][1]) if t.a[0][0] == "H" else None
    if t.k == "X" and t.a[0].startswith("mut:") and t.a[1]:
        return adt_field(t.a[1][0])
    return None


class Spec:
    """which events a rule keeps"""

    def __init__(self, calls=(), writes=(), kinds=(), pred=None):
        self.calls, self.writes, self.kinds, self.pred = set(calls), set(writes), set(kinds), pred

    def __call__(self, E, st, e):
        if e.kind == "call":
            s = short(e.name)
            if s not in self.calls and not (e.c and e.c.get("trait") and
                                            (e.c["trait"].split("::")[-1] + "::" + e.name.split("::")[-1]) in self.calls):
                return None
            if s == "IoRef::encode" or s == "Io::encode":
                e.args = (e.args[0], E.deepval(st, e.args[1]))
                return e
        elif e.kind == "write":
            n = e.name.split("::")[-1]
            adt, _, fld = e.name.rpartition(".")
            if "%s.%s" % (adt.split("::")[-1], fld) not in self.writes and n not in self.writes:
                return None
        elif e.kind not in self.kinds:
            return None
        if self.pred is not None and not self.pred(E, st, e):
            return None
        e.args = tuple(E.deepval(st, a) if a is not None else a for a in e.args)
        return e


def runp(ctx, f, spec, args=None, tune=None, **kw):
    E = ctx.engine(spec, **kw)
    if tune:
        tune(E)
    ps = E.run_async(f) if f.isasync else E.run(f, args)
    return E, ps


# ---- the end of a session or a connection ------------------------------------------------------------------
ENDS = {"ENDED", "ENDING"}


def flag_names(t, field):
    """names of the flag constants a mask is made of; None if there is anything else in it"""
    out, ok = set(), [True]

    def go(x):
        if x.k == "B" and x.a[0] in ("BitOr", "BitAnd", "BitXor"):
            go(x.a[1]), go(x.a[2])
        elif x.k == "A" and x.a[2]:
            for _, y in x.a[2]:
                go(y)
        elif contains(x, lambda y: adt_field(y) == field):
            ok[0] = False
        else:
            out.add(re.split(r"[.']", show(x))[0].split("::")[-1])
    go(t)
    return out if ok[0] and out else None


def within_fieldm(t, field):
    while t.k == "F":
        if adt_field(t) == field:
            return True
        t = t.a[0]
    return False


def flag_test(t, field):
    """t is `field & mask`: names in the mask"""
    if t.k == "B" and t.a[0] == "BitAnd":
        for u, m in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if within_fieldm(u, field):
                return flag_names(m, field)
    return None


def flag_known(t, x, field):
    """what a path condition says about flags: (set of names, 'any' | 'all' | 'none') or None"""
    ms = flag_test(t, field)
    if ms is not None:
        if x == ("eq", 0):
            return ms, "none"
        if x[0] == "ne" and 0 in x[1] or x[0] == "eq":
            return ms, "any"
        return None
    if t.k == "B" and t.a[0] in ("Eq", "Ne") and x[0] == "eq":
        v = bool(x[1]) == (t.a[0] == "Eq")
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            ms = flag_test(b, field)
            if ms is None:
                continue
            if a.k == "C" and a.a[0] == 0 or show(a).split("'")[0].split(".")[0] in ("EMPTY", "0"):
                return ms, "none" if v else "any"
            if flag_names(a, field) == ms:
                if v:
                    return ms, "all"
                return (ms, "none") if len(ms) == 1 else None
    return None


def closing(t, x):
    """the path condition says that the session is ended, or that the connection is closed"""
    af = adt_field(t)
    if af == ("ConnectionInner", "state"):
        return x[0] == "is" and x[1] != "Normal" or x[0] == "not" and "Normal" in x[1]
    k = flag_known(t, x, ("SessionInner", "flags"))
    return bool(k and k[0] <= ENDS and k[1] in ("any", "all"))


# ---- frames ---------------------------------------------------------------------------------------------
ENC = ("IoRef::encode", "Io::encode")


def is_enc(e):
    return e.kind == "call" and short(e.name) in ENC


def part(t, name):
    """field of an aggregate (through newtypes, boxes and overlays); None when it is not spelt out"""
    for _ in range(12):
        if t.k == "A":
            d = dict(t.a[2])
            if name in d:
                return d[name]
            if len(d) == 1 and ("0" in d or "inner" in d or "pointer" in d):
                t = next(iter(d.values()))
                continue
            return None
        if t.k == "W":
            # overlay: look for the field itself, else descend
            hit = None
            for rp, x in t.a[1]:
                names = [q[2] for q in rp]
                if name in names and names[-1] == name:
                    hit = x
            if hit is not None:
                return hit
            t = t.a[0]
            continue
        if t.k == "O" or t.k == "&":
            return None
        return None
    return None


def frame(e):
    """(channel, frame kind, body term) of an encode event"""
    t = e.args[1]
    ch, fr = None, None
    if t.k == "A" and t.a[0].endswith("AmqpFrame"):
        d = dict(t.a[2])
        vals = list(d.values())
        ch = d.get("channel_id", vals[0] if vals else None)
        fr = d.get("performative", vals[-1] if vals else None)
    if fr is not None and fr.k == "A" and fr.a[0].endswith("::Frame"):
        body = fr.a[2][0][1] if fr.a[2] else None
        return ch, fr.a[1], body
    return ch, None, fr


def fact_known(p, t, kind, v):
    f = p.state.facts.get(t)
    return f is not None and f[0] == kind and (v in f[1] if kind in ("ne", "not") else f[1] == v)


def writers(F, adt, field):
    """functions whose own body assigns (or mutably borrows) the field"""
    out = []
    for f in F.fns.values():
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if _isf(s[1], adt, field):
                    out.append((f, s[3] if len(s) > 3 else 0))
                rv = s[2]
                if rv[0] == "ref" and rv[2] and _isf(rv[1], adt, field):
                    out.append((f, s[3] if len(s) > 3 else 0))
            t = b["t"]
            if t[0] == "call" and _isf(t[3], adt, field):
                out.append((f, t[5]))
    return out


def _isf(pl, adt, field):
    if not isinstance(pl, list) or len(pl) < 2:
        return False
    l = pl[-1]
    return isinstance(l, list) and l and l[0] == "f" and l[1].split("::")[-1] == adt and l[3] == field


# ---- queues and waiters ---------------------------------------------------------------------------------
QCALLS = ("VecDeque::pop_front", "VecDeque::drain", "VecDeque::push_back", "VecDeque::push_front", "VecDeque::clear",
          "VecDeque::append", "Vec::push", "Vec::drain", "Sender::send", "VecDeque::pop_back", "VecDeque::remove",
          "VecDeque::truncate", "VecDeque::retain", "VecDeque::insert")


def isq(t, af):
    """term denotes (a later state of) the queue field"""
    n = 0
    while n < 40:
        n += 1
        if adt_field(t) == af:
            return True
        if t.k == "X" and t.a[1] and (t.a[0].startswith("mut:") or short(t.a[0]) in
                                      ("IntoIterator::into_iter", "VecDeque::drain", "VecDeque::into_iter", "mem::take",
                                       "VecDeque::iter_mut", "VecDeque::iter", "Slab::iter_mut", "Slab::iter",
                                       "HashMap::drain", "HashMap::values_mut", "HashMap::iter_mut", "HashMap::into_iter",
                                       "Slab::drain", "next-state")):
            t = t.a[1][0]
            continue
        return False
    return False


def queue_emptied(p, af):
    """the path shows that the queue `af` = (adt, field) was taken out completely"""
    for t, x in p.state.facts.items():
        if t.k == "X" and short(t.a[0]) == "VecDeque::pop_front" and x[0] == "is" and x[1] == "None" and isq(t.a[1][0], af):
            return True
        if t.k == "X" and t.a[0] == "next" and x[0] == "is" and x[1] == "None" and isq(t.a[1][0], af):
            return True
        if t.k == "X" and t.a[0] == "len" and x == ("eq", 0) and isq(t.a[1][0], af):
            return True
    for e in p.events:
        if e.kind == "call" and short(e.name) in ("VecDeque::drain", "VecDeque::clear", "HashMap::drain") and isq(e.args[0], af):
            return True
        if e.kind == "write" and e.name.split("::")[-1] == "%s.%s" % af and e.args[1].k == "X" and \
                short(e.args[1].a[0]) in ("VecDeque::new", "default", "VecDeque::default"):
            return True
    return False


def queue_items(p, af):
    """values taken out of the queue on this path"""
    out = []
    for t, x in p.state.facts.items():
        if t.k == "X" and x[0] == "is" and x[1] == "Some" and t.a[1]:
            s = short(t.a[0])
            if (s in ("VecDeque::pop_front", "VecDeque::pop_back") or t.a[0] == "next") and isq(t.a[1][0], af):
                out.append(mk("F", t, (OPT, "Some", "0"), 0))
    return out


def sends(p):
    """(sender term, value term, event) of every completion sent on a channel"""
    return [(e.args[0], e.args[1], e) for e in p.events if e.kind == "call" and short(e.name) == "Sender::send"]


def within(t, sub):
    return contains(t, lambda x: x is sub)


def path_box(p, extra=None):
    """interval facts of a path"""
    cv = Conv(extra)
    b = Box(cv)
    return cv, b


def nonzero(p, t):
    """does the path condition exclude t == 0 (for this very version of the value)?"""
    f = p.state.facts
    x = f.get(t)
    if x is not None and (x[0] == "ne" and 0 in x[1] or x[0] == "eq" and x[1] != 0):
        return True
    for c, v in f.items():
        if c.k == "B" and v[0] in ("eq", "ne") and len(c.a) == 3:
            op, a, b = c.a
            val = v[1] if v[0] == "eq" else (0 if 1 in v[1] else 1 if 0 in v[1] else None)
            if a is t and b.k == "C":
                n = b.a[0]
                if op == "Gt" and val == 1 and n >= 0 or op == "Ge" and val == 1 and n >= 1 or \
                        op == "Ne" and val == 1 and n == 0 or op == "Eq" and val == 0 and n == 0 or \
                        op == "Lt" and val == 0 and n >= 1 or op == "Le" and val == 0 and n >= 0 or \
                        op == "Eq" and val == 1 and n > 0:
                    return True
            if b is t and a.k == "C":
                n = a.a[0]
                if op == "Lt" and val == 1 and n >= 0 or op == "Le" and val == 1 and n >= 1 or \
                        op == "Ne" and val == 1 and n == 0 or op == "Eq" and val == 0 and n == 0 or \
                        op == "Gt" and val == 0 and n >= 1 or op == "Ge" and val == 0 and n >= 0:
                    return True
        if c.k == "X" and short(c.a[0]).endswith("checked_sub") and c.a[1] and c.a[1][0] is t and v == ("is", "Some"):
            return True
    return False


def minus_one(new, old):
    """new = old - 1"""
    if new.k == "B" and new.a[0] == "Sub" and new.a[1] is old and new.a[2] is C(1):
        return True
    if new.k == "X" and short(new.a[0]).split("::")[-1] in ("wrapping_sub", "saturating_sub") and new.a[1] == (old, C(1)):
        return True
    if new.k == "F" and new.a[0].k == "X" and short(new.a[0].a[0]).endswith("checked_sub") and new.a[0].a[1] == (old, C(1)):
        return True
    return False


def plus_one(new, old):
    if new.k == "B" and new.a[0] == "Add" and new.a[1] is old and new.a[2] is C(1):
        return True
    return new.k == "X" and short(new.a[0]).split("::")[-1] in ("wrapping_add",) and new.a[1] == (old, C(1))


def wr(e, name):
    return e.kind == "write" and e.name.split("::")[-1] == name


# signed skeleton of a counter expression: wrapping arithmetic as linear, casts and clamps as identity
def skeleton(t, p):
    """linear form (over unversioned atoms) a counter expression stands for on this path"""
    f = p.state.facts

    def go(t):
        if t.k == "C" and isinstance(t.a[0], int):
            return Lin(c=t.a[0])
        if t.k == "cast":
            return go(t.a[1])
        if t.k == "B" and t.a[0] in ("Add", "Sub"):
            x, y = go(t.a[1]), go(t.a[2])
            return x + y if t.a[0] == "Add" else x - y
        if t.k == "X":
            n = t.a[0].split("::")[-1]
            if n in ("wrapping_add", "wrapping_sub", "saturating_add", "saturating_sub", "checked_sub", "checked_add"):
                x, y = go(t.a[1][0]), go(t.a[1][1])
                return x + y if n.endswith("add") else x - y
            if n in ("unsigned_abs", "abs"):
                x = t.a[1][0]
                neg = sign(x)
                if neg is not None:
                    return go(x).scale(-1 if neg else 1)
            if n in ("cast_signed", "cast_unsigned"):
                return go(t.a[1][0])
            if n in ("max", "min", "clamp"):
                v = [l for l in (go(x) for x in t.a[1]) if l.const() is None]
                if len(v) == 1:
                    return v[0]
        if t.k == "F" and t.a[0].k == "X" and t.a[0].a[0].split("::")[-1].startswith(("checked_", "try_from", "try_into")):
            return go(t.a[0].a[1][0]) if "try" in t.a[0].a[0] else go(t.a[0])
        return Lin({strip(t): 1})

    def sign(x):
        for c, v in f.items():
            if c.k == "B" and c.a[0] in ("Lt", "Ge", "Le", "Gt") and v[0] == "eq":
                op, a, b = c.a
                if a is x and b is C(0) and op in ("Lt", "Ge"):
                    return bool(v[1]) == (op == "Lt")
                if b is x and a is C(0) and op in ("Gt", "Le"):
                    return bool(v[1]) == (op == "Gt")
            if c.k == "X" and c.a[0].endswith("is_negative") and c.a[1][0] is x and v[0] == "eq":
                return bool(v[1])
        return None
    return go(t)


def cannot_wrap(t, p):
    """the outermost addition or subtraction of a counter expression saturates, or the path condition orders its operands"""
    while True:
        if t.k == "cast":
            t = t.a[1]
        elif t.k == "X" and t.a[0].split("::")[-1] in ("cast_signed", "cast_unsigned"):
            t = t.a[1][0]
        elif t.k == "F" and t.a[0].k == "X" and t.a[0].a[0].split("::")[-1].startswith(("checked_", "try_from", "try_into")):
            return True
        else:
            break
    if t.k == "C":
        return True
    if t.k == "X":
        n = t.a[0].split("::")[-1]
        if n in ("saturating_add", "saturating_sub", "clamp", "max", "min"):
            return True
        if not n.startswith("wrapping_"):
            return n not in ("cast_signed",)
        a, b = t.a[1]
    elif t.k == "B" and t.a[0] in ("Sub", "Add"):
        a, b = t.a[1], t.a[2]
    else:
        return True
    for c, v in p.state.facts.items():
        if c.k == "B" and c.a[0] in ("Lt", "Le", "Gt", "Ge") and v[0] == "eq" and {c.a[1], c.a[2]} == {a, b}:
            return True
    return False


def aggregates(F, adt, variant=None):
    """functions whose own body builds a value of the type"""
    out = set()
    for f in F.fns.values():
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].split("::")[-1] == adt and \
                        (variant is None or s[2][3] == variant):
                    out.add(f)
    return sorted(out, key=lambda f: f.path)
