"""R08: nothing the peer sends, and no order of the application's answers, makes the engine panic."""
import re
from mainlib import *
from r_end import by_tail, co, SL, LINKS, where
from r_conn import on_frame, FRAME, isq2
from r_svc import deref, last_, not_above, istrue, loop_var

CRATE = "ntex_amqp"
TAKES = ("remove", "swap_remove", "get", "get_mut", "index", "index_mut", "swap_remove_back", "swap_remove_front")
ENDS_OF = ("back", "back_mut", "front", "front_mut", "first", "first_mut", "last", "last_mut", "pop", "pop_back", "pop_front", "peek", "peek_mut")
CALLS = {"remove", "swap_remove", "index", "index_mut", "split_to", "split_off", "split_at", "split_at_mut", "drain", "insert", "copy_from_slice", "clone_from_slice", "advance", "get_unchecked",
         "unwrap_unchecked", "remove_entry", "div_ceil", "swap", "chunks", "chunks_exact", "windows", "step_by", "copy_within", "rotate_left", "rotate_right", "range", "get_u8", "get_u16", "get_u32", "get_u64",
         "abs", "pow", "neg", "next_power_of_two", "ilog2", "ilog10", "ilog", "from_str_radix", "from_utf8_unchecked", "duration_since", "sub", "replace_range", "rem_euclid", "div_euclid"}
SAFE = ("HashMap", "HashSet", "FxHash", "BTree", "Flags", "InternalBitFlags", "VacantEntry", "OccupiedEntry", "Entry", "Slab::insert", "BytesMut::copy_from_slice", "Bytes::copy_from_slice", "ByteString",
        "Extensions", "Option::insert", "Cell::")
INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63, "u128": 128, "i128": 127}


# ---- what a path condition says ----------------------------------------------------------------------------------
def uncast(t):
    while t is not None and (t.k == "X" and t.a[0] in ("cast",) or t.k == "X" and last_(t) in ("from", "into") and len(t.a[1]) == 1):
        t = t.a[1][-1]
    return t


def same(a, b):
    return a is b or uncast(deref(a)) is uncast(deref(b))


def lens(t):
    """the collection a term is the length of"""
    t = uncast(t)
    if t is not None and t.k == "X" and last_(t) in ("len", "remaining") and t.a[1]:
        return deref(t.a[1][0])
    return None


def compare(fx):
    """comparisons known to hold: (op, a, b) with op in Lt Le Eq Ne"""
    out = []
    for t, x in fx.items():
        if t.k == "B" and x[0] == "eq" and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            op, a, b = t.a[0], t.a[1], t.a[2]
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            if not x[1]:
                op, a, b = {"Lt": ("Le", b, a), "Le": ("Lt", b, a), "Eq": ("Ne", a, b), "Ne": ("Eq", a, b)}[op]
            out.append((op, a, b))
        elif x[0] == "eq" and isinstance(x[1], int) and not isinstance(x[1], bool) and t.k in ("F", "X", "P"):
            out.append(("Eq", t, C(x[1])))
        elif x[0] == "ne":
            for v in x[1]:
                if isinstance(v, int):
                    out.append(("Ne", t, C(v)))
    return out


def num(t):
    t = uncast(t)
    return t.a[0] if t is not None and t.k == "C" and isinstance(t.a[0], int) else None


def least(cmp, t):
    """a lower bound of an unsigned term"""
    k = num(t)
    if k is not None:
        return k
    lo = 0
    for op, a, b in cmp:
        if same(b, t) and num(a) is not None and op in ("Lt", "Le"):
            lo = max(lo, num(a) + (op == "Lt"))
        if op == "Eq" and (same(a, t) and num(b) is not None):
            lo = max(lo, num(b))
        if op == "Eq" and same(b, t) and num(a) is not None:
            lo = max(lo, num(a))
        if same(b, t) and op == "Lt":
            lo = max(lo, 1)
    for op, a, b in cmp:
        if op == "Ne" and (same(a, t) and num(b) == lo or same(b, t) and num(a) == lo):
            lo += 1
    t = uncast(t)
    if t.k == "B" and t.a[0] == "Add":
        lo = max(lo, least(cmp, t.a[1]), least(cmp, t.a[2]))
    if t.k == "X" and last_(t) in ("max",) and len(t.a[1]) == 2:
        lo = max([lo] + [least(cmp, y) for y in t.a[1]])
    if t.k == "X" and last_(t) == "min" and len(t.a[1]) == 2:
        lo = max(lo, min(least(cmp, y) for y in t.a[1]))
    return lo


def at_most(cmp, a, b, strict=False, depth=3):
    """a <= b (a < b) is known"""
    ka, kb = num(a), num(b)
    if ka is not None and kb is not None:
        return ka < kb if strict else ka <= kb
    if not strict and same(a, b):
        return True
    if ka is not None and least(cmp, b) >= ka + strict:
        return True
    for op, x, y in cmp:
        if same(x, a) and same(y, b) and (op == "Lt" or op in ("Le", "Eq") and not strict) or op == "Eq" and same(x, b) and same(y, a) and not strict:
            return True
    u, v = uncast(deref(a)), uncast(deref(b))
    if not strict and not_above(u, v):
        return True
    if u.k == "X" and last_(u) == "min" and depth and any(at_most(cmp, y, b, strict, depth - 1) for y in u.a[1]):
        return True
    if u.k == "B" and u.a[0] in ("Sub", "Div", "Rem", "Shr", "BitAnd") and depth and at_most(cmp, u.a[1], b, strict, depth - 1):
        return True
    if u.k == "X" and last_(u) in ("saturating_sub",) and depth and at_most(cmp, u.a[1][0], b, strict, depth - 1):
        return True
    if depth:
        for op, x, y in cmp:
            if op in ("Lt", "Le") and same(x, a) and y is not b and at_most(cmp, y, b, strict and op != "Lt", 0):
                return True
    return False


def nonempty(fx, cmp, c):
    c = deref(c)
    for t, x in fx.items():
        if t.k == "X" and t.a[1] and same(t.a[1][0], c):
            if last_(t) == "is_empty" and istrue(x) is False:
                return True
            if last_(t) in ENDS_OF + TAKES and x == ("is", "Some"):
                return True
            if last_(t) in ("len",) and x[0] in ("eq", "ne") and (x[0] == "eq" and x[1] != 0 or x[0] == "ne" and 0 in x[1]):
                return True
    for op, a, b in cmp:
        for q in (a, b):
            if lens(q) is not None and same(lens(q), c) and least(cmp, q) >= 1:
                return True
    return False


def within_len(cmp, i, c, strict=True):
    """the number is below the length of the collection"""
    for op, a, b in cmp:
        for q in (a, b):
            if lens(q) is not None and same(lens(q), c) and at_most(cmp, i, q, strict):
                return True
    u = uncast(deref(i))
    if not strict and lens(u) is not None and same(lens(u), c):
        return True
    if not strict and u.k == "X" and last_(u) == "min" and any(within_len(cmp, y, c, False) for y in u.a[1]):
        return True
    return False


def looked(t):
    """the (table, key) a number was looked up with in a map"""
    t = uncast(deref(t))
    if t is not None and t.k == "F" and t.a[1][1:] == ("Some", "0"):
        u = uncast(deref(t.a[0]))
        if u is not None and u.k == "X" and last_(u) in ("get", "get_mut", "remove") and len(u.a[1]) == 2:
            return u.a[1]
    return None


def place(t):
    """the field a collection lives in, whatever has been done to it"""
    t = deref(t)
    return (t.a[0], t.a[1]) if t is not None and t.k == "F" else t


def same_key(a, b):
    if same(a, b):
        return True
    x, y = looked(a), looked(b)
    return x is not None and y is not None and place(x[0]) == place(y[0]) and same(x[1], y[1])


def holds(fx, c, k):
    """the table is known to have this entry"""
    for t, x in fx.items():
        if t.k == "X" and len(t.a[1]) == 2 and place(t.a[1][0]) == place(c) and same_key(t.a[1][1], k):
            if last_(t) in ("get", "get_mut") and (x == ("is", "Some") or x[0] == "not" and "None" in x[1]):
                return True
            if last_(t) in ("contains", "contains_key") and istrue(x):
                return True
    k = uncast(deref(k))
    if k is not None and k.k == "X" and last_(k) in ("insert", "key", "vacant_key", "vacant_entry"):
        return True
    # the key an iteration over the table gave
    return k is not None and contains(k, lambda y: y.k == "X" and last_(y) == "next" and contains(y, lambda z: same(z, c)))


# ---- the places that can panic -----------------------------------------------------------------------------------
def size_like(t, cmp):
    """at most isize::MAX: the length of something in memory, a small number, or below such a length"""
    t = uncast(t)
    if num(t) is not None:
        return abs(num(t)) < 1 << 62
    if lens(t) is not None or t.k == "X" and last_(t) in ("encoded_size", "size_of", "body_len", "size_hint", "len", "remaining", "capacity"):
        return True
    if any(op == "Lt" and same(a, t) and lens(b) is not None for op, a, b in cmp):
        return True
    if t.k == "X" and last_(t) == "min":
        return any(size_like(y, cmp) for y in t.a[1])
    return t.k == "B" and t.a[0] in ("Sub", "Div", "Rem") and size_like(t.a[1], cmp)


def fine_assert(name, args, x, fx):
    ty, cond, exp = x
    if cond.k == "C":
        return bool(cond.a[0]) == exp
    cmp = compare(fx)
    if name == "bounds":
        return at_most(cmp, args[1], args[0], True)
    if name in ("div0", "rem0"):
        d = [y for y in (cond.a[1:] if cond.k == "B" else ())]
        d = [y for y in d if num(y) != 0]
        return bool(d) and all(least(cmp, y) >= 1 for y in d)
    if not name.startswith("overflow:"):
        return True
    op = name.split(":")[1]
    if all(num(a) is not None for a in args) and op in ("Add", "Sub", "Mul") and len(args) == 2:
        a, b = num(args[0]), num(args[1])
        v = a + b if op == "Add" else a - b if op == "Sub" else a * b
        n = INTS.get(ty, 0)
        return (-(1 << n) if ty.startswith("i") else 0) <= v < (1 << n)
    if op == "Sub" and len(args) == 2 and not ty.startswith("i"):
        return at_most(cmp, args[1], args[0])
    if op == "Add" and len(args) == 2:
        if INTS.get(ty, 0) >= 63 and all(size_like(a, cmp) for a in args):
            return True
        i, k = (args[0], args[1]) if num(args[1]) is not None else (args[1], args[0])
        # one more than something known to be below something
        if num(k) == 1 and any(op2 == "Lt" and same(a, i) for op2, a, b in cmp):
            return True
        # one more than a position that is in use
        return num(k) == 1 and any(t.k == "X" and last_(t) in TAKES and len(t.a[1]) == 2 and same(t.a[1][1], i) and x2 == ("is", "Some") for t, x2 in fx.items())
    if op in ("Shl", "Shr") and num(args[-1]) is not None:
        return 0 <= num(args[-1]) < INTS.get(ty, 8)
    if op in ("Div", "Rem"):
        return num(args[-1]) not in (None, 0, -1)
    return False


def open_link(fx, k):
    """the number is that of a link that is known not to be closed: its slot is there (E03, E04, R05: a slot is only taken away
    from a link that is marked closed)"""
    for t, x in fx.items():
        if t.k == "F" and adt_field(t) in ((SL, "closed"), ("ReceiverLinkInner", "closed")) and istrue(x) is False:
            if contains(k, lambda y: y is t.a[0] or y.k == "F" and y.a[0] is t.a[0]):
                return True
            base = t.a[0]
            while base.k == "F" and base.a[1][0] == "*":
                base = base.a[0]
            if contains(k, lambda y: y is base):
                return True
    return False


def fine_panic(name, args, fx, inv):
    cmp = compare(fx)
    v = args[0] if args else None
    v = deref(v) if v is not None else None
    if v is None:
        return False, None
    if v.k == "X" and v.a[1]:
        n = last_(v)
        if n in ENDS_OF and nonempty(fx, cmp, v.a[1][0]):
            return True, None
        if n in TAKES and len(v.a[1]) == 2:
            if within_len(cmp, v.a[1][1], v.a[1][0]) or holds({t: x for t, x in fx.items() if t is not v}, v.a[1][0], v.a[1][1]):
                return True, None
            if isq2(v.a[1][0], LINKS) and open_link(fx, v.a[1][1]):
                return True, "open link has a slot"
    af = [adt_field(y) for y in [v] + [t for t, x in fx.items() if x == ("is", "None")] if y.k == "F"]
    if v.k == "F" and adt_field(v) == ("Wrapper", "inner") or v.k == "X" and last_(v) in ("take", "replace") and adt_field(v.a[1][0]) == ("Wrapper", "inner"):
        inv.add("wrapper")
        return True, "handed-over frame is taken once"
    if ("FrameInner", "session") in af:
        ks = [x[1] for t, x in fx.items() if t.k == "F" and adt_field(t) == ("FrameInner", "kind") and x[0] == "is"]
        if ks:
            inv.add("session:" + ks[-1])
            return True, "event of a session names it"
    return False, None


def fine_call(name, args, fx):
    n = short(name).split("::")[-1]
    cmp = compare(fx)
    if len(args) == 1:
        return n in ("abs", "neg") and False or n in ("index", "drain")
    c, i = args[0], args[1]
    if i.k == "A" and i.a[0].split("::")[-1] == "RangeFull" or "RangeFull" in show(i):
        return True
    if n in ("index", "index_mut", "drain", "range") and i.k == "A":
        d = dict(i.a[2])
        lo, hi = d.get("start"), d.get("end")
        ok = True
        if hi is not None:
            ok = within_len(cmp, hi, c, "Inclusive" in i.a[0])
            if lo is not None:
                ok = ok and at_most(cmp, lo, hi)
        elif lo is not None:
            ok = num(lo) == 0 or within_len(cmp, lo, c, False)
        return ok
    if n in ("split_to", "split_off", "advance", "split_at", "split_at_mut"):
        return num(i) == 0 or within_len(cmp, i, c, False)
    if n == "insert":
        return num(i) == 0 or within_len(cmp, i, c, False)
    if n in ("div_ceil", "rem_euclid", "div_euclid", "chunks", "windows", "chunks_exact", "step_by"):
        return least(cmp, i) >= 1
    if n in ("remove", "swap_remove", "index", "index_mut"):
        if short(name).startswith("VecDeque::remove") or short(name).startswith("Slab::try_remove"):
            return True
        return within_len(cmp, i, c) or holds(fx, c, i)
    return False


# ---- entry points ------------------------------------------------------------------------------------------------
CONFIG = re.compile(r"(Config|Options)$")


def entries(ctx):
    """frames of every kind; and every function another crate can call: the dispatcher, services, the public interface"""
    out = [("frame", v["name"]) for v in ctx.F.adts[FRAME(ctx)]["variants"]]
    for f in sorted(ctx.F.fns.values(), key=lambda f: f.id):
        if f.crate != CRATE or not f.file.startswith("src/") or f.derived or f.kind == "closure" or f.coroutine or "_::" in f.path:
            continue
        if not (f.eff_pub or f.impl_trait) or f.path.endswith("ConnectionRef::handle_frame"):
            continue
        st = self_name(f)
        # what the application chooses before anything is connected, and its own calls on a frame it has been given
        if CONFIG.search(st) or "Builder" in st and f.name not in ("attach", "send", "poll") or st in ("Wrapper", "Connector") and f.name not in ("call",):
            continue
        out.append(("fn", f.id))
    return out


def self_name(f):
    s = f.impl_self
    s = (s.get("h") or s.get("s")) if isinstance(s, dict) else s or ""
    return re.sub(r"<.*", "", str(s)).split("::")[-1]


def r08(ctx):
    rs = entries(ctx)
    # the long ones first
    rs.sort(key=lambda r: {"Transfer": 0, "End": 1, "Detach": 2, "Close": 3}.get(r[1], 9 if r[0] == "frame" else 5))
    ctx.parallel(one, rs)
    ctx.floor("entry points", len(rs), 100)
    for k, least_ in (("unwrap", 6), ("assert", 6), ("call", 8)):
        ctx.floor("places: " + k, len({n for n, ok in ctx.obs if n.startswith(k + ":")}), least_)
    inv = {n[4:] for n in ctx.counts if n.startswith("inv:")}
    invariants(ctx, inv)
    borrows(ctx)


def one(ctx, root):
    inv, seen = set(), {}

    def hook(E, s, e):
        if e.fn.crate != CRATE or e.fn.derived or "_::" in e.fn.path:
            return None
        if e.kind == "alloc":
            a = deref(E.deepval(s, e.args[1]))
            if a.k == "A" and a.a[0].endswith("FrameInner"):
                d = dict(a.a[2])
                k, ses = d.get("kind"), d.get("session")
                ctx.count("made:%s=%s" % (k.a[1] if k is not None and k.k == "A" else "?", "some" if ses is not None and ses.k == "A" and ses.a[1] == "Some" else "none"))
            return None
        if e.kind == "call":
            n = short(e.name)
            if n.split("::")[-1] not in CALLS or n.startswith(SAFE):
                return None
        elif e.kind not in ("panic", "unwrap", "assert"):
            return None
        if e.kind == "unwrap":
            nm = "unwrap:%s:%s:%d" % (e.fn.file, e.fn.name, e.line)
            seen.setdefault((nm, ()), (True, None))
            return None
        args = tuple(E.deepval(s, a) for a in e.args)
        fx = s.facts
        why = None
        if e.kind == "assert":
            ok, what = fine_assert(e.name, args, e.x, fx), e.name
        elif e.kind == "panic":
            (ok, why), what = fine_panic(e.name, args, fx, inv), e.name.split("::")[-1]
        else:
            ok, what = fine_call(e.name, args, fx), short(e.name)
        k = ("%s:%s:%s" % (e.kind, e.fn.file, e.fn.path.split("::{")[0]), what)
        if k not in seen or seen[k][0] and not ok:
            seen[k] = (ok, (e.fn, e.line, what, tuple(show(a)[:90] for a in args), [(show(t)[:70], v) for t, v in list(fx.items())[-4:]], why))
        return None
    op = lambda g: g.path.endswith("ConnectionRef::handle_frame")
    try:
        if root[0] == "frame":
            f, ps = on_frame(ctx, root[1], spec=hook, live=False, track_asserts=True)
            label = "a %s frame" % root[1]
        else:
            f = ctx.F.fns[root[1]]
            label = re.sub(r"ntex_amqp::", "", f.path)
            E = ctx.engine(hook, live=False, track_asserts=True, opaque=op, max_paths=60000)
            ps = E.run_async(f) if f.isasync else E.run(f)
    except __import__("absint").Limit as e:
        ctx.bad("limit:%s" % root[1], "cannot follow %s: %s" % (root[1], e))
        return
    for (nm, what), (ok, d) in seen.items():
        if d is None:
            ctx.ob(nm, True)
            continue
        fn, line, w, args, fx, why = d
        if why:
            ctx.count("inv:" + why)
        ctx.ob(nm + ":" + str(w), ok, "%s: %s can panic (%s): reached from %s with %s when %s" % (where(fn), w, " %s" % (line,), label, args, fx), "%s:%s" % (fn.path.split("::{")[0], w))
    for i in inv:
        ctx.count("inv:" + i)


# ---- what the rules above rest on --------------------------------------------------------------------------------
REMOVED = ("swap_remove", "remove", "pop", "pop_front", "pop_back", "next", "take", "swap_remove_back", "swap_remove_front")


def invariants(ctx, inv):
    made = {n[5:] for n in ctx.counts if n.startswith("made:")}
    ctx.floor("kinds of control frames built", len({m.split("=")[0] for m in made}), 10)
    for i in sorted(inv):
        if i.startswith("session:"):
            k = i[8:]
            ctx.ob("made:" + k, k + "=none" not in made, "a control frame of kind %s is built without its session; the dispatcher unwraps it when it is answered" % k, "made:" + k)
            ctx.ob("made:" + k + ":some", k + "=some" in made, "no place found that builds a control frame of kind %s" % k, "made:some:" + k)
    hc = by_tail(ctx, "handle_control_frame", "Dispatcher")
    if "wrapper" in inv:
        tk = by_tail(ctx, "take", "Wrapper")
        ctx.ob("wrapper:private", not tk.eff_pub, "%s: other crates can take the frame out of a Wrapper" % where(tk))
        up = callers(ctx)
        seen, todo = set(), [tk.id]
        while todo:
            i = todo.pop()
            for c in up.get(i, ()):
                if c != hc.id and c not in seen:
                    seen.add(c)
                    todo.append(c)
        out = [ctx.F.fns[c] for c in seen if ctx.F.fns[c].eff_pub or ctx.F.fns[c].impl_trait or not up.get(c)]
        ctx.ob("wrapper:taken by the answer only", not out, "%s: takes the frame out of a Wrapper outside the handling of the control service's answer" % ", ".join(where(g) for g in out[:3]))
        E, ps = runp(ctx, hc, Spec(("Wrapper::take",), (), ()), live=False, opaque=lambda g: g.id == tk.id)
        n = 0
        for p in ps:
            ts = [e for e in p.events if e.kind == "call" and short(e.name) == "Wrapper::take"]
            n += len(ts)
            ctx.ob("wrapper:once", len(ts) <= 1, "%s: takes the frame out of its Wrapper twice" % where(hc))
        ctx.floor("handed-over frames taken", n, 1)
        nw = by_tail(ctx, "new", "Wrapper")
        _, ps = runp(ctx, nw, Spec((), (), ()), live=False)
        for p in ps:
            ctx.ob("wrapper:full", p.ret is not None and "Some" in show(p.ret), "%s: starts without a frame" % where(nw))
    answered(ctx, hc)


def answered(ctx, hc):
    """a control frame whose answer is there leaves the list: it is not polled, nor handled, again"""
    from r_svc import poll_fn
    f = poll_fn(ctx)
    w = where(f)
    calls = ("ConnectionInner::close", "ConnectionInner::set_error") + tuple("Vec::" + r for r in REMOVED) + tuple("VecDeque::" + r for r in REMOVED) + ("Future::poll", "PipelineCall::poll", hc.path)
    got = []

    def hook(E, s, e):
        if e.kind == "call":
            g = ctx.F.fns.get(hc.id)
            if short(e.name) == short(hc.path):
                a = E.deepval(s, e.args[1])
                got.append(a)
                ctx.ob("answer:removed", contains(a, lambda y: y.k == "X" and last_(y) in REMOVED), "%s: handles a control frame it leaves in the list of those waiting for an answer: %s" % (w, show(a)[:120]))
        return None
    E = ctx.engine(hook, live=False, opaque=lambda g: g.id == hc.id, max_paths=60000)
    E.run_async(f) if f.isasync else E.run(f)
    ctx.floor("answers handled", len(got), 1)


def callers(ctx):
    up = {}
    for f in ctx.F.fns.values():
        if f.crate == CRATE:
            for c in callees(ctx, f):
                up.setdefault(c, set()).add(f.id)
    return up


def callees(ctx, f):
    out = set()
    for b in f.blocks:
        if b["cl"]:
            continue
        out |= {s[2][2] for s in b["s"] if s[0] == "=" and s[2][0] == "agg" and len(s[2]) > 2 and isinstance(s[2][2], str) and s[2][2] in ctx.F.fns}
        t = b["t"]
        if t and t[0] == "call":
            c = ctx.F.callee(t)
            if c:
                out.add(c.get("rid") or c["id"])
        if t and t[0] == "drop" and not t[2]["r"]:
            a = ctx.F.adts.get(t[2]["h"])
            if a and a.get("drop"):
                out.add(a["drop"])
    return out


USER = re.compile(r"(Future::poll|PipelineCall::poll|Service::(call|ready|shutdown)|FnOnce::call_once|FnMut::call_mut|Fn::call|poll_ready|poll_shutdown|Pipeline::(call|call_static))$")


def borrows(ctx):
    """no RefCell is borrowed while it is borrowed"""
    F = ctx.F
    fns = [f for f in F.fns.values() if f.crate == CRATE and not f.derived]
    down = {f.id: callees(ctx, f) for f in fns}
    cell, n = {}, 0
    for f in fns:
        for i, t in F.calls(f):
            c = F.callee(t)
            if c and re.search(r"RefCell::<?.*>?::(borrow_mut|borrow|replace|take|swap|replace_with)$", c["path"]):
                cell.setdefault(f.id, []).append((i, t, inner(f.locals[t[3][0]]["s"] if "Ref" in f.locals[t[3][0]]["s"] else arg_type(f, t))))
    def reach(ids):
        seen, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i not in seen and i in down:
                seen.add(i)
                todo += down[i]
        return seen
    pub = reach(f.id for f in fns if f.eff_pub and self_name(f) != "Dispatcher")
    for fid, bs in cell.items():
        f = F.fns[fid]
        for i, t, what in bs:
            if not f.locals[t[3][0]]["s"].split("<")[0].split("::")[-1].startswith("Ref"):
                continue
            n += 1
            seen, todo = set(), [t[4]]
            while todo:
                b = todo.pop()
                if b in seen or b < 0:
                    continue
                seen.add(b)
                u = f.blocks[b]["t"]
                if u and u[0] == "call":
                    c = F.callee(u)
                    nm = c["path"] if c else "?"
                    inside = reach({(c.get("rid") or c["id"])} if c else set())
                    # closures handed to the callee run in it
                    inside |= reach(a["h"] for a in u[-1] if isinstance(a, dict) and a.get("k") == "clo")
                    user = USER.search(nm) or c is None
                    user = user or any(USER.search((F.callee(x) or {"path": ""})["path"]) for g in inside for _, x in F.calls(F.fns[g]))
                    if user:
                        inside = inside | (pub - {fid})
                    again = sorted({F.fns[g].path for g in inside for _, _, w2 in cell.get(g, ()) if w2 == what})
                    again += [f.path] if any(j == b for j, _, w2 in bs if w2 == what) else []
                    ctx.ob("borrow:%s" % f.path, not again, "%s: while its RefCell of %s is borrowed it calls %s, which can borrow it again in %s" % (where(f), what[:60], short(nm), ", ".join(again[:2])), "borrow:%s:%s" % (f.path.split("::{")[0], short(nm)))
                    gone = nm.endswith("mem::drop") and any(isinstance(a, dict) and re.search(r"cell::RefMut<|cell::Ref<", a.get("s", "")) for a in u[-1])
                    todo += [] if gone else [u[4]]
                elif u and u[0] == "drop" and re.search(r"cell::RefMut<|cell::Ref<", u[2].get("s", "")):
                    todo += []
                else:
                    todo += f.succs(b)
    ctx.floor("borrows", n, 3)


def inner(s):
    m = re.search(r"(?:RefMut|Ref|RefCell)<(?:'[^,>]*, )?(.*)>$", s)
    return re.sub(r"'\w+ ?", "", m.group(1)) if m else s


def arg_type(f, t):
    a = t[2][0]
    pl = a.get("m") or a.get("c") if isinstance(a, dict) else None
    return f.locals[pl[0]]["s"] if pl else "?"
