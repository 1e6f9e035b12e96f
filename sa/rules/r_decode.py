"""C01 (decoding never panics), C02 (memory and work bounded by the input), C03 (compound values are confined)."""
import re
from absint import *
from lin import *
from bufs import *

CODEC = "ntex_amqp_codec::"
DECODE_TRAITS = (CODEC + "codec::Decode", CODEC + "codec::DecodeFormatted", "ntex_codec::Decoder")
ALLOC = {"with_capacity", "with_capacity_and_hasher", "reserve", "reserve_exact", "resize", "try_reserve", "repeat",
         "zeroed"}
# external operations that panic on some arguments and are not length checks: never acceptable on input
PANICS = {"timestamp", "timestamp_millis", "timestamp_nanos", "from_secs_f64", "swap_remove", "unwrap_unchecked",
          "from_utf8_unchecked", "get_unchecked"}


def crate(f):
    return f.id.startswith("ntex_amqp_codec") or f.path.lstrip("<").startswith(CODEC) or f.file.startswith("codec/")


def roots(F):
    out = []
    for f in F.fns.values():
        if f.kind == "Closure" or not crate(f):
            continue
        t = f.impl_trait or ""
        if t in DECODE_TRAITS and f.name in ("decode", "decode_with_format"):
            out.append(f)
        elif t.startswith(("core::convert::TryFrom", "core::hash::Hash", "core::cmp::PartialEq", "core::ops::drop::Drop")) and not f.derived:
            out.append(f)
        elif f.kind == "AssocFn" and not t and f.name in ("decode", "load_message"):
            out.append(f)
    return sorted(out, key=lambda f: f.path)


def engine(ctx, hook, **kw):
    E = ctx.engine(hook, track_asserts=True, **kw)
    E.keep_facts, E.max_part, E.codec_inline = True, 600, True
    E.max_paths = 40000
    return E


def label(f):
    return re.sub(r"ntex_amqp_codec::(codec::|types::|protocol::|message::)*", "", f.path)


def kinds_hook(kinds):
    def hook(E, st, e):
        if e.kind not in kinds:
            return None
        if e.kind in ("call", "assert"):
            e.x = (tuple(E.deepval(st, a) for a in e.args), e.x, frozenset(st.facts.items()))
        elif e.kind in ("unwrap", "panic"):
            e.x = ((), e.x, frozenset(st.facts.items()))
        return e
    return hook


def c01(ctx):
    rs = roots(ctx.F)
    ctx.parallel(c01_one, rs)
    ctx.floor("decode roots", len(rs), 80)
    ctx.floor("panic-capable operations on input", len(ctx.obs), 250)


def c01_one(ctx, f):
    F = ctx.F
    nob = {}
    seen = set()
    work = []

    def hook(E, st, e):
        if e.kind not in ("call", "assert", "unwrap", "panic"):
            return None
        deep = tuple(E.deepval(st, a) for a in e.args) if e.kind in ("call", "assert") else tuple(e.args)
        fx = frozenset(st.facts.items())
        k = (e.kind, e.name, deep, e.fn, e.line, fx, freeze(e.x))
        if k not in seen:
            seen.add(k)
            work.append((e.kind, e.name, deep, e.fn, e.line, fx, e.x))
        return None
    E = engine(ctx, hook)
    paths = E.run(f)
    if not paths:
        ctx.bad("nopath:" + f.path, "no path through %s could be followed" % f.path)
    Z = Bufs(F, f, E)
    if E.toobig:
        ctx.bad("toobig:" + f.path, "%s: %s could not be followed" % (label(f), list(E.toobig)[:3]))
    work.sort(key=lambda w: hash(w[5]))
    cache = [None, None]

    def boxed(fx):
        if cache[0] != fx:
            cache[0], cache[1] = fx, Z.box(dict(fx))
        return cache[1].copy()
    for kind, name, args, fn, line, fx, x in work:
        n = last(name) if name else kind
        need = []       # linear forms that must be <= 0
        what = None
        if kind == "assert":
            ty, cond, exp = x
            if cond.k == "C":
                if bool(cond.a[0]) == exp:
                    continue
                need = None
            elif name == "bounds":
                boxed(fx)
                ln = args[0]
                need = [Z.conv(args[1]) - Z.conv(ln) + Lin(c=1), Z.conv(args[1]).scale(-1)]
                what = "index out of bounds"
            elif name.startswith("overflow:"):
                op = name.split(":")[1]
                r = RANGE.get(ty)
                if op in ("Shl", "Shr"):
                    r = (0, 63)
                    if len(args) and args[-1].k == "C" and 0 <= args[-1].a[0] < 64:
                        continue
                boxed(fx)
                if r is None:
                    need = None
                elif op in ("Add", "Sub", "Mul") and len(args) == 2:
                    v = Z.conv(mk("B", op, args[0], args[1]))
                    need = [v - Lin(c=r[1]), Lin(c=r[0]) - v]
                elif op == "Neg":
                    need = [Lin(c=r[0] + 1) - Z.conv(args[0])]
                elif op in ("Div", "Rem") and args[-1].k == "C" and args[-1].a[0] not in (0, -1):
                    continue
                else:
                    need = None
                what = "arithmetic overflow (%s on %s)" % (op, ty)
            elif name in ("div0", "rem0"):
                need = None
                what = "division by zero"
            else:
                continue
        elif kind in ("unwrap", "panic"):
            need = None
            what = "panic" if kind == "panic" else "unwrap of a value that can be absent"
            if True:
                v = args[0] if args else None
                # try_into of a slice of constant length into an array of the same length
                if v is not None and v.k == "X" and last(v.a[0]) in ("try_into", "try_from"):
                    boxed(fx)
                    l = Z.length(v.a[1][0]).const()
                    if l is not None and l == array_len(E, v, fn):
                        nob["unwrap"] = nob.get("unwrap", 0) + 1
                        ctx.ob("%s:%d unwrap" % (fn.path, line), True)
                        continue
        elif kind == "call":
            if not args:
                continue
            boxed(fx)
            if n in GETW:
                need, what = [Lin(c=GETW[n]) - Z.length(args[0])], "read past the end"
            elif n in READW:
                need, what = [Lin(c=READW[n]) - Z.length(args[0])], "read past the end"
            elif n in ("advance", "advance_to", "split_to", "split_off", "copy_to_bytes") and len(args) == 2:
                need = [Z.conv(args[1]) - Z.length(args[0]), Z.conv(args[1]).scale(-1)]
                what = "%s past the end" % n
            elif n in ("index", "index_mut", "slice", "split_at") and len(args) == 2:
                g = args[1]
                ln = Z.length(args[0])
                if g.k == "A":
                    a, b = fval(g, "start"), fval(g, "end")
                    incl = "Inclusive" in g.a[0]
                    need = []
                    if b is not None:
                        need.append(Z.conv(b) + Lin(c=int(incl)) - ln)
                        if a is not None:
                            need.append(Z.conv(a) - Z.conv(b))
                    elif a is not None:
                        need.append(Z.conv(a) - ln)
                else:
                    need = [Z.conv(g) - ln + Lin(c=0 if n == "split_at" else 1)]
                what = "range past the end"
            elif n in ("copy_from_slice", "clone_from_slice") and len(args) == 2:
                d = Z.length(args[0]) - Z.length(args[1])
                need, what = [d, d.scale(-1)], "slices of different length"
            elif n in ("copy_to_slice",) and len(args) == 2:
                need, what = [Z.length(args[1]) - Z.length(args[0])], "read past the end"
            elif n in PANICS:
                need, what = None, "call that panics on some inputs"
            else:
                continue
        ok = False
        if need is not None:
            b = Z.close(boxed(fx))
            ok = b.dead or all(b.implies_le0(x) for x in need)
        else:
            ok = boxed(fx).dead
        nob[n] = nob.get(n, 0) + 1
        where = "%s:%d" % (fn.file, line)
        ctx.ob("%s %s in %s" % (where, n, label(f)), ok,
               "%s: %s reached from %s: %s %s is not excluded on a path with %s" % (
                   where, what, label(f), n, tuple(show(a) for a in args),
                   ", ".join("%s %s" % (show(t), v) for t, v in list(fx)[-5:])),
               "panic:%s:%s:%s" % (fn.path, n, label(f)))
    ctx.sample(label(f))
    for k, v in nob.items():
        ctx.count("op " + k, v)


def array_len(E, v, fn):
    """length of the array a try_into result unwraps to"""
    ty = E.types.get(v, "")
    m = re.search(r"\[u8; (\d+)\]", ty)
    return int(m.group(1)) if m else None


# ---- C03 ----------------------------------------------------------------------------------------------
COMPOUND8 = {0xc0, 0xc1, 0xe0}
COMPOUND32 = {0xd0, 0xd1, 0xf0}
VAR8 = {0xa0, 0xa1, 0xa3}
VAR32 = {0xb0, 0xb1, 0xb3}


def chain(t):
    """buffer values this value was derived from by consuming operations"""
    out = [t]
    while t.k == "X" and t.a[0].startswith("mut:"):
        t = t.a[1][0]
        out.append(t)
    return out


def eq0(b, d):
    return b.dead or (b.implies_le0(d) and b.implies_le0(d.scale(-1)))


def header_value(F, f, r):
    """(size, count) if the function decodes just a compound header"""
    h = f.impl_self["h"] if f.impl_self else ""
    a = F.adts.get(h)
    if not a or len(a["variants"]) != 1 or sorted(x["name"] for x in a["variants"][0]["fields"]) != ["count", "size"]:
        return None
    v = r.a[2][0][1] if r.k == "A" and r.a[2] else mk("F", r, ("core::result::Result", "Ok", "0"), 0)
    s, c = fval(v, "size"), fval(v, "count")
    return (s, c) if s is not None and c is not None else (v, v)


def c03_one(ctx, f):
    F = ctx.F
    bufname = next((f.names.get(i) for i in range(1, f.argc + 1) if "Bytes" in f.locals[i]["s"]), None)
    fmtname = next((f.names.get(i) for i in range(1, f.argc + 1) if f.locals[i]["s"] == "u8"), None)
    if bufname is None:
        return

    def hook(E, st, e):
        if e.kind == "call" and last(e.name) in ("decode", "decode_with_format"):
            e.x = E.deepval(st, e.args[0]) if e.args else None
            return e
        return None
    E = engine(ctx, hook)
    Z = Bufs(F, f, E)
    root = mk("P", bufname)
    n = 0
    for p in E.run(f):
        r = p.ret
        if p.out != "ret" or r.k == "A" and r.a[1] == "Err":
            continue
        if r.k != "A" and p.state.facts.get(r, ("",))[-1] == "Err":
            continue
        final = E.deepval(p.state, mk("&", ("H", mk("P", bufname)), ()))
        facts = p.state.facts
        b = Z.box(facts)
        heads = []
        for t, fa in facts.items():
            if fa[0] != "eq" or not isinstance(fa[1], int):
                continue
            if t.k == "P" and t.a[0] == fmtname:
                heads.append((root, Lin(), fa[1]))
                continue
            l = Z.conv(t)
            if len(l.m) == 1 and l.c == 0:
                a, k = next(iter(l.m.items()))
                if k == 1 and a.k == "X" and a.a[0] == "BE" and a.a[3] == 1:
                    heads.append((a.a[1][0], a.a[2] + Lin(c=1), fa[1]))
        for base, off, code in heads:
            if code in COMPOUND8 or code in COMPOUND32:
                w = 1 if code in COMPOUND8 else 4
                size = Lin({mk("X", "BE", (base,), off, w): 1})
                end = off + Lin(c=w) + size
            elif code == 0x45:
                end, w = off, 0
            else:
                continue
            n += 1
            hd = header_value(F, f, r)
            if hd is not None:
                sz, ct = Z.conv(hd[0]), Z.conv(hd[1])
                bb = Z.close(b)
                if w:
                    ws = Lin({mk("X", "BE", (base,), off, w): 1}) - Lin(c=w)
                    wc = Lin({mk("X", "BE", (base,), off + Lin(c=w), w): 1})
                else:
                    ws = wc = Lin()
                d = Z.length(final) - Z.length_of((base, off + Lin(c=2 * w), None))
                for what, x in (("size", sz - ws), ("count", ct - wc), ("consumption", d)):
                    ctx.ob("%s: %s of %#x" % (label(f), what, code), eq0(bb, x),
                           "%s:%d: %s returns a wrong %s for compound code %#x" % (f.file, f.line, label(f), what, code),
                           "header:%s:%#x:%s" % (f.path, code, what))
                continue
            nb, no, ne = Z.norm(final)
            body = [x for x in walk(r) if x.k == "A" and last(x.a[0]) == "TransferBody" and x.a[1] == "Data"]
            if body:
                # a transfer: everything behind the performative is the payload
                bb = Z.close(b)
                xb, xo, xe = Z.norm(body[0].a[2][0][1])
                bb = Z.close(bb)
                ok = xb is base and eq0(bb, xo - end) and eq0(bb, Z.length(final)) and \
                    (xe is None or eq0(bb, Z.length_of((xb, xe, None))))
                ctx.ob("%s: payload is what follows the performative" % label(f), ok,
                       "%s:%d: %s does not take exactly the bytes behind the performative as payload" % (
                           f.file, f.line, label(f)), "payload:%s" % f.path)
                continue
            got = Z.length(final)
            want = Z.length_of((base, end, None))
            d = got - want
            bb = Z.close(b)
            ok = eq0(bb, d)
            where = "%s:%d" % (f.file, f.line)
            ctx.ob("%s: compound %#x consumes exactly its announced size" % (label(f), code), ok,
                   "%s: %s decodes compound value %#x but does not consume exactly the announced size: %s bytes "
                   "remain where %s should" % (where, label(f), code, got, want),
                   "consume:%s:%#x" % (f.path, code))
            # element decoders must not see bytes behind the compound
            fin = set(chain(final)) | {final}
            for e in p.events:
                v = e.x
                if v is None:
                    continue
                cb, co, ce = Z.norm(v)
                origin = cb
                for x in chain(cb)[1:]:
                    origin, o2, e2 = Z.norm(x)
                    ce = e2 if ce is None else ce
                    if origin is base:
                        break
                if origin is not base:
                    continue
                if ce is not None:
                    okc = bb.implies_le0(ce - end)
                else:
                    okc = v in fin or any(x is base for x in [v])
                ctx.ob("%s: elements of %#x are read inside the value" % (label(f), code), okc,
                       "%s:%d: %s decodes an element of a compound value from bytes beyond its announced size" % (
                           f.file, e.line, label(f)), "beyond:%s:%#x" % (f.path, code))
    ctx.count("compound headers followed", n)
    if n:
        ctx.sample(label(f))


def c03(ctx):
    rs = [f for f in roots(ctx.F) if f.impl_trait in DECODE_TRAITS[:2]]
    ctx.parallel(c03_one, rs)
    ctx.floor("compound headers followed", ctx.counts.get("compound headers followed", 0), 60)


# ---- C02 ----------------------------------------------------------------------------------------------
CONSUME = set(GETW) | {"advance", "advance_to", "split_to", "copy_to_bytes", "copy_to_slice"}
ELEMENT_OK = 4096


def is_consuming(name):
    n = last(name)
    # Decode::decode reads a format code first; decode_with_format may consume nothing
    return n in CONSUME or (n == "decode" and ("codec::Decode" in name or " as " in name))


def failed(facts):
    """calls whose result is known to be an error (a failed read does not count as progress)"""
    return {(t.a[0], t.a[-1]) for t, v in facts.items() if t.k == "X" and v[0] == "is" and v[1] in ("Err", "None")}


def c02_one(ctx, f):
    F = ctx.F
    seen = set()
    allocs = []

    def hook(E, st, e):
        if e.kind == "call":
            n = last(e.name)
            if n in ALLOC:
                deep = tuple(E.deepval(st, a) for a in e.args)
                k = (e.name, deep, e.fn, e.line, frozenset(st.facts.items()))
                if k not in seen:
                    seen.add(k)
                    allocs.append(k)
                return None
            if is_consuming(e.name) or n == "decode_with_format":
                return e
        if e.kind == "next":
            e.x = tuple(E.deepval(st, a) for a in e.args[:1])
            return e
        if e.kind == "write":
            return e
        return None
    E = engine(ctx, hook)
    Z = Bufs(F, f, E)
    paths = E.run(f)
    nl = 0
    # capacity
    for name, args, fn, line, fx in allocs:
        n = last(name)
        a = args[0] if n.startswith(("with_capacity", "zeroed")) else args[1] if len(args) > 1 else None
        if a is None:
            continue
        Z.box(dict(fx))
        v = Z.conv(a)
        b = Z.close(Z.box(dict(fx)))
        v = Z.conv(a)
        ok = b.eval(v)[1] <= ELEMENT_OK
        if not ok:
            cand = {x for k in b.iv for x, _ in k if x.k == "X" and x.a[0] == "LEN"}
            ok = any(b.implies_le0(v - Lin({x: 1})) for x in cand)
        ctx.ob("%s: reservation bounded by the input" % label(f), ok,
               "%s:%d: %s reserves room for %s elements, which nothing bounds by the bytes present" % (
                   fn.file, line, label(f), show(a)), "alloc:%s" % fn.path)
        nl += 1
    ctx.count("reservations", nl)
    # counted loops consume input in every turn
    nloop = 0
    for p in paths:
        ev = p.events
        for i, e in enumerate(ev):
            if e.kind != "next":
                continue
            src = e.x[0]
            rng = src.k == "A" and last(src.a[0]).startswith("Range")
            if not rng:
                continue
            x = fval(src, "end")
            if x is None or x.k == "C":
                continue
            j = next((k for k in range(i + 1, len(ev)) if ev[k].kind == "next" and ev[k].fn is e.fn and
                      ev[k].line == e.line), None)
            if j is None:
                continue
            nloop += 1
            bad = failed(p.state.facts)
            ok = any(y.kind == "call" and is_consuming(y.name) and (y.name, y.uid) not in bad for y in ev[i:j])
            ctx.ob("%s: every turn of the counted loop consumes input" % label(f), ok,
                   "%s:%d: a loop in %s turns %s times although a turn can consume no input" % (
                       e.fn.file, e.line, label(f), show(x)), "loop:%s" % e.fn.path)
    ctx.count("loop turns", nloop)
    # recursive decoding is preceded by a bounded counter
    guarded = True
    rec = 0
    for p in paths:
        g = False
        box = None
        for e in p.events:
            if e.kind == "write" and len(e.args) > 1 and e.args[1].k == "B" and e.args[1].a[0] == "Add" and \
                    e.args[1].a[2].k == "C" and e.args[1].a[2].a[0] > 0:
                if box is None:
                    box = Z.box(p.state.facts)
                if box.eval(Z.conv(e.args[1].a[1]))[1] <= 100000:
                    g = True
            elif e.kind == "call" and last(e.name) in ("decode", "decode_with_format"):
                rec += 1
                if not g:
                    guarded = False
    if rec and guarded:
        ctx.notes.append("guard:" + f.id)


def decode_graph(F):
    fns = {i: f for i, f in F.fns.items() if crate(f)}
    impls = []
    for f in fns.values():
        if f.kind != "Closure" and f.impl_trait in DECODE_TRAITS and f.impl_self and f.impl_self["k"] == "adt":
            impls.append((re.escape(f.impl_self["h"]), f.id))
    edges = {}
    for i, f in fns.items():
        out = edges.setdefault(i, set())
        for b in f.blocks:
            t = b["t"]
            if not t or t[0] != "call":
                continue
            c = F.callee(t)
            if not c:
                continue
            if c.get("rid") in fns:
                out.add(c["rid"])
            p = c["path"]
            if last(p) in ("decode", "decode_with_format") and "ntex_amqp_codec" in p:
                for ta in c.get("targs", [])[:1]:
                    for h, j in impls:
                        if re.search(h + r"\b", ta["s"]):
                            out.add(j)
        for ch in F.children.get(i, ()) if isinstance(getattr(F, "children", None), dict) else ():
            out.add(ch.id if hasattr(ch, "id") else ch)
    return fns, edges


def cycles(edges, without):
    """strongly connected components with a cycle, after removing `without`"""
    import sys
    idx, low, st, on, out = {}, {}, [], set(), []
    n = [0]

    def visit(v):
        work = [(v, iter(sorted(edges.get(v, ()))))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w in without or w not in edges:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(edges.get(w, ())))))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in edges.get(v, ()):
                    out.append(comp)
    for v in sorted(edges):
        if v not in idx and v not in without:
            visit(v)
    return out


def c02(ctx):
    F = ctx.F
    rs = roots(F)
    ctx.parallel(c02_one, rs)
    guards = {n[6:] for n in ctx.notes if n.startswith("guard:")}
    ctx.notes = [n for n in ctx.notes if not n.startswith("guard:")]
    fns, edges = decode_graph(F)
    # only what decoding can reach
    reach, todo = set(), [f.id for f in rs]
    while todo:
        v = todo.pop()
        if v in reach:
            continue
        reach.add(v)
        todo += [w for w in edges.get(v, ()) if w in edges]
    edges = {v: {w for w in ws if w in reach} for v, ws in edges.items() if v in reach}
    n0 = cycles(edges, set())
    for comp in n0:
        ctx.count("recursive groups")
    for comp in cycles(edges, guards):
        names = sorted({label(fns[i]) for i in comp})
        ctx.bad("recursion:" + ",".join(names)[:150], "decoding recurses without a depth limit: %s" % " -> ".join(names[:8]))
    ctx.ob("recursion is bounded", True)
    # other loops: every cycle consumes input or walks a collection
    nl = 0
    for i in sorted(reach):
        f = fns[i]
        if f.derived:
            continue
        for head, body in f.loops().items():
            nl += 1
            cut, it = set(), False
            for b in body:
                t = f.blocks[b]["t"]
                if t and t[0] == "call":
                    c = F.callee(t)
                    if c and last(c["path"]) == "next":
                        it = True
                    elif c and (is_consuming(c["path"]) or c.get("rid") in fns and always_consumes(F, fns, c["rid"], set())):
                        cut.add(b)
            if it:
                continue
            # can the head reach itself inside the body without a consuming block?
            seen, todo, cyc = set(), [(head, None)], False
            while todo:
                b, src = todo.pop()
                for s, src2 in turns(F, f, b, src, b in cut):
                    if s == head:
                        cyc = True
                    elif s in body and (s, src2) not in seen:
                        seen.add((s, src2))
                        todo.append((s, src2))
            ctx.ob("%s: loop makes progress" % label(f), not cyc,
                   "%s: a loop in %s can turn without consuming input" % (f.file, label(f)), "progress:" + f.path)
    ctx.floor("loops", nl, 8)
    ctx.floor("reservations", ctx.counts.get("reservations", 0), 7)
    ctx.floor("loop turns", ctx.counts.get("loop turns", 0), 10)


def local_of(op):
    """the local an operand or place reads, without projections"""
    pl = op.get("c") or op.get("m") if isinstance(op, dict) else op
    return pl[0] if isinstance(pl, list) and pl and isinstance(pl[0], int) else None


def turns(F, f, b, src, consumes):
    """successors of a block that may be taken without input having been consumed. `src` is the set of locals
    holding the result of a consuming call whose outcome is not known yet; only its failing edges go on."""
    blk = f.blocks[b]
    src = set(src or ())
    pend = bool(src)
    discr = set()
    for st in blk["s"]:
        if st[0] != "=":
            continue
        rv = st[2]
        for x in rv[1:]:
            if isinstance(x, (dict, list)) and local_of(x) in src and st[1][0] not in src:
                (discr if rv[0] == "discr" else src).add(st[1][0])
        if rv[0] == "agg" and any(local_of(o) in src for _, o in rv[4]):
            src.add(st[1][0])
    t = blk["t"]
    if not t:
        return
    if t[0] == "call":
        if consumes:
            if re.match(r"core::(result::Result|option::Option|ops::control_flow)", f.locals[t[3][0]]["s"]):
                yield from ((s, frozenset([t[3][0]])) for s in f.succs(b))
            return
        if pend and any(local_of(a) in src for a in t[2]):
            src.add(t[3][0])
    if t[0] == "switch" and pend and (local_of(t[1]) in discr or local_of(t[1]) in src):
        # only the failing outcome of the read (Err / Break: discriminant 1, Option None: 0) goes on
        ty = " ".join(f.locals[x]["s"] for x in src)
        good = 1 if re.search(r"option::Option<", ty) and "result::Result" not in ty and "ControlFlow" not in ty else 0
        vals = [(str(x[0]), x[1]) for x in t[3]]
        if str(good) in [v for v, _ in vals]:
            yield from ((s, None) for s in [s for v, s in vals if v != str(good)] + [t[4]])
        else:
            yield from ((s, None) for v, s in vals)
        return
    fr = frozenset(src) if src else None
    yield from ((s, fr) for s in f.succs(b))


def always_consumes(F, fns, i, stack):
    """every way through the function passes a consuming call"""
    if i in stack or i not in fns:
        return False
    f = fns[i]
    if f.impl_trait in DECODE_TRAITS and f.name == "decode":
        return True
    seen, todo = {0}, [0]
    while todo:
        b = todo.pop()
        t = f.blocks[b]["t"]
        if not t:
            continue
        if t[0] == "call":
            c = F.callee(t)
            if c and (is_consuming(c["path"]) or always_consumes(F, fns, c.get("rid"), stack | {i})):
                continue
        if t[0] == "ret":
            return False
        for s in f.succs(b):
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return True
