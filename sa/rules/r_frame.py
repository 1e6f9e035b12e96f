"""C04: frames are delimited and limited by the frame header; protocol headers follow the specified table."""
from absint import *
from lin import *
from bufs import *
import r_size

CODEC = "ntex_amqp_codec::"


def strip(t):
    """drop version numbers of field reads"""
    if t.k == "F":
        return mk("F", strip(t.a[0]), t.a[1], 0)
    return t


def final(E, p, name):
    return E.deepval(p.state, mk("&", ("H", mk("P", name)), ()))


def fieldpath(f):
    return (f[0], f[1], f[2])


def c04(ctx):
    codec(ctx)
    header(ctx)
    protoid(ctx)


def impls(ctx, trait, adt, name):
    return [f for f in ctx.F.fns.values() if f.impl_trait and f.impl_trait.endswith(trait) and f.name == name and
            f.impl_self and f.impl_self["h"].startswith(CODEC) and f.impl_self["h"].endswith(adt)]


def codec(ctx):
    F = ctx.F
    dec = impls(ctx, "ntex_codec::Decoder", "::AmqpCodec", "decode")
    ctx.floor("frame decoder", len(dec), 1)
    if not dec:
        return
    f = dec[0]
    adt = f.impl_self["h"]
    where = "%s:%d %s" % (f.file, f.line, f.path)
    # the field the limit is stored in, and the state a new codec starts in
    limit = None
    nset = 0
    for g in F.fns.values():
        if not (g.eff_pub and g.impl_self and g.impl_self["h"] == adt and g.impl_trait is None):
            continue
        if g.argc == 2 and g.locals[2]["s"] == "usize" and g.names.get(1) == "self":
            E = ctx.engine()
            E.keep_facts = True
            for p in E.run(g):
                if p.out != "ret":
                    continue
                v = final(E, p, "self") if g.locals[1]["s"].startswith("&") else p.ret
                ws = {}
                if v.k == "W":
                    ws = {pl[0]: x for pl, x in v.a[1] if len(pl) == 1}
                elif v.k == "A":
                    ws = {(adt, "", n): x for n, x in v.a[2]}
                hit = [k for k, x in ws.items() if x is mk("P", g.names[2])]
                nset += 1
                ctx.ob("%s stores the limit" % g.name, len(hit) == 1 and (limit is None or hit[0] == limit),
                       "%s:%d %s does not store the configured maximum frame size" % (g.file, g.line, g.path),
                       "limit-stored:" + g.name)
                if hit:
                    limit = hit[0]
    ctx.floor("limit setters", nset, 2)
    new = [g for g in F.fns.values() if g.impl_self and g.impl_self["h"] == adt and g.argc == 0 and g.impl_trait is None and
           g.eff_pub]
    init = None
    for g in new:
        for p in ctx.engine().run(g):
            if p.out != "ret" or p.ret.k != "A":
                continue
            for n, x in p.ret.a[2]:
                if x.k == "X" and last(x.a[0]) == "new" and len(x.a[1]) == 1:
                    x = x.a[1][0]
                if x.k == "A" and x.a[0].startswith(CODEC) and x.a[1]:
                    init = (n, x)
                if limit and n == limit[2]:
                    ctx.ob("a new codec is unlimited", x.k == "C" and x.a[0] == 0,
                           "%s:%d a new codec does not start without a limit" % (g.file, g.line), "limit-default")
    if limit is None or init is None:
        ctx.bad("anchor:codec-state", "%s: the field holding the frame limit or the decode state was not found" % where)
        return
    sfield = init[0]
    E = ctx.engine()
    E.keep_facts, E.max_part, E.unroll = True, 5000, 4
    Z = Bufs(F, f, E)
    self_, src = f.names[1], f.names[2]
    SRC = mk("P", src)
    n = {"None": 0, "Some": 0, "Err": 0}

    def isstate(t):
        return t.k == "F" and t.a[1][2] == sfield and t.a[0] is mk("P", self_)

    for p in E.run(f):
        if p.out == "cut":
            ctx.bad("loop", "%s: a path through the frame decoder does not end" % where)
            continue
        if p.out != "ret":
            continue
        facts = p.state.facts
        box = Z.box(facts)
        if box.dead:
            continue
        # entry state
        st0, rest = None, None
        for t, x in facts.items():
            if isstate(t):
                if x[0] == "is":
                    st0 = x[1]
                    for v in F.adts[init[1].a[0]]["variants"]:
                        if v["name"] == st0:
                            fs = v["fields"]
                            if len(fs) == 1 and fs[0]["ty"]["s"] in RANGE:
                                rest = mk("F", t, (init[1].a[0], st0, fs[0]["name"]), 0)
        allt = set()
        for t in facts:
            walk_into(t, allt)
        walk_into(p.ret, allt)
        fin = final(E, p, src)
        walk_into(fin, allt)
        rests = [t for t in allt if t.k == "F" and isstate(t.a[0]) and t.a[1][1] == st0] or ([rest] if rest else [])
        idle = st0 == init[1].a[1]
        if st0 is None:
            ctx.bad("state", "%s: a path does not depend on the decode state" % where)
            continue
        if not idle and not rests:
            ctx.bad("state2", "%s: decode state %s carries no frame size" % (where, st0))
            continue
        b, off, end = Z.norm(fin)
        size = Lin({mk("X", "BE", (SRC,), Lin(), 4): 1})
        need = Z.conv(rests[0]) if not idle else None
        have = Lin({mk("X", "LEN", (SRC,), 0): 1})
        Z.close(box)
        L = [t for t in allt if t.k == "F" and fieldpath(t.a[1]) == limit and t.a[0] is mk("P", self_)]
        lim = Z.conv(L[0]) if L else None
        unlimited = lim is not None and any(strip(t) is strip(L[0]) and x == ("eq", 0) for t, x in facts.items()) or \
            lim is not None and box.implies_le0(lim)
        st1 = final(E, p, self_)
        ns = None
        if st1.k == "W":
            for pl, x in st1.a[1]:
                if pl[0][2] == sfield:
                    ns = x
        r = p.ret
        kind = "Err" if r.a[1] == "Err" else (r.a[2][0][1].a[1] if r.a[2][0][1].k == "A" else "?")
        if kind not in n:
            ctx.bad("result", "%s: result %s" % (where, show(r)))
            continue
        n[kind] += 1
        tag = "%s/%s" % (st0, kind)
        samebuf = b is SRC and end is None
        zero = off.const() == 0 and not off.m
        if kind == "None":
            if idle:
                short_ = box.implies_le0(have - Lin(c=7)) or box.implies_le0(have - size + Lin(c=1))
                ctx.ob(tag + ": waits only for missing bytes", short_,
                       "%s waits for more input although a whole frame may be present" % where, "stall:" + tag)
                if not box.implies_le0(have - Lin(c=7)):
                    ctx.ob(tag + ": limit applied before the frame's body is awaited",
                           unlimited or (lim is not None and box.implies_le0(size - lim)),
                           "%s waits for the body of a frame whose size was not compared with the limit" % where,
                           "limit-late")
                same = samebuf and zero and ns in (None, init[1])
                moved = samebuf and off.const() == 4 and ns is not None and ns.k == "A" and len(ns.a[2]) == 1 and \
                    eqlin(box, Z.conv(ns.a[2][0][1]), size - Lin(c=4))
                ctx.ob(tag + ": position and state agree", same or moved,
                       "%s: while waiting %s bytes have been taken from the input, but the state left is %s" % (
                           where, off, show(ns) if ns is not None else "unchanged"), "resume:" + tag)
            else:
                ctx.ob(tag + ": waits only for missing bytes", box.implies_le0(have - need + Lin(c=1)),
                       "%s waits for more input although the frame is complete" % where, "stall:" + tag)
                ctx.ob(tag + ": nothing consumed", samebuf and zero and ns is None,
                       "%s changes position or state while waiting for a frame's body" % where, "resume:" + tag)
        elif kind == "Some":
            total = size if idle else need
            ctx.ob(tag + ": exactly the frame is consumed", samebuf and eqlin(box, off, total),
                   "%s takes %s bytes for a frame of %s" % (where, off, total), "consume:" + tag)
            if idle:
                ctx.ob(tag + ": limit respected", unlimited or (lim is not None and box.implies_le0(size - lim)),
                       "%s accepts a frame whose size was not compared with the limit" % where, "limit:" + tag)
            ctx.ob(tag + ": ready for the next header", ns is not None and ns is init[1] or (idle and ns is None),
                   "%s leaves state %s after a complete frame" % (where, show(ns) if ns is not None else "unchanged"),
                   "reset:" + tag)
            item = r.a[2][0][1].a[2][0][1]
            ds = decodes(item)
            ok = False
            for d in ds:
                db, do, de = Z.norm(d)
                if db is SRC and de is not None and eqlin(box, do, Lin(c=4) if idle else Lin()) and eqlin(box, de, total):
                    ok = True
            ctx.ob(tag + ": decoded from the frame's own bytes", ok,
                   "%s decodes the frame from something else than its own bytes" % where, "bytes:" + tag)
            left = [t for t in allt if t.k == "X" and t.a[0].startswith("mut:") and last(t.a[0]) == "decode"]
            Z.close(box)
            ctx.ob(tag + ": nothing left inside the frame",
                   any(box.implies_le0(Lin({mk("X", "LEN", (t,), 0): 1})) for t in left),
                   "%s accepts a frame with bytes left over" % where, "left:" + tag)
        else:
            ok = False
            if idle and box.implies_le0(size - Lin(c=7)):
                ok = True
            if idle and lim is not None and not unlimited and box.implies_le0(lim - size + Lin(c=1)) and \
                    box.implies_le0(Lin(c=1) - lim):
                ok = True
            for t, x in facts.items():
                if x == ("is", "Err") and t.k == "X" and last(t.a[0]) == "decode":
                    for d in t.a[1]:
                        for dd in (d, d.a[1][0] if d.k == "X" and d.a[0].startswith("mut:") else d):
                            if frame_of(Z, box, SRC, dd, idle, size, need):
                                ok = True
                if t.k == "X" and last(t.a[0]) in ("len", "is_empty"):
                    pass
            for t in allt:
                if t.k == "X" and t.a[0].startswith("mut:") and last(t.a[0]) == "decode":
                    if box.implies_le0(Lin(c=1) - Lin({mk("X", "LEN", (t,), 0): 1})):
                        ok = True
            ctx.ob(tag + ": only bad frames are refused", ok,
                   "%s refuses a frame that is neither too short, above the limit, malformed nor overlong" % where,
                   "refuse:" + tag + ":" + (show(r)[:60]))
    ctx.floor("decoder paths waiting", n["None"], 3)
    ctx.floor("decoder paths with a frame", n["Some"], 2)
    ctx.floor("decoder paths refusing", n["Err"], 4)
    ctx.sample(f.path)


def frame_of(Z, box, SRC, t, idle, size, need):
    b, o, e = Z.norm(t)
    total = size if idle else need
    return b is SRC and e is not None and eqlin(box, o, Lin(c=4) if idle else Lin()) and eqlin(box, e, total)


def walk_into(t, out):
    for x in walk(t):
        out.add(x)


def eqlin(box, a, b):
    d = a - b
    return box.implies_le0(d) and box.implies_le0(d.scale(-1))


def decodes(item):
    out = []
    for t in walk(item):
        if t.k == "X" and last(t.a[0]) == "decode" and not t.a[0].startswith("mut:"):
            for a in t.a[1]:
                if a.k == "X" and a.a[0].startswith("mut:"):
                    a = a.a[1][0]
                out.append(a)
    return out


# ---- the frame header proper -------------------------------------------------------------------------------
TYPES = {"AmqpFrame": 0, "SaslFrame": 1}


def header(ctx):
    F = ctx.F
    nd = ne = 0
    for f in F.fns.values():
        if not (f.impl_trait and f.impl_trait == CODEC + "codec::Decode" and f.name == "decode" and f.impl_self and
                last(f.impl_self["h"]) in TYPES):
            continue
        nd += 1
        want = TYPES[last(f.impl_self["h"])]
        E = ctx.engine()
        E.keep_facts, E.codec_inline, E.max_part = True, False, 5000
        Z = Bufs(F, f, E)
        IN = mk("P", f.names[1])
        where = "%s:%d %s" % (f.file, f.line, f.path)
        ctors = 0
        for p in E.run(f):
            if p.out != "ret":
                continue
            box = Z.box(p.state.facts)
            if box.dead:
                continue
            doff = Lin({mk("X", "BE", (IN,), Lin(), 1): 1})
            typ = Lin({mk("X", "BE", (IN,), Lin(c=1), 1): 1})
            have = Lin({mk("X", "LEN", (IN,), 0): 1})
            dec = [t for t in set().union(*[set(walk(t)) for t in list(p.state.facts) + [p.ret]])
                   if t.k == "X" and last(t.a[0]) == "decode" and not t.a[0].startswith("mut:")]
            if p.ret.a[1] == "Ok":
                ctors += 1
                ctx.ob("%s: frame type checked" % f.impl_self["s"], eqlin(box, typ, Lin(c=want)),
                       "%s accepts a frame of another type than %d" % (where, want), "type:" + last(f.impl_self["h"]))
                body = decodes(p.ret)
                ok = False
                for d in body:
                    b, o, e = Z.norm(d)
                    Z.close(box)
                    if b is IN and e is None and eqlin(box, o, doff.scale(4) - Lin(c=4)):
                        ok = True
                ctx.ob("%s: body starts where the data offset says" % f.impl_self["s"], ok,
                       "%s does not decode the body at the frame's data offset" % where,
                       "body:" + last(f.impl_self["h"]))
                ctx.ob("%s: data offset covers the fixed header" % f.impl_self["s"],
                       box.implies_le0(Lin(c=2) - doff),
                       "%s accepts a data offset inside the fixed header" % where, "doff:" + last(f.impl_self["h"]))
                if last(f.impl_self["h"]) == "AmqpFrame":
                    ch = channel(p.ret)
                    l = Z.conv(ch) if ch is not None else None
                    ctx.ob("channel is bytes 6-7 of the frame",
                           l is not None and eqlin(box, l, Lin({mk("X", "BE", (IN,), Lin(c=2), 2): 1})),
                           "%s does not take the channel from the frame header" % where, "channel")
            else:
                ok = any(p.state.facts.get(t) == ("is", "Err") for t in dec)
                ok = ok or box.implies_le0(have - Lin(c=3)) or box.implies_le0(doff - Lin(c=1)) or \
                    box.implies_le0(have - doff.scale(4) + Lin(c=5)) or never(box, typ, want)
                ctx.ob("%s: only bad headers are refused" % f.impl_self["s"], ok,
                       "%s refuses a frame whose header is well formed: %s" % (where, show(p.ret)[:80]),
                       "hdr-refuse:" + last(f.impl_self["h"]) + show(p.ret)[:40])
        ctx.floor("accepting header paths of " + last(f.impl_self["h"]), ctors, 1)
        ctx.sample(f.path)
    ctx.floor("frame types decoded", nd, 2)
    Zs = r_size.Sizes(ctx)
    for f in F.fns.values():
        if not (f.impl_trait and f.impl_trait == CODEC + "codec::Encode" and f.name == "encode" and f.impl_self and
                last(f.impl_self["h"]) in TYPES):
            continue
        ne += 1
        want = TYPES[last(f.impl_self["h"])]
        where = "%s:%d %s" % (f.file, f.line, f.path)
        outs, unk = r_size.encode_items(ctx, Zs, f, 2)
        for n_, l in unk:
            ctx.bad("enc-effect:" + n_, "%s:%d unknown effect %s on the output" % (f.file, l, n_))
        for p, items in outs:
            puts = []
            for it in items:
                if it.kind != "put":
                    break
                puts.append(it)
            pos, byoff = 0, {}
            for it in puts:
                byoff[pos] = it
                pos += it.width
            t = byoff.get(5)
            ok = pos == 8 and t is not None and t.width == 1 and Zs.conv(t.val).const() == want
            if not ok and 4 in byoff and byoff[4].width == 2:
                ok = Zs.conv(byoff[4].val).const() == 0x200 + want
            if not ok and 4 in byoff and byoff[4].width == 4:
                ok = Zs.conv(byoff[4].val).const() == 0x02000000 + (want << 16)
            ctx.ob("%s: type byte written" % f.impl_self["s"], ok,
                   "%s does not write frame type %d in an 8-byte header" % (where, want),
                   "wtype:" + last(f.impl_self["h"]))
            c = byoff.get(6)
            if last(f.impl_self["h"]) == "AmqpFrame":
                v = Zs.strip(c.val) if c is not None and c.width == 2 and "_le" not in c.what else None
                ctx.ob("channel written", v is not None and v.k == "F" and v.a[1][2].startswith("channel") and
                       v.a[0].k == "P", "%s does not write the frame's channel" % where, "wchannel")
            ctx.ob("%s: the body follows" % f.impl_self["s"], len(items) == len(puts) + 1 and items[-1].kind == "enc",
                   "%s does not write exactly the body after the header" % where, "wbody:" + last(f.impl_self["h"]))
    ctx.floor("frame types encoded", ne, 2)


def channel(ret):
    v = ret.a[2][0][1]
    if v.k != "A":
        return None
    cands = [x for n, x in v.a[2] if n.startswith("channel")]
    return cands[0] if len(cands) == 1 else None


def never(box, l, n):
    """l != n on this path"""
    b = box.copy()
    b.eq0(l - Lin(c=n))
    return b.dead


# ---- protocol headers --------------------------------------------------------------------------------------
PROTO = {"Amqp": 0, "AmqpTls": 2, "AmqpSasl": 3}
EXPECT = [65, 77, 81, 80, None, 1, 0, 0]


def constbytes(ctx, t):
    """the bytes of a constant"""
    for _ in range(4):
        if t.k == "S":
            return list(t.a[0].encode() if isinstance(t.a[0], str) else t.a[0])
        if t.k == "A" and t.a[0] == "[]":
            vs = [v for _, v in sorted(t.a[2], key=lambda kv: int(kv[0]))]
            return [v.a[0] for v in vs] if all(v.k == "C" for v in vs) else None
        if t.k == "K":
            r = None
            for c in ctx.F.consts:
                if c.path == t.a[0]:
                    E = ctx.engine()
                    for p in E.run(c):
                        r = E.deepval(p.state, p.ret)
            if r is None:
                return None
            t = r
        elif t.k == "&" and t.a[0][0] == "H" and not t.a[1]:
            t = t.a[0][1]
        else:
            return None
    return None


def protoid(ctx):
    F = ctx.F
    dec = impls(ctx, "ntex_codec::Decoder", "::ProtocolIdCodec", "decode")
    enc = impls(ctx, "ntex_codec::Encoder", "::ProtocolIdCodec", "encode")
    ctx.floor("protocol header codecs", len(dec) + len(enc), 2)
    got = set()
    for f in dec:
        E = ctx.engine()
        E.keep_facts, E.max_part = True, 5000
        Z = Bufs(F, f, E)
        SRC = mk("P", f.names[2])
        where = "%s:%d %s" % (f.file, f.line, f.path)
        for p in E.run(f):
            if p.out != "ret":
                continue
            box = Z.box(p.state.facts)
            if box.dead:
                continue
            have = Lin({mk("X", "LEN", (SRC,), 0): 1})
            at = lambda i: Lin({mk("X", "BE", (SRC,), Lin(c=i), 1): 1})
            # slice comparisons as byte facts
            wrong = False
            for t, x in p.state.facts.items():
                if x[0] == "eq" and t.k == "X" and last(t.a[0]) == "starts_with" and len(t.a[1]) == 2:
                    pairs = [t.a[1]]
                elif x[0] == "eq" and t.k == "B" and t.a[0] == "Eq":
                    pairs = [(t.a[1], t.a[2]), (t.a[2], t.a[1])]
                else:
                    continue
                for u, v in pairs:
                    cb = constbytes(ctx, v)
                    if cb is None:
                        continue
                    b, o, e = Z.norm(u)
                    if b is not SRC or o.const() is None:
                        continue
                    s = o.const()
                    if x[1]:
                        for i, c in enumerate(cb):
                            box.eq0(at(s + i) - Lin(c=c))
                    elif len(cb) and s + len(cb) <= 8 and \
                            all(c == EXPECT[s + i] for i, c in enumerate(cb)):
                        wrong = True
            if box.dead:
                continue
            fin = final(E, p, f.names[2])
            b, off, end = Z.norm(fin)
            r = p.ret
            kind = "Err" if r.a[1] == "Err" else r.a[2][0][1].a[1]
            if kind == "None":
                ctx.ob("protocol header: waits only for missing bytes", box.implies_le0(have - Lin(c=7)),
                       "%s waits although a whole header is present" % where, "ph-stall")
                ctx.ob("protocol header: nothing consumed while waiting", b is SRC and off == Lin() and end is None,
                       "%s consumes input while waiting" % where, "ph-consume")
            elif kind == "Some":
                v = r.a[2][0][1].a[2][0][1]
                name = v.a[1] if v.k == "A" else "?"
                ok = all(eqlin(box, at(i), Lin(c=c)) for i, c in enumerate(EXPECT) if c is not None)
                ctx.ob("protocol header: prefix and version checked", ok,
                       "%s accepts a header whose prefix or version was not checked" % where, "ph-check")
                ctx.ob("protocol header: id %s" % name,
                       name in PROTO and eqlin(box, at(4), Lin(c=PROTO[name])),
                       "%s answers %s for another protocol id" % (where, name), "ph-id:" + name)
                ctx.ob("protocol header: eight bytes consumed", b is SRC and off.const() == 8 and end is None,
                       "%s consumes %s bytes" % (where, off), "ph-len")
                got.add(name)
            else:
                ok = wrong or any(never(box, at(i), c) for i, c in enumerate(EXPECT) if c is not None) or \
                    all(never(box, at(4), c) for c in PROTO.values())
                ctx.ob("protocol header: only bad headers are refused", ok,
                       "%s refuses a header that is well formed: %s" % (where, show(r)[:80]), "ph-refuse")
        ctx.sample(f.path)
    ctx.floor("protocol ids accepted", len(got & set(PROTO)), 3)
    discr = {}
    for h, a in F.adts.items():
        if h.startswith(CODEC) and last(h) == "ProtocolId":
            discr = {v["name"]: v["discr"] for v in a["variants"]}
    for f in enc:
        where = "%s:%d %s" % (f.file, f.line, f.path)
        Zs = r_size.Sizes(ctx)
        outs, unk = r_size.encode_items(ctx, Zs, f, 3)
        for n_, l in unk:
            ctx.bad("ph-effect:" + n_, "%s:%d unknown effect %s on the output" % (f.file, l, n_))
        np = 0
        for p, items in outs:
            np += 1
            bs = []
            for it in items:
                if it.kind == "put" and it.width == 1:
                    c = Zs.conv(it.val).const()
                    bs.append(c if c is not None else it.val)
                elif it.kind == "slice":
                    cb = constbytes(ctx, it.val)
                    bs += cb if cb is not None else [None] * 99
                else:
                    bs += [None] * 99
            ok = len(bs) == 8 and all(b == c for b, c in zip(bs, EXPECT) if c is not None)
            ctx.ob("protocol header written", ok, "%s writes the header %s" % (where, bs[:10]), "ph-write")
            if ok:
                v, item = bs[4], mk("P", f.names[2])
                var = p.state.facts.get(item, (None, None))
                if isinstance(v, int):
                    good = var[0] == "is" and PROTO.get(var[1]) == v
                else:
                    good = any(t is item for t in walk(v)) and discr == PROTO and v.k in ("cast", "D", "F", "X")
                ctx.ob("protocol id written", good, "%s writes protocol id %s for %s" % (where, v, var), "ph-wid")
        ctx.floor("protocol header encoder paths", np, 1)
