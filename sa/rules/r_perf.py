"""C07: composite types are written and read as AMQP 1.0 specifies them.

The tables of the specification are embedded (sa/amqp10.py).  For every composite type the paths of its decoder give the
sequence of element decodes under the path's knowledge of the element count, and each struct field must be the element at
its position (or its default / an error when absent); the paths of its encoder give the sequence of written elements."""
import re
from absint import *
from lin import *
from bufs import *
import r_size, r_decode
from amqp10 import COMPOSITE, SECTION, CHOICE, SUMS

DEF = "ntex_amqp_codec::protocol::definitions::"
PROTO = "ntex_amqp_codec::protocol::"
RES, OPT_ = "core::result::Result", "core::option::Option"
CODE = {n: c[0] for n, c in list(COMPOSITE.items()) + list(SECTION.items())}
SYM = {n: c[1] for n, c in list(COMPOSITE.items()) + list(SECTION.items())}


def type_fn(F, ty, trait, name):
    l = [f for f in F.fns.values() if f.name == name and (f.impl_trait or "").endswith("codec::" + trait) and f.impl_self and
         f.impl_self["h"] in (DEF + ty, PROTO + ty)]
    return l[0] if len(l) == 1 else None


def engine(ctx, hook=None):
    E = ctx.engine(hook or (lambda E, st, e: None))
    E.keep_facts, E.max_part, E.max_paths = True, 20000, 60000
    return E


def c07(ctx):
    F = ctx.F
    todo = []
    for ty in COMPOSITE:
        todo += [("dec", ty), ("enc", ty), ("acc", ty)]
    for ty in SUMS:
        todo += [("sumdec", ty), ("sumenc", ty)]
    for ty in CHOICE:
        todo += [("chdec", ty), ("chenc", ty)]
    todo += [("body", ""), ("msgenc", ""), ("msgdec", "")]
    ctx.parallel(one, todo)
    ctx.floor("composite decoders", ctx.counts.get("composite decoders", 0), 24)
    ctx.floor("composite encoders", ctx.counts.get("composite encoders", 0), 24)
    ctx.floor("sum arms decoded", ctx.counts.get("sum arms decoded", 0), 32)
    ctx.floor("sum arms encoded", ctx.counts.get("sum arms encoded", 0), 32)
    ctx.floor("choices decoded", ctx.counts.get("choices decoded", 0), 40)
    ctx.floor("choices encoded", ctx.counts.get("choices encoded", 0), 40)
    ctx.floor("obligations", len(ctx.obs), 600)


def one(ctx, it):
    {"dec": comp_dec, "enc": comp_enc, "acc": accessors, "sumdec": sum_dec, "sumenc": sum_enc, "chdec": ch_dec,
     "chenc": ch_enc, "body": msg_body, "msgenc": msg_enc, "msgdec": msg_dec}[it[0]](ctx, it[1])


def need(ctx, ty, trait, name):
    f = type_fn(ctx.F, ty, trait, name)
    if f is None:
        ctx.bad("anchor:%s:%s" % (ty, name), "no %s::%s implementation found for %s" % (trait, name, ty))
    return f


# ---- decoding --------------------------------------------------------------------------------------------------------
def dec_hook(E, st, e):
    if e.kind != "call" or last(e.name) not in ("decode", "decode_with_format"):
        return None
    e.x = E.deepval(st, e.args[0])
    return e


def target(e):
    c = e.c or {}
    t = c.get("targs") or []
    return (t[0]["s"] if t else "") + "|" + e.name


def okof(e_uid, terms):
    return [t for t in terms if t.k == "X" and t.a[2] == e_uid]


def descriptor_facts(p):
    """('code', n) / ('sym', text) the path established about a described value"""
    out = set()
    for t, v in p.state.facts.items():
        if t.k == "F" and t.a[1][1] == "Ulong" and v[0] == "eq":
            out.add(("code", v[1]))
        if t.k == "B" and t.a[0] == "Eq" and v == ("eq", 1):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.k == "S" and any(z.k == "F" and z.a[1][1] == "Symbol" for z in walk(x)):
                    s = y.a[0]
                    out.add(("sym", s if isinstance(s, str) else bytes(s).decode("latin1")))
    return out


def inner(t):
    """the struct inside newtypes and boxes"""
    while t.k == "A" and len(t.a[2]) == 1 and t.a[2][0][0] == "0" and t.a[2][0][1].k == "A":
        t = t.a[2][0][1]
    return t


def strip_some(t):
    while t.k == "A" and t.a[0] == OPT_ and t.a[1] == "Some":
        t = t.a[2][0][1]
    return t


def same_default(v, d):
    if v.k == "C":
        return v.a[0] == {"true": 1, "false": 0}.get(d, int(d) if d.isdigit() else None)
    if v.k == "A" and not v.a[2]:
        return v.a[1] == "".join(x[:1].upper() + x[1:] for x in d.split("-"))
    return False


def comp_dec(ctx, ty):
    F = ctx.F
    f = need(ctx, ty, "DecodeFormatted", "decode_with_format")
    if f is None:
        return
    code, sym, fields = COMPOSITE[ty]
    where = "%s:%d" % (f.file, f.line)
    E = engine(ctx, dec_hook)
    Z = Bufs(F, f, E)
    root = mk("P", f.names.get(1))
    reached = set()
    man = max([i + 1 for i, x in enumerate(fields) if x[1] == "mandatory"], default=0)
    descs = set()
    n_ok = 0
    for p in E.run(f):
        if p.out != "ret" or p.ret.k != "A" or p.ret.a[1] != "Ok":
            if p.out == "cut":
                ctx.bad("cut:" + ty, "%s: a path through the decoder of %s could not be followed" % (where, ty))
            continue
        n_ok += 1
        descs |= descriptor_facts(p)
        fd = p.state.facts
        fmt = fd.get(mk("P", f.names.get(2)))
        ctx.ob("%s needs a descriptor" % ty, bool(descriptor_facts(p)) and fmt == ("eq", 0),
               "%s: a path decodes %s without matching its descriptor" % (where, ty), "descr:" + ty)
        evs = list(p.events)
        el, cnt = [], None
        for e in evs:
            tg = target(e)
            if "ListHeader" in tg:
                xs = [t for t in walk_path(p) if t.k == "X" and t.a[2] == e.uid and not t.a[0].startswith("mut:")]
                if xs:
                    cnt = mk("F", mk("F", xs[0], (RES, "Ok", "0"), 0), (None, "", "count"), 0)
                hdr = e.uid
            elif "Descriptor" in tg:
                continue
            else:
                el.append(e)
        # the element count the path knows
        cts = [t for t in walk_path(p) if t.k == "F" and t.a[1][2] == "count" and t.a[0].k == "F" and t.a[0].a[0].k == "X"]
        cts = list(dict.fromkeys(cts))
        val = inner(p.ret.a[2][0][1])
        ok = val.k == "A" and {n for n, _ in val.a[2]} >= {n for n, _ in fields}
        if not ok:
            ctx.bad("shape:" + ty, "%s: the decoder of %s does not build a value with the fields of the specification: %s" % (
                where, ty, show(val)[:120]))
            continue
        if ty == "Transfer":
            # the payload follows the list
            el = [e for e in el if Z.norm(e.x)[0] is not root or True]
        b = Z.box(fd)
        n = len(el)
        reached.add(n)
        if fields or n:
            if len(cts) != 1:
                ctx.bad("count:" + ty, "%s: the number of elements the decoder of %s reads does not follow from the list header" % (where, ty))
                continue
            c = Z.conv(cts[0])
            Z.close(b)
            # unsigned
            b.le0(c.scale(-1))
            upto = b.implies_le0(Lin(c=n) - c)
            exact = n >= len(fields) or b.implies_le0(c - Lin(c=n))
            ctx.ob("%s: %d elements read exactly when the list has them" % (ty, n), upto and exact,
                   "%s: the decoder of %s reads %d element(s) on a path where the list may have %s" % (
                       where, ty, n, "fewer" if not upto else "more"), "count:%s:%d" % (ty, n))
        if not ctx.ob("%s reads at most its fields" % ty, n <= len(fields),
                      "%s: the decoder of %s reads %d elements, the specification has %d fields" % (where, ty, n, len(fields)),
                      "fields:%s" % ty):
            continue
        got = dict(val.a[2])
        pay = []
        for e in el:
            pay.append(e.uid)
        for i, (name, d) in enumerate(fields):
            v = got[name]
            key = "field:%s.%s" % (ty, name)
            if i >= n:
                if d == "mandatory":
                    ctx.ob("%s.%s required" % (ty, name), False,
                           "%s: %s decodes without its mandatory field %s" % (where, ty, name), "mandatory:%s.%s" % (ty, name))
                elif d is None:
                    ctx.ob("%s.%s absent" % (ty, name), v.k == "A" and v.a[0] == OPT_ and v.a[1] == "None",
                           "%s: field %s of %s is %s when the list ends before it" % (where, name, ty, show(v)[:80]), key)
                else:
                    ctx.ob("%s.%s default" % (ty, name), same_default(v, d),
                           "%s: field %s of %s defaults to %s, the specification says %s" % (where, name, ty, show(v)[:60], d),
                           "default:%s.%s" % (ty, name))
                continue
            r = payload_of(p, v, pay)
            if r is None and v.k == "C":
                # a constant equal to what the path knows of the element
                for t, fx in fd.items():
                    if fx == ("eq", v.a[0]) and t.k == "F" and payload_of(p, t, pay) == i:
                        r = i
            if r is not None:
                ctx.ob("%s.%s is element %d" % (ty, name, i + 1), r == i,
                       "%s: field %s of %s is read from element %d of the list, the specification has it at %d" % (
                           where, name, ty, r + 1, i + 1), key)
                if d == "mandatory":
                    ctx.ob("%s.%s cannot be null" % (ty, name), not target(el[i]).startswith("core::option::Option<"),
                           "%s: mandatory field %s of %s may be null" % (where, name, ty), "mandatory:%s.%s" % (ty, name))
            elif d not in (None, "mandatory"):
                # null element: the default
                isnone = null_elem(p, pay[i])
                ctx.ob("%s.%s null" % (ty, name), isnone and same_default(v, d),
                       "%s: field %s of %s is %s although element %d is %s" % (
                           where, name, ty, show(v)[:60], i + 1, "null" if isnone else "present"), key)
            elif d is None and v.k == "A" and v.a[0] == OPT_ and v.a[1] == "None":
                ctx.ob("%s.%s null" % (ty, name), null_elem(p, pay[i]),
                       "%s: field %s of %s is dropped" % (where, name, ty), key)
            else:
                ctx.bad(key, "%s: field %s of %s does not come from element %d of the list: %s" % (
                    where, name, ty, i + 1, show(v)[:120]))
    for n in range(man, len(fields) + 1):
        ctx.ob("%s with %d elements" % (ty, n), n in reached,
               "%s: a %s list of %d elements is not decoded, although %s" % (
                   where, ty, n, "the rest is optional" if n < len(fields) else "all fields are there"), "accept:%s:%d" % (ty, n))
    ctx.ob("%s descriptors" % ty, descs <= {("code", code), ("sym", sym)} and ("code", code) in descs,
           "%s: the decoder of %s accepts the descriptors %s, the specification has %#x / %s" % (
               where, ty, sorted(descs, key=str), code, sym), "descr:%s" % ty)
    ctx.count("composite decoders")
    ctx.count("decoder paths", n_ok)
    if ty == "Attach":
        ctx.sample("Attach: %d accepting decoder paths, each field traced to its element or default" % n_ok)


def walk_path(p):
    for t in p.state.facts:
        yield from walk(t)
    if p.ret is not None:
        yield from walk(p.ret)


def payload_of(p, v, uids):
    """index of the element decode a field value is the payload of"""
    v = strip_some(v)
    while v.k == "F" and v.a[1][1] in ("Some", "Ok") and v.a[1][2] == "0":
        v = v.a[0]
    if v.k == "X" and not v.a[0].startswith("mut:") and v.a[2] in uids:
        return uids.index(v.a[2])
    return None


def null_elem(p, uid):
    for t, f in p.state.facts.items():
        if f == ("is", "None") and t.k == "F" and t.a[1][1] == "Ok" and t.a[0].k == "X" and t.a[0].a[2] == uid:
            return True
    return False


# ---- encoding --------------------------------------------------------------------------------------------------------
def desc_prefix(items):
    """(descriptor code or symbol, number of items it takes)"""
    if not items:
        return None, 0
    it = items[0]
    if it.kind == "enc" and it.recv is not None and it.recv.k == "A" and it.recv.a[0].endswith("::Descriptor"):
        v = it.recv.a[2][0][1]
        if it.recv.a[1] == "Ulong" and v.k == "C":
            return v.a[0], 1
        s = [x for x in walk(v) if x.k == "S"]
        return (s[0].a[0] if s else None), 1
    raw = []
    for it in items[:3]:
        if it.kind == "put" and it.width == 1 and it.val is not None and it.val.k == "C":
            raw.append(it.val.a[0])
    if raw[:2] == [0, 0x53] and len(raw) == 3:
        return raw[2], 3
    return None, 0


def field_name(t):
    """last named field of a place term"""
    while t.k in ("&",) and t.a[0][0] == "H":
        t = t.a[0][1]
    while t.k == "F" and t.a[1][1] in ("Some", "Ok") and t.a[1][2] == "0":
        t = t.a[0]
    while t.k == "X" and len(t.a[1]) >= 1 and isinstance(t.a[1][0], Term) and last(t.a[0]) in (
            "clone", "as_ref", "deref", "into", "from", "borrow", "as_str", "as_slice"):
        t = t.a[1][0]
    return t.a[1][2] if t.k == "F" else None


def comp_enc(ctx, ty):
    f = need(ctx, ty, "Encode", "encode")
    if f is None:
        return
    Z = r_size.Sizes(ctx)
    out, unknown = r_size.encode_items(ctx, Z, f, 2)
    check_list(ctx, Z, f, ty, [items for _, items in out], unknown)
    ctx.count("composite encoders")


def check_list(ctx, Z, f, ty, paths, unknown):
    code, sym, fields = COMPOSITE[ty]
    where = "%s:%d" % (f.file, f.line)
    ctx.ob("%s encoder followed" % ty, paths and not unknown,
           "%s: the encoder of %s writes through calls the rule cannot follow: %s" % (where, ty, unknown[:2]), "enc:" + ty)
    for items in paths:
        got, k = desc_prefix(items)
        if not ctx.ob("%s written with its descriptor" % ty, got in (code, sym),
                      "%s: %s is written with descriptor %s, the specification has %#x" % (where, ty, got, code), "edescr:" + ty):
            continue
        rest = items[k:]
        names = []
        if rest and rest[0].kind == "put" and rest[0].val is not None and rest[0].val.k == "C":
            ctor = rest[0].val.a[0]
        else:
            ctor = None
        w = {0x45: 0, 0xc0: 1, 0xd0: 4}.get(ctor)
        if not ctx.ob("%s written as a list" % ty, w is not None,
                      "%s: %s is not written as a list" % (where, ty), "elist:" + ty):
            continue
        if w:
            if not ctx.ob("%s list header" % ty, len(rest) >= 3 and rest[1].width == w and rest[2].width == w,
                          "%s: the list header of %s does not have a %d-byte size and count" % (where, ty, w), "ehead:" + ty):
                continue
            cnt = Z.conv(rest[2].val).const() if rest[2].val is not None else None
            els = rest[3:]
        else:
            cnt, els = 0, rest[1:]
        body = []
        if ty == "Transfer":
            while els and (field_path(els[-1]) & {"body"}):
                body.insert(0, els[-1])
                els = els[:-1]
        names = [field_name(it.recv) if it.recv is not None else elem_const(it) for it in els]
        want = [n for n, _ in fields]
        ctx.ob("%s field order" % ty, names == want[:len(names)] and len(names) >= len(want),
               "%s: %s is written with the fields %s, the specification has %s" % (
                   where, ty, ", ".join(map(str, names)), ", ".join(want)), "order:" + ty)
        ctx.ob("%s count" % ty, cnt == len(els),
               "%s: the list of %s announces %s elements and %d are written" % (where, ty, cnt, len(els)), "ecount:" + ty)


def field_path(it):
    out = set()
    for x in (it.recv, it.val):
        if isinstance(x, Term):
            for t in walk(x):
                if t.k == "F":
                    out.add(t.a[1][2])
    return out


def elem_const(it):
    return "raw byte" if it.kind == "put" else None


# ---- sums ------------------------------------------------------------------------------------------------------------
def sum_dec(ctx, ty):
    F = ctx.F
    f = type_fn(F, ty, "DecodeFormatted", "decode_with_format") or type_fn(F, ty, "Decode", "decode")
    if f is None:
        return ctx.bad("anchor:%s:decode" % ty, "no decoder found for %s" % ty)
    where = "%s:%d" % (f.file, f.line)
    E = engine(ctx)
    seen = {}
    for p in E.run(f):
        if p.out != "ret" or p.ret.k == "A" and p.ret.a[1] != "Ok":
            continue
        if p.ret.k == "A":
            v = p.ret.a[2][0][1]
        else:
            v = None
        if v is None or v.k != "A" or not v.a[0].endswith("::" + ty):
            ctx.bad("arm:%s" % ty, "%s: the decoder of %s returns a value the rule cannot follow: %s" % (where, ty, show(p.ret)[:100]))
            continue
        arm = v.a[1]
        ds = descriptor_facts(p)
        if arm == "Empty":
            ctx.ob("%s::Empty has no descriptor" % ty, not ds, "%s: an empty frame is decoded from a described value" % where,
                   "arm:%s:Empty" % ty)
            continue
        ctx.ob("%s::%s descriptor" % (ty, arm), len(ds) == 1 and ds <= {("code", CODE.get(arm)), ("sym", SYM.get(arm))},
               "%s: the decoder of %s returns %s for the descriptor %s, the specification has %s / %s" % (
                   where, ty, arm, sorted(ds, key=str), CODE.get(arm), SYM.get(arm)), "arm:%s:%s" % (ty, arm))
        if arm in COMPOSITE and v.a[2]:
            x = v.a[2][0][1]
            if x.k == "A":
                ctx.ob("%s::%s payload" % (ty, arm), x.a[0].endswith("::" + arm),
                       "%s: %s::%s is built from a %s" % (where, ty, arm, x.a[0]), "armtype:%s:%s" % (ty, arm))
        for d in ds:
            seen.setdefault(arm, set()).add(d)
    for arm in SUMS[ty]:
        ctx.ob("%s::%s accepted" % (ty, arm), ("code", CODE[arm]) in seen.get(arm, ()),
               "%s: the decoder of %s does not accept the descriptor %#x of %s" % (where, ty, CODE[arm], arm),
               "accept:%s:%s" % (ty, arm))
        ctx.count("sum arms decoded", 1 if arm in seen else 0)


def sum_enc(ctx, ty):
    f = need(ctx, ty, "Encode", "encode")
    if f is None:
        return
    where = "%s:%d" % (f.file, f.line)
    Z = r_size.Sizes(ctx)
    out, unknown = r_size.encode_items(ctx, Z, f, 2)
    arms = {}
    for p, items in out:
        arm = self_arm(f, p)
        if arm:
            arms.setdefault(arm, []).append(items)
    for arm in SUMS[ty]:
        ps = arms.get(arm)
        if not ctx.ob("%s::%s written" % (ty, arm), ps and all(ps),
                      "%s: %s::%s writes nothing" % (where, ty, arm), "earm:%s:%s" % (ty, arm)):
            continue
        ctx.count("sum arms encoded")
        for items in ps:
            it = items[0]
            got, k = desc_prefix(items)
            if got is None and len(items) == 1 and it.kind == "enc" and it.what and ("::" + arm + " ") in it.what.replace(">", " "):
                continue        # the composite's own encoder
            if not ctx.ob("%s::%s descriptor" % (ty, arm), got in (CODE[arm], SYM[arm]),
                          "%s: %s::%s is written with descriptor %s, the specification has %#x" % (where, ty, arm, got, CODE[arm]),
                          "earm:%s:%s" % (ty, arm)):
                continue
            if arm in SECTION:
                ctx.ob("%s::%s value" % (ty, arm), len(items) == k + 1 and items[k].kind == "enc",
                       "%s: %s::%s is not followed by exactly its value" % (where, ty, arm), "earm:%s:%s" % (ty, arm))
        if arm in COMPOSITE and all(desc_prefix(i)[0] is not None for i in ps):
            check_list(ctx, Z, f, arm, ps, [])


def self_arm(f, p):
    me = f.names.get(1)
    for t, v in p.state.facts.items():
        if v[0] == "is" and t.k == "P" and t.a[0] == me:
            return v[1]
    return None


# ---- restricted types ------------------------------------------------------------------------------------------------
def ch_dec(ctx, ty):
    f = need(ctx, ty, "DecodeFormatted", "decode_with_format")
    if f is None:
        return
    want = CHOICE[ty]
    where = "%s:%d" % (f.file, f.line)
    E = engine(ctx)
    seen = {}
    for p in E.run(f):
        if p.out != "ret" or p.ret.k == "A" and p.ret.a[1] == "Err":
            continue
        v = p.ret.a[2][0][1] if p.ret.k == "A" and p.ret.a[2] else None
        if v is None or v.k != "A" or v.a[1] not in want:
            ctx.bad("choice:%s" % ty, "%s: the decoder of %s returns %s" % (where, ty, show(p.ret)[:80]))
            continue
        vals = set()
        for t, fx in p.state.facts.items():
            if fx[0] == "eq" and t.k == "F" and t.a[1][1] == "Ok" and isinstance(fx[1], int):
                vals.add(fx[1])
            if fx == ("eq", 1) and t.k == "B" and t.a[0] == "Eq":
                for y in (t.a[1], t.a[2]):
                    if y.k == "S":
                        vals.add(y.a[0] if isinstance(y.a[0], str) else bytes(y.a[0]).decode("latin1"))
                    elif y.k == "C" and y.a[0] not in (0,):
                        vals.add(y.a[0])
        w = want[v.a[1]]
        w = int(w) if isinstance(w, (bool, int)) else w
        ctx.ob("%s::%s decoded" % (ty, v.a[1]), vals == {w},
               "%s: %s::%s is decoded from %s, the specification has %s" % (where, ty, v.a[1], sorted(vals, key=str), w),
               "choice:%s:%s" % (ty, v.a[1]))
        seen[v.a[1]] = 1
    for n in want:
        ctx.ob("%s::%s accepted" % (ty, n), n in seen, "%s: %s is never decoded as %s" % (where, want[n], n),
               "choice:%s:%s" % (ty, n))
    ctx.count("choices decoded", len(seen))


def ch_enc(ctx, ty):
    f = need(ctx, ty, "Encode", "encode")
    if f is None:
        return
    want = CHOICE[ty]
    where = "%s:%d" % (f.file, f.line)
    Z = r_size.Sizes(ctx)
    out, unknown = r_size.encode_items(ctx, Z, f, 2)
    seen = {}
    adt = ctx.F.adts.get(f.impl_self["h"])
    discr = {v["name"]: v["discr"] for v in adt["variants"]} if adt else {}
    work = []
    for p, items in out:
        arm = self_arm(f, p)
        fx = p.state.facts.get(mk("P", f.names.get(1)))
        arms = [arm] if arm else [n for n in want if not (fx and fx[0] == "not" and n in fx[1])]
        for arm in arms:
            work.append((arm, items))
    for arm, items in work:
        got = None
        if len(items) == 1 and items[0].kind == "enc" and items[0].recv is not None:
            r = items[0].recv
            v = value_at(r, arm, discr)
            if v is not None:
                got = v
            else:
                s = [x.a[0] for x in walk(r) if x.k == "S"]
                got = s[0] if len(s) == 1 else None
        w = want.get(arm)
        w = int(w) if isinstance(w, (bool, int)) else w
        ctx.ob("%s::%s written" % (ty, arm), got == w,
               "%s: %s::%s is written as %s, the specification has %s" % (where, ty, arm, got, w), "echoice:%s:%s" % (ty, arm))
        seen[arm] = 1
    for n in want:
        ctx.ob("%s::%s encodable" % (ty, n), n in seen, "%s: %s::%s has no encoding" % (where, ty, n), "echoice:%s:%s" % (ty, n))
    ctx.count("choices encoded", len(seen))


def value_at(t, arm, discr):
    """value of a term when self is the given variant"""
    if t.k == "C":
        return t.a[0]
    if t.k == "is":
        return int(t.a[1] == arm)
    if t.k == "N":
        v = value_at(t.a[0], arm, discr)
        return None if v is None else 1 - v
    if t.k == "cast":
        return value_at(t.a[1], arm, discr)
    if t.k == "D":
        return discr.get(arm)
    if t.k == "B" and t.a[0] in ("Eq", "Lt"):
        a, b = value_at(t.a[1], arm, discr), value_at(t.a[2], arm, discr)
        return None if a is None or b is None else int(a == b if t.a[0] == "Eq" else a < b)
    if t.k == "P":
        return discr.get(arm)
    return None


# ---- accessors -------------------------------------------------------------------------------------------------------
def accessors(ctx, ty):
    """generated accessors and builder setters address the field they are named after"""
    F = ctx.F
    adt = F.adts.get(DEF + ty + "Inner")
    if adt is None:
        return
    names = {x["name"] for v in adt["variants"] for x in v["fields"]}
    for f in sorted(F.fns.values(), key=lambda f: f.path):
        if f.kind != "AssocFn" or f.impl_trait or not f.impl_self or f.impl_self["h"] not in (DEF + ty, DEF + ty + "Builder"):
            continue
        base = f.name[:-4] if f.name.endswith("_mut") else f.name[4:] if f.name.startswith(("set_", "get_")) else f.name
        if base not in names:
            continue
        where = "%s:%d" % (f.file, f.line)
        E = ctx.engine(lambda E, st, e: e if e.kind == "write" else None)
        for p in E.run(f):
            if p.out != "ret":
                continue
            if f.argc == 1:
                # a getter: the value or a reference to it
                v = p.ret
                got = set()
                for t in walk(v):
                    if t.k == "F" and t.a[1][0] and t.a[1][0].endswith(ty + "Inner"):
                        got.add(t.a[1][2])
                    if t.k == "&":
                        got |= {x[2] for x in t.a[1] if x[0] and str(x[0]).endswith(ty + "Inner")}
                if v.k == "A" and not v.a[2] and not got:
                    # a constant chosen by the field's variant
                    got = {t.a[1][2] for t in p.state.facts if t.k == "F" and t.a[1][0] and t.a[1][0].endswith(ty + "Inner")}
                ctx.ob("%s::%s" % (ty, f.name), not got or got == {base},
                       "%s: %s::%s gives access to %s" % (where, ty, f.name, ", ".join(sorted(got))), "accessor:%s:%s" % (ty, f.name))
                ctx.count("getters", 1 if got else 0)
            elif f.argc == 2:
                # a setter: exactly that field changes, to the argument
                ch, vals = set(), set()
                arg = mk("P", f.names.get(2))
                for e in p.events:
                    nm = [x[2] for x in e.args[0].a[1] if len(x) == 3 and x[0] and str(x[0]).endswith(ty + "Inner")]
                    rt = e.args[0].a[0]
                    if not nm and rt[0] == "H":
                        nm = [x.a[1][2] for x in walk(rt[1]) if x.k == "F" and x.a[1][0] and str(x.a[1][0]).endswith(ty + "Inner")][-1:]
                    ch |= set(nm[:1])
                    vals.add(strip_some(e.args[1]))
                ctx.ob("%s::%s" % (ty, f.name), ch in (set(), {base}) and (not ch or vals == {arg}),
                       "%s: %s::%s sets %s" % (where, ty, f.name, ", ".join(sorted(ch)) if ch != {base} else "another value"),
                       "setter:%s:%s" % (ty, f.name))
                ctx.count("setters", 1 if ch else 0)


# ---- messages --------------------------------------------------------------------------------------------------------
ORDER = [("header", None, 0x70), ("delivery_annotations", 0x71, 0x71), ("message_annotations", 0x72, 0x72),
         ("properties", None, 0x73), ("application_properties", 0x74, 0x74), ("body", None, None), ("footer", 0x78, 0x78)]
BODY = {"data": 0x75, "sequence": 0x76, "value": 0x77, "messages": 0x75}
MSG = "ntex_amqp_codec::message::"


def msg_fn(F, h, trait, name):
    l = [f for f in F.fns.values() if f.name == name and (f.impl_trait or "").endswith("codec::" + trait) and f.impl_self and
         f.impl_self["h"] == MSG + h]
    return l[0] if len(l) == 1 else None


def msg_enc(ctx, _):
    f = msg_fn(ctx.F, "message::Message", "Encode", "encode")
    if f is None:
        return ctx.bad("anchor:Message::encode", "no encoder found for Message")
    where = "%s:%d" % (f.file, f.line)
    Z = r_size.Sizes(ctx)
    out, unknown = r_size.encode_items(ctx, Z, f, 2)
    ctx.ob("message encoder followed", out and not unknown, "%s: unknown writes %s" % (where, unknown[:2]), "msg:unknown")
    names = [o[0] for o in ORDER]
    desc = {o[0]: o[1] for o in ORDER}
    for p, items in out:
        seq = []
        i = 0
        while i < len(items):
            code, k = desc_prefix(items[i:])
            it = items[i + k] if i + k < len(items) else None
            fl = field_of_inner(it.recv) if it is not None and it.recv is not None else None
            seq.append(fl)
            if fl in desc:
                ctx.ob("section %s descriptor" % fl, code == desc[fl],
                       "%s: section %s of a message is written behind descriptor %s, the specification has %s" % (
                           where, fl, code, desc[fl]), "msg:descr:" + str(fl))
            i += k + 1
        idx = [names.index(s) if s in names else -1 for s in seq]
        ctx.ob("message sections in order", -1 not in idx and idx == sorted(set(idx)) and "body" in seq,
               "%s: a message is written as %s" % (where, ", ".join(map(str, seq))), "msg:order")
        for t, v in p.state.facts.items():
            n = t.a[1][2] if t.k == "F" else None
            if n in names and v[0] == "is":
                ctx.ob("section %s written iff present" % n, (n in seq) == (v[1] == "Some"),
                       "%s: section %s of a message is %s" % (where, n, "left out" if n not in seq else "written although absent"),
                       "msg:present:" + n)
        ctx.count("message encoder paths")
    ctx.floor("message encoder paths ", ctx.counts.get("message encoder paths", 0), 30)


def field_of_inner(t):
    for x in walk(t):
        if x.k == "F" and x.a[1][0] and str(x.a[1][0]).endswith("MessageInner"):
            return x.a[1][2]
    return None


def msg_body(ctx, _):
    f = msg_fn(ctx.F, "body::MessageBody", "Encode", "encode")
    if f is None:
        return ctx.bad("anchor:MessageBody::encode", "no encoder found for MessageBody")
    where = "%s:%d" % (f.file, f.line)
    Z = r_size.Sizes(ctx)
    out, unknown = r_size.encode_items(ctx, Z, f, 2)
    ctx.ob("body encoder followed", out and not unknown, "%s: unknown writes %s" % (where, unknown[:2]), "body:unknown")
    seen = set()
    for p, items in out:
        i = 0
        while i < len(items):
            code, k = desc_prefix(items[i:])
            if not ctx.ob("body section described", k > 0, "%s: a body section is written without a descriptor" % where, "body:descr"):
                break
            i += k
            fl = None
            while i < len(items):
                it = items[i]
                fls = {x.a[1][2] for x in walk(it.recv) if x.k == "F"} & set(BODY) if it.recv is not None else set()
                i += 1
                if it.kind == "enc":
                    fl = sorted(fls)[0] if len(fls) == 1 else None
                    break
            ctx.ob("body section %s" % fl, fl in BODY and BODY[fl] == code,
                   "%s: body field %s is written behind descriptor %s, the specification has %s" % (where, fl, code, BODY.get(fl)),
                   "body:descr:%s" % fl)
            seen.add(fl)
    for n in BODY:
        ctx.ob("body %s written" % n, n in seen, "%s: body field %s is never written" % (where, n), "body:%s" % n)


def msg_dec(ctx, _):
    F = ctx.F
    f = msg_fn(F, "message::Message", "Decode", "decode")
    if f is None:
        return ctx.bad("anchor:Message::decode", "no decoder found for Message")
    where = "%s:%d" % (f.file, f.line)

    def hook(E, st, e):
        if e.kind == "write" or e.kind == "mutate":
            return e
        if e.kind == "call" and last(e.name) in ("decode", "decode_with_format", "push"):
            e.x = tuple(E.deepval(st, a) for a in e.args)
            return e
        return None
    E = ctx.engine(hook)
    E.unroll, E.loop_visits, E.keep_facts, E.max_part = 2, 3, True, 4000
    want = {"Header": "header", "DeliveryAnnotations": "delivery_annotations", "MessageAnnotations": "message_annotations",
            "ApplicationProperties": "application_properties", "Footer": "footer", "Properties": "properties",
            "AmqpSequence": "sequence", "AmqpValue": "value", "Data": "data"}
    seen = {}
    for p in E.run(f):
        if p.out != "ret" or p.ret.k == "A" and p.ret.a[1] != "Ok":
            continue
        arms = {t: v[1] for t, v in p.state.facts.items() if v[0] == "is" and v[1] in want}
        for t, arm in arms.items():
            dest = set()

            def carries(v):
                return any(x.k == "F" and x.a[0] is t and x.a[1][1] == arm for x in walk(v))
            for e in p.events:
                if e.kind in ("write", "mutate") and e.args[0].k == "&" and any(
                        isinstance(v, Term) and carries(v) for v in (e.args[1:2] if e.kind == "write" else e.args[1:])):
                    nm = [x[2] for x in e.args[0].a[1] if len(x) == 3]
                    rt = e.args[0].a[0]
                    if rt[0] == "H":
                        nm = [x.a[1][2] for x in reversed(list(walk(rt[1]))) if x.k == "F"] + nm
                    dest.add(tuple(nm))

            def visit(x, path):
                if x.k == "F" and x.a[0] is t and x.a[1][1] == arm:
                    dest.add(tuple(path))
                elif x.k == "A":
                    for n, v in x.a[2]:
                        visit(v, path + [n])
                elif x.k == "W":
                    visit(x.a[0], path)
                    for it in x.a[1]:
                        nm = [e[2] for e in it[0] if isinstance(e, tuple) and len(e) == 3]
                        if isinstance(it[1], Term):
                            visit(it[1], path + nm)
                elif x.k == "X" and (x.a[0].startswith("mut:") or last(x.a[0]) in ("new", "from", "into", "once")):
                    for y in x.a[1]:
                        if isinstance(y, Term):
                            visit(y, path)
            visit(E.deepval(p.state, p.ret), [])
            names = {next((n for n in reversed(d) if n in want.values()), None) for d in dest}
            if len(arms) == 1:
                ctx.ob("section %s stored" % arm, names == {want[arm]},
                       "%s: a decoded %s section ends up in %s, not in %s" % (
                           where, arm, ", ".join(sorted(map(str, names))) or "no field", want[arm]), "msgdec:" + arm)
                seen[arm] = 1
    for a in want:
        ctx.ob("section %s decoded" % a, a in seen, "%s: no path stores a decoded %s section" % (where, a), "msgdec:" + a)
    ctx.count("message sections decoded", len(seen))
