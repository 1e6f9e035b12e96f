"""C06: the encoder and the decoder of every type agree with the AMQP 1.0 type-code table and with each other."""
import re
from absint import *
from lin import *
from bufs import *
import r_size
import r_decode
from r_decode import label, roots

CODEC = "ntex_amqp_codec::"
# AMQP 1.0 part 1, section 1.6: code -> (type, payload); payload: n bytes, ("v", n) length-prefixed, ("c", n) compound
SPEC = {
    0x40: ("null", 0), 0x56: ("boolean", 1), 0x41: ("boolean", 0), 0x42: ("boolean", 0),
    0x50: ("ubyte", 1), 0x60: ("ushort", 2), 0x70: ("uint", 4), 0x52: ("uint", 1), 0x43: ("uint", 0),
    0x80: ("ulong", 8), 0x53: ("ulong", 1), 0x44: ("ulong", 0),
    0x51: ("byte", 1), 0x61: ("short", 2), 0x71: ("int", 4), 0x54: ("int", 1), 0x81: ("long", 8), 0x55: ("long", 1),
    0x72: ("float", 4), 0x82: ("double", 8), 0x74: ("decimal32", 4), 0x84: ("decimal64", 8), 0x94: ("decimal128", 16),
    0x73: ("char", 4), 0x83: ("timestamp", 8), 0x98: ("uuid", 16),
    0xa0: ("binary", ("v", 1)), 0xb0: ("binary", ("v", 4)), 0xa1: ("string", ("v", 1)), 0xb1: ("string", ("v", 4)),
    0xa3: ("symbol", ("v", 1)), 0xb3: ("symbol", ("v", 4)),
    0x45: ("list", ("c", 0)), 0xc0: ("list", ("c", 1)), 0xd0: ("list", ("c", 4)),
    0xc1: ("map", ("c", 1)), 0xd1: ("map", ("c", 4)), 0xe0: ("array", ("c", 1)), 0xf0: ("array", ("c", 4)),
}
CODES = {}
for _c, (_t, _w) in SPEC.items():
    CODES.setdefault(_t, set()).add(_c)
SIGNED = {"byte", "short", "int", "long", "timestamp"}
CONST = {0x41: 1, 0x42: 0, 0x43: 0, 0x44: 0}
RUST = {"bool": "boolean", "u8": "ubyte", "u16": "ushort", "u32": "uint", "u64": "ulong", "i8": "byte", "i16": "short",
        "i32": "int", "i64": "long", "f32": "float", "f64": "double", "char": "char", "str": "string",
        "uuid::Uuid": "uuid", "ntex_bytes::bytes::Bytes": "binary", "ntex_bytes::string::ByteString": "string",
        "alloc::string::String": "string", "alloc::vec::Vec": "array"}
VARIANT = {"Null": "null", "Boolean": "boolean", "Ubyte": "ubyte", "Ushort": "ushort", "Uint": "uint", "Ulong": "ulong",
           "Byte": "byte", "Short": "short", "Int": "int", "Long": "long", "Float": "float", "Double": "double",
           "Decimal32": "decimal32", "Decimal64": "decimal64", "Decimal128": "decimal128", "Char": "char",
           "Timestamp": "timestamp", "Uuid": "uuid", "Binary": "binary", "String": "string", "Symbol": "symbol",
           "List": "list", "Map": "map", "Array": "array"}
ALL = {}
INTS = {"ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long"}


def amqp_of(ty):
    """AMQP type of a Rust type string"""
    s = ty.lstrip("&").strip()
    if s in RUST:
        return RUST[s]
    h = s.split("<")[0]
    if h in RUST:
        return RUST[h]
    if h.endswith("DateTime"):
        return "timestamp"
    n = last(h)
    if CODEC in s.split("<")[0]:
        return {"Str": "string", "Symbol": "symbol", "StaticSymbol": "symbol", "List": "list", "VecSymbolMap": "map",
                "VecStringMap": "map", "VariantMap": "map", "Array": "array", "ListDescribed": "list"}.get(n)
    if n in ("HashMap", "BTreeMap"):
        return "map"
    if n == "OrderedFloat":
        return {"f32": "float", "f64": "double"}.get(s[s.find("<") + 1:-1])
    return None


def reads(Z, v, root):
    """the pieces of the input a value was made of: (offset, width, signed) integers and (offset, end) slices"""
    out = set()
    seen = set()

    def visit(t):
        if t in seen:
            return
        seen.add(t)
        if t.k in ("X", "F", "cast", "B"):
            l = Z.conv(t)
            if len(l.m) == 1 and l.c == 0:
                (a, c), = l.m.items()
                if c == 1 and a.k == "X" and a.a[0] in ("BE", "BEs") and a.a[1][0] is root:
                    out.add(("int", a.a[2], a.a[3], a.a[0] == "BEs"))
                    return
        if t.k == "X":
            b, o, e = Z.norm(t)
            if b is root and e is not None:
                out.add(("slice", o, e))
                return
            if b is root and t is not root:
                return
        for x in t.a:
            sub(x)

    def sub(x):
        if isinstance(x, Term):
            visit(x)
        elif isinstance(x, tuple):
            for y in x:
                sub(y)
    visit(v)
    return out


def core(t):
    """the value inside wrappers (Ok, Some, newtypes, enum variants with one field)"""
    while t.k == "A" and len(t.a[2]) == 1 and t.a[0] != "[]":
        t = t.a[2][0][1]
    return t


def fact_code(p, fmtname):
    f = p.state.facts.get(mk("P", fmtname))
    return f[1] if f and f[0] == "eq" else None


def ok_value(p):
    r = p.ret
    if p.out != "ret" or r.k == "A" and r.a[1] == "Err":
        return None
    if r.k == "A" and r.a[2]:
        return r.a[2][0][1]
    f = p.state.facts.get(r)
    if f and f[-1] == "Err":
        return None
    return mk("F", r, ("core::result::Result", "Ok", "0"), 0)


def check_payload(ctx, F, E, Z, f, p, code, v, name, arrays):
    """the payload of one format code was read with the width, sign and order of the table"""
    ty, lay = SPEC[code]
    where = "%s:%d" % (f.file, f.line)
    root = mk("P", f.names.get(1))
    b = Z.box(p.state.facts)
    final = E.deepval(p.state, mk("&", ("H", root), ()))
    fb, fo, fe = Z.norm(final)
    c = core(v)
    if isinstance(lay, int):
        width = Lin(c=lay)
        rep = [x for x in walk(c) if x.k == "X" and x.a[0] == "repeat"]
        if ty.startswith("decimal") and rep and arrays.get(name) == lay:
            # generic width: the array type of the variant fixes it
            width = Z.length(rep[0])
        bb = Z.close(b)
        ctx.ob("%s: %#x takes %d bytes" % (name, code, lay), fb is root and r_decode.eq0(bb, fo - width),
               "%s: %s reads %s bytes for format code %#x (%s) where the encoding has %d" % (where, name, fo, code, ty, lay),
               "width:%s:%#x" % (name, code))
        if code == 0x40:
            return
        if lay == 0:
            ctx.ob("%s: %#x value" % (name, code), c.k == "C" and c.a[0] == CONST[code],
                   "%s: %s decodes format code %#x to %s instead of %s" % (where, name, code, show(c), CONST[code]),
                   "value:%s:%#x" % (name, code))
            return
        got = reads(Z, c, root)
        signed = ty in SIGNED
        if ty in INTS:
            l = Z.conv(c)
            want = Lin({mk("X", "BEs" if signed else "BE", (root,), Lin(), lay): 1})
            ok = l == want
        elif ty in ("uuid",) or ty.startswith("decimal"):
            ok = len(got) == 1
            for g in got:
                ok = ok and g[0] == "slice" and r_decode.eq0(bb, g[1]) and r_decode.eq0(bb, g[2] - width)
        elif ty == "boolean" and c.k == "C":
            byte = Lin({mk("X", "BE", (root,), Lin(), 1): 1})
            cons = (Lin(c=1) - byte) if c.a[0] else byte
            ok = bb.implies_le0(cons) or c.a[0] == 0 and any(
                t.k in ("X", "F", "cast", "B") and Z.conv(t) == byte and fx[0] == "ne" and 1 in fx[1] for t, fx in p.state.facts.items())
        elif ty in ("float", "double", "char", "boolean"):
            ok = bool(got) and all(g[0] == "int" and g[1] == Lin() and g[2] == lay for g in got)
            if ty == "boolean":
                ok = ok and truth(Z, c)
        else:
            ok = ("int", Lin(), lay, True) in got and all(g[0] == "int" and g[2] == lay and g[3] for g in got)
        ctx.ob("%s: %#x is read big-endian with the right sign" % (name, code), ok,
               "%s: %s does not decode format code %#x (%s) from its %d big-endian %s payload bytes: %s" % (
                   where, name, code, ty, lay, "signed" if signed else "unsigned", show(c)), "value:%s:%#x" % (name, code))
    elif lay[0] == "v":
        w = lay[1]
        n = Lin({mk("X", "BE", (root,), Lin(), w): 1})
        got = [g for g in reads(Z, c, root) if g[0] == "slice"]
        bb = Z.close(b)
        ok = fb is root and r_decode.eq0(bb, fo - n - Lin(c=w))
        ctx.ob("%s: %#x takes length and data" % (name, code), ok,
               "%s: %s consumes %s bytes for format code %#x (%s): a %d-byte length and the data were written" % (
                   where, name, fo, code, ty, w), "width:%s:%#x" % (name, code))
        ok = bool(got) and all(r_decode.eq0(bb, g[1] - Lin(c=w)) and r_decode.eq0(bb, g[2] - n - Lin(c=w)) for g in got)
        ctx.ob("%s: %#x data" % (name, code), ok,
               "%s: the value %s decodes for format code %#x is not exactly the announced data" % (where, name, code),
               "value:%s:%#x" % (name, code))


def truth(Z, c):
    """byte == 1 / byte != 0 (and not its negation)"""
    neg = False
    while c.k == "N":
        neg, c = not neg, c.a[0]
    if c.k == "B" and c.a[0] in ("Eq", "Ne", "Gt") and c.a[2].k == "C":
        op, k = c.a[0], c.a[2].a[0]
        eq = (op == "Eq") != neg if op != "Gt" else None
        if op == "Gt":
            return k == 0 and not neg
        return (eq and k == 1) or (not eq and k == 0)
    return c.k != "C"


def decoders(ctx, F):
    """decode_with_format paths: type name -> code -> [(path, value)]"""
    tab = {}
    for f in roots(F):
        if f.name != "decode_with_format" or "protocol::definitions" in f.path or not f.impl_self:
            continue
        tab[f.impl_self["s"]] = f
    return tab


def c06_dec(ctx, f):
    F = ctx.F
    s = f.impl_self["s"]
    ty = amqp_of(s)
    name = label(f)
    E = r_decode.engine(ctx, lambda E, st, e: None)
    Z = Bufs(F, f, E)
    sums = f.impl_self["h"].endswith(("::Variant", "protocol::MessageId"))
    ad0 = F.adts.get(f.impl_self["h"])
    payload = not ad0 or len(ad0["variants"]) == 1 or sums
    arrays = {}
    fmt = f.names.get(2)
    seen = {}
    nun = 0
    for p in E.run(f):
        v = ok_value(p)
        if v is None:
            continue
        code = fact_code(p, fmt)
        if code is None:
            # any code that is neither rejected nor decided: must delegate to another decoder
            nun += 1
            continue
        if code == 0:
            continue
        if sums:
            if v.k != "A":
                continue
            arm = v.a[1]
            want = VARIANT.get(arm)
            ad = F.adts.get(v.a[0])
            for x in ad["variants"] if ad else ():
                for fl in x["fields"]:
                    m = re.match(r"\[u8; (\d+)\]$", fl["ty"]["s"])
                    if m:
                        arrays[name + "::" + x["name"]] = int(m.group(1))
            if f.impl_self["h"].endswith("::Variant"):
                ok = code in SPEC and want == SPEC[code][0]
                ctx.ob("%s: %#x gives %s" % (name, code, arm), ok,
                       "%s:%d: %s decodes format code %#x (%s) as Variant::%s" % (
                           f.file, f.line, name, code, SPEC.get(code, ("unassigned",))[0], arm), "map:%s:%#x" % (name, code))
                if not ok:
                    continue
            seen.setdefault(arm, set()).add(code)
            if code in SPEC:
                check_payload(ctx, F, E, Z, f, p, code, v, name + "::" + arm, arrays)
        else:
            seen.setdefault("", set()).add(code)
            if code in SPEC and payload and (ty is None or SPEC[code][0] == ty):
                check_payload(ctx, F, E, Z, f, p, code, v, name, arrays)
    if ty is not None:
        for code in sorted(CODES[ty] - {0x45} if ty == "list" and s.endswith("Header") else CODES[ty]):
            ctx.ob("%s accepts %#x" % (name, code), code in seen.get("", ()),
                   "%s:%d: %s does not accept format code %#x of type %s" % (f.file, f.line, name, code, ty),
                   "accept:%s:%#x" % (name, code))
        extra = sorted(c for c in seen.get("", ()) if c not in CODES[ty])
        ctx.ob("%s accepts only %s codes" % (name, ty), not extra,
               "%s:%d: %s accepts format code(s) %s, which are not codes of %s" % (
                   f.file, f.line, name, ", ".join("%#x" % c for c in extra), ty), "foreign:%s" % name)
        ctx.count("types decoded")
    elif f.impl_self["h"].endswith("::Variant"):
        for arm, t in sorted(VARIANT.items()):
            for code in sorted(CODES[t]):
                ctx.ob("%s accepts %#x" % (name, code), code in seen.get(arm, ()),
                       "%s:%d: %s has no way to decode format code %#x (%s) into Variant::%s" % (
                           f.file, f.line, name, code, t, arm), "accept:%s:%#x" % (name, code))
        ctx.count("variants decoded", len(VARIANT))
    ctx.count("format codes followed", sum(len(x) for x in seen.values()))
    for arm, cs in seen.items():
        for c in cs:
            ctx.notes.append("dec|%s|%s|%d" % (s, arm, c))


def type_box(Z, f, ty, *facts):
    b = r_size.box_of(Z, *facts)
    return b


RNG = {"ubyte": (0, 255), "ushort": (0, 2 ** 16 - 1), "uint": (0, 2 ** 32 - 1), "ulong": (0, 2 ** 64 - 1),
       "byte": (-128, 127), "short": (-2 ** 15, 2 ** 15 - 1), "int": (-2 ** 31, 2 ** 31 - 1), "long": (-2 ** 63, 2 ** 63 - 1),
       "boolean": (0, 1), "char": (0, 0x10ffff)}


def enc_payload(ctx, Z, f, facts, items, code, ty, name, where):
    """what follows a format code: [put ...] with the layout of the code, value of self unchanged"""
    lay = SPEC[code][1]
    self_ = Z.strip(mk("P", f.names.get(1)))
    box = r_size.box_of(Z, facts)
    sl = Lin({self_: 1})
    if ty in RNG:
        lo, hi = RNG[ty]
        box.le0(Lin(c=lo) - sl)
        box.le0(sl - Lin(c=hi))
    if box.dead:
        return
    if lay == 0:
        ok = not items
        if ok and code in CONST:
            lo, hi = box.eval(sl)
            ok = lo == hi == CONST[code]
        ctx.ob("%s: %#x stands for its value" % (name, code), ok,
               "%s: %s writes format code %#x for a value that need not be %s" % (where, name, code, CONST.get(code)),
               "const:%s:%#x" % (name, code))
        return
    if isinstance(lay, int):
        n = Lin()
        for it in items:
            n = n + it.size
        le = [it for it in items if it.kind == "put" and it.what.endswith(("_le", "_ne"))]
        ok = n.const() == lay and not le
        ctx.ob("%s: %#x is followed by %d big-endian bytes" % (name, code, lay), ok,
               "%s: %s writes %s bytes%s behind format code %#x (%s), which has %d" % (
                   where, name, n, " in little-endian order" if le else "", code, SPEC[code][0], lay), "layout:%s:%#x" % (name, code))
        if not ok:
            return
        if len(items) == 1 and items[0].kind == "put":
            v = items[0].val
            if ty in INTS or ty in ("char", "boolean"):
                l = Z.conv(v)
                if ty == "boolean" and l.const() is not None:
                    ok = l.const() == box.eval(sl)[0] == box.eval(sl)[1]
                else:
                    ok = l == sl
                w = 8 * lay
                rg = (-2 ** (w - 1), 2 ** (w - 1) - 1) if ty in SIGNED else (0, 2 ** w - 1)
                lo, hi = box.eval(sl)
                fit = lo >= rg[0] and hi <= rg[1]
                ctx.ob("%s: %#x carries the value" % (name, code), ok,
                       "%s: %s writes %s behind format code %#x instead of the value" % (where, name, show(v), code),
                       "payload:%s:%#x" % (name, code))
                ctx.ob("%s: %#x fits the value" % (name, code), fit,
                       "%s: %s uses format code %#x for values in %s..=%s, its %d-byte payload holds %d..=%d" % (
                           where, name, code, lo, hi, lay, rg[0], rg[1]), "range:%s:%#x" % (name, code))
                return
            ctx.ob("%s: %#x carries the value" % (name, code), any(x is self_ for x in walk(Z.strip(v))),
                   "%s: %s writes %s behind format code %#x instead of the value" % (where, name, show(v), code),
                   "payload:%s:%#x" % (name, code))
            if ty in ("float", "double"):
                ctx.ob("%s: %#x carries the float" % (name, code), items[0].what.startswith("put_f") or "to_bits" in repr(v) or "to_bits" in show(v),
                       "%s: %s converts the value to an integer behind format code %#x" % (where, name, code),
                       "payload:%s:%#x" % (name, code))
            return
        ctx.ob("%s: %#x carries the value" % (name, code),
               all(it.val is not None and any(x is self_ for x in walk(Z.strip(it.val))) and
                   not any(x.k == "X" and last(x.a[0]) in ("to_le_bytes", "to_ne_bytes", "swap_bytes", "reverse_bits",
                                                           "to_le", "to_bytes_le") for x in walk(it.val)) for it in items),
               "%s: %s does not write its value in network order behind format code %#x" % (where, name, code),
               "payload:%s:%#x" % (name, code))
    elif lay[0] == "v":
        ok = len(items) == 2 and items[0].kind == "put" and items[0].width == lay[1] and items[1].kind == "slice" and \
            not items[0].what.endswith("_le")
        ctx.ob("%s: %#x is followed by length and data" % (name, code), ok,
               "%s: %s does not write a %d-byte length and the data behind format code %#x" % (where, name, lay[1], code),
               "layout:%s:%#x" % (name, code))
        if ok:
            v = Z.strip(items[1].val)
            ctx.ob("%s: %#x carries the data" % (name, code), any(x is self_ for x in walk(v)),
                   "%s: %s writes something else than its data behind format code %#x" % (where, name, code),
                   "payload:%s:%#x" % (name, code))
    elif items:
        le = [it for it in items[:2] if it.kind == "put" and it.what.endswith("_le")]
        ctx.ob("%s: %#x header in network order" % (name, code), not le,
               "%s: %s writes the header of %#x in little-endian order" % (where, name, code), "layout:%s:%#x" % (name, code))


def c06(ctx):
    F = ctx.F
    dec = decoders(ctx, F)
    ctx.parallel(c06_dec, [dec[s] for s in sorted(dec)])
    accept = {}
    for n in ctx.notes:
        if n.startswith("dec|"):
            _, s, arm, c = n.split("|")
            accept.setdefault(s, {}).setdefault(arm, set()).add(int(c))
    ctx.notes = [n for n in ctx.notes if not n.startswith("dec|")]
    ctx.floor("types decoded", ctx.counts.get("types decoded", 0), 20)
    ctx.floor("variants decoded", ctx.counts.get("variants decoded", 0), 20)
    Z = r_size.Sizes(ctx)
    ctors = {}
    for c in F.consts:
        if c.name == "ARRAY_CONSTRUCTOR" and c.impl_trait:
            r = [p.ret for p in ctx.engine().run(c)]
            if len(r) == 1 and r[0].k == "A" and r[0].a[1] == "FormatCode" and r[0].a[2][0][1].k == "C":
                ctors[c.impl_self["s"]] = r[0].a[2][0][1].a[0]
    nt = na = nc = 0
    for f in F.fns.values():
        if f.kind == "Closure" or not f.impl_self or f.impl_trait not in (CODEC + "codec::Encode", CODEC + "codec::ArrayEncode") \
                or f.name not in ("encode", "array_encode"):
            continue
        s = f.impl_self["s"]
        ty = amqp_of(s)
        name = label(f)
        if ty is None:
            continue
        arr = f.name == "array_encode"
        encs, unknown = r_size.encode_items(ctx, Z, f, 2)
        if arr:
            na += 1
            code = ctors.get(s)
            ok = code in CODES[ty] and not (SPEC[code][1] == 0 or SPEC[code][1] == ("c", 0))
            ctx.ob("%s: array constructor" % name, ok,
                   "%s:%d: array elements of %s are announced with format code %s, which is not a sized code of %s" % (
                       f.file, f.line, s, code, ty), "ctor:%s" % name)
            if not ok:
                continue
        else:
            nt += 1
        for p, items in encs:
            facts = r_size.norm_facts(Z, p.state.facts)
            if r_size.box_of(Z, facts).dead:
                continue
            where = "%s:%d" % (f.file, items[0].line if items else f.line)
            if not arr:
                if items and items[0].kind == "enc" and len(items) == 1:
                    # hands over to another encoder of the same AMQP type
                    ctx.ob("%s delegates" % name, delegates(Z, f, items[0], ty),
                           "%s: %s hands its value to an encoder of another type (%s)" % (where, name, items[0].what),
                           "delegate:%s" % name)
                    continue
                c = items[0].val if items and items[0].kind == "put" and items[0].width == 1 else None
                ok = c is not None and c.k == "C" and c.a[0] in CODES[ty]
                ctx.ob("%s: writes a %s code" % (name, ty), ok,
                       "%s: %s starts with %s, which is not a format code of %s" % (
                           where, name, show(c) if c is not None else "no format code", ty), "code:%s" % name)
                if not ok:
                    continue
                code, items = c.a[0], items[1:]
                nc += 1
                who = accept.get(s) or accept.get(s.replace("str", "ntex_bytes::string::ByteString"))
                if who is not None and "" in who:
                    ctx.ob("%s: %#x is understood by the decoder" % (name, code), code in who[""],
                           "%s: %s writes format code %#x, which the decoder of %s does not accept" % (where, name, code, s),
                           "understood:%s:%#x" % (name, code))
            enc_payload(ctx, Z, f, facts, items, code, ty, name, where)
        ctx.sample(name)
    ctx.floor("types encoded", nt, 12)
    ctx.floor("array element types", na, 18)
    ctx.floor("encoder paths with a format code", nc, 25)
    blanket(ctx, F, Z)
    c06_sums(ctx, F, Z, accept)


def blanket(ctx, F, Z):
    """fixed-width types: constructor, then the array form"""
    for f in F.fns.values():
        if f.kind == "Closure" or not f.impl_self or f.impl_trait != CODEC + "codec::Encode" or f.name != "encode" or \
                f.impl_self["k"] != "param":
            continue
        encs, _ = r_size.encode_items(ctx, Z, f, 2)
        for p, items in encs:
            ok = len(items) == 2 and items[0].kind == "enc" and is_ctor(items[0]) and items[1].kind == "enc" and \
                last(items[1].what) == "array_encode" and items[1].recv is Z.strip(mk("P", f.names.get(1)))
            ctx.ob("%s: constructor then array form" % label(f), ok,
                   "%s:%d: %s does not write the array constructor followed by the element" % (f.file, f.line, label(f)),
                   "blanket")
        ctx.count("blanket encoder")
    ctx.floor("blanket encoder", ctx.counts.get("blanket encoder", 0), 1)


def is_ctor(it):
    return any(x.k == "K" and x.a[0].endswith("ARRAY_CONSTRUCTOR") for x in walk(it.recv)) if it.recv is not None else False


def enc_type(what):
    """Rust type an encoder call resolves to"""
    m = re.search(r"Encode for (.+?)>::", what) or re.match(r"<(.+) as ntex_amqp_codec::codec::(?:Array)?Encode>::", what)
    return m.group(1) if m else None


def delegates(Z, f, it, ty):
    t = enc_type(it.what or "")
    if t is None:
        return any(x is Z.strip(mk("P", f.names.get(1))) for x in walk(it.recv))
    return amqp_of(t) in (ty, None)


def c06_sums(ctx, F, Z, accept):
    """enumerations of AMQP types: each arm is written with the encoder of its type and read back into the same arm"""
    n = 0
    for f in F.fns.values():
        if f.kind == "Closure" or not f.impl_self or f.impl_trait != CODEC + "codec::Encode" or f.name != "encode":
            continue
        h = f.impl_self["h"]
        if not (h.endswith("::Variant") or h.endswith("protocol::MessageId")):
            continue
        acc = accept.get(f.impl_self["s"])
        name = label(f)
        ad = F.adts.get(h)
        if ad is None or acc is None:
            ctx.bad("anchor:" + h, "%s or its decoder not found" % h)
            continue
        self_ = Z.strip(mk("P", f.names.get(1)))
        seen = set()
        encs, _ = r_size.encode_items(ctx, Z, f, 2)
        for p, items in encs:
            facts = p.state.facts
            arm = next((v[1] for t, v in facts.items() if v[0] == "is" and Z.strip(t) is self_), None)
            if arm is None or not items:
                continue
            where = "%s:%d" % (f.file, items[0].line)
            if arm in ("Described", "DescribedCompound"):
                seen.add(arm)
                continue
            fl = next((x["fields"] for x in ad["variants"] if x["name"] == arm), None)
            ty = VARIANT.get(arm) if h.endswith("::Variant") else amqp_of(fl[0]["ty"]["s"]) if fl else None
            if ty is None:
                ty = VARIANT.get(arm)
            if ty is None:
                continue
            seen.add(arm)
            n += 1
            if items[0].kind == "put" and items[0].val.k == "C":
                codes = {items[0].val.a[0]}
                ok = codes <= CODES[ty]
                lay = SPEC[min(codes)][1] if ok else None
                if isinstance(lay, int) and lay:
                    tot = Lin()
                    for it in items[1:]:
                        tot = tot + it.size
                    ok = tot.const() == lay and all(
                        it.val is not None and any(x.k == "F" and x.a[0] is self_ and x.a[1][1] == arm
                                                   for x in walk(Z.strip(it.val))) for it in items[1:])
            else:
                t = enc_type(items[0].what or "")
                r = items[0].recv
                ok = len(items) == 1 and r is not None and any(
                    x.k == "F" and x.a[0] is self_ and x.a[1][1] == arm for x in walk(r))
                if t is not None and amqp_of(t) is not None:
                    ok = ok and amqp_of(t) == ty
                codes = CODES[ty]
            ctx.ob("%s: %s is written as %s" % (name, arm, ty), ok,
                   "%s: %s does not write %s::%s with the encoding of %s" % (where, name, last(h), arm, ty),
                   "arm:%s:%s" % (name, arm))
            for c in sorted(codes):
                back = sorted(a for a, cs in acc.items() if c in cs)
                ctx.ob("%s: %#x of %s is read back into it" % (name, c, arm), back == [arm],
                       "%s: %s::%s may be written with format code %#x, which is read back as %s" % (
                           where, last(h), arm, c, ", ".join(back) or "an error"), "readback:%s:%s:%#x" % (name, arm, c))
        missing = sorted(x["name"] for x in ad["variants"] if x["name"] not in seen)
        ctx.ob("%s: all variants followed" % name, not missing, "%s: no encoder path for %s" % (name, ", ".join(missing)),
               "variants:" + name)
    ctx.floor("enumeration arms", n, 26)
