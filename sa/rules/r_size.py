"""C05: announced size == bytes written, for every encoder; compound headers agree with what follows."""
import re
from absint import *
from lin import *

PUT = {"put_u8": 1, "put_i8": 1, "put_u16": 2, "put_i16": 2, "put_u32": 4, "put_i32": 4, "put_u64": 8, "put_i64": 8,
       "put_f32": 4, "put_f64": 8, "put_u128": 16, "put_i128": 16}
PUT.update({k + "_le": v for k, v in list(PUT.items())})
SLICE = {"put_slice", "extend_from_slice", "put"}
NOP = {"reserve", "len", "remaining_mut", "capacity", "is_empty", "as_ref", "deref"}
WRAP = {"as_bytes", "as_str", "as_ref", "deref", "borrow", "as_slice", "clone", "to_owned", "as_deref", "into",
        "to_bytes_str", "iter"}
COMPOUND = {0xc0: 1, 0xd0: 4, 0xc1: 1, 0xd1: 4, 0xe0: 1, 0xf0: 4}
VARIABLE = {0xa0: 1, 0xb0: 4, 0xa1: 1, 0xb1: 4, 0xa3: 1, 0xb3: 4}
INTLEN = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8,
          "u128": 16, "i128": 16}
CODEC = "ntex_amqp_codec::"


def last(p):
    return p.rsplit("::", 1)[-1]


class Sizes:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.F
        self.memo = {}
        self.smemo = {}
        self.by_path = {f.path: f for f in self.F.fns.values()}
        self.enc_by_adt = {}
        for f in self.F.fns.values():
            if f.impl_trait == CODEC + "codec::Encode" and f.name == "encoded_size" and f.impl_self:
                self.enc_by_adt[f.impl_self["h"]] = f
        self.ctor1 = None

    def strip(self, t):
        """drop versions, call sites and transparent wrappers"""
        r = self.smemo.get(t)
        if r is not None:
            return r
        r = t
        if t.k == "F":
            r = mk("F", self.strip(t.a[0]), t.a[1], 0)
        elif t.k == "X":
            if last(t.a[0]) in WRAP and len(t.a[1]) == 1 and short(t.a[0]) != "Uuid::as_bytes":
                r = self.strip(t.a[1][0])
            else:
                r = mk("X", t.a[0], tuple(self.strip(x) for x in t.a[1]), 0)
        elif t.k == "&" and t.a[0][0] == "H":
            r = self.strip(t.a[0][1])
            for f in t.a[1]:
                r = mk("F", r, f, 0)
        elif t.k == "A":
            r = mk("A", t.a[0], t.a[1], tuple((n, self.strip(v)) for n, v in t.a[2]))
        elif t.k == "W":
            r = mk("W", self.strip(t.a[0]), tuple((p, self.strip(v)) for p, v in t.a[1]))
        elif t.k == "B":
            r = mk("B", t.a[0], self.strip(t.a[1]), self.strip(t.a[2]))
        elif t.k == "cast":
            r = mk("cast", t.a[0], self.strip(t.a[1]), *t.a[2:])
        self.smemo[t] = r
        return r

    def atom(self, t):
        t = self.strip(t)
        if t.k == "X":
            n = last(t.a[0])
            if n == "encoded_size" and len(t.a[1]) == 1:
                return self.S(t.a[0], t.a[1][0])
            if n == "array_encoded_size" and len(t.a[1]) == 1:
                return Lin({mk("X", "SA", (t.a[1][0],), 0): 1})
            if n == "len" and len(t.a[1]) == 1:
                return self.length(t.a[1][0])
        return Lin({t: 1})

    def length(self, v):
        v = self.strip(v)
        if v.k == "S":
            return Lin(c=len(v.a[0].encode() if isinstance(v.a[0], str) else v.a[0]))
        if v.k == "X" and short(v.a[0]) == "Uuid::as_bytes":
            return Lin(c=16)
        if v.k == "X" and last(v.a[0]) in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            m = re.search(r"<impl (\w+)>", v.a[0]) or re.match(r"(\w+)::", short(v.a[0]))
            if m and m.group(1) in INTLEN:
                return Lin(c=INTLEN[m.group(1)])
        if v.k == "X" and last(v.a[0]) in ("from_static", "from") and v.a[1] and v.a[1][0].k == "S":
            return self.length(v.a[1][0])
        if v.k == "F":
            a = self.F.adts.get(v.a[1][0])
            for x in a["variants"] if a else ():
                if x["name"] == v.a[1][1] or len(a["variants"]) == 1:
                    for f in x["fields"]:
                        if f["name"] == v.a[1][2]:
                            m = re.match(r"\[u8; (\d+)\]$", f["ty"]["s"])
                            if m:
                                return Lin(c=int(m.group(1)))
        if v.k == "A" and v.a[0] == "[]":
            return Lin(c=len(v.a[2]))
        return Lin({mk("X", "len", (v,), 0): 1})

    def S(self, path, obj):
        """size of an encoded value"""
        obj = self.strip(obj)
        if obj.k == "K" and obj.a[0].endswith("ARRAY_CONSTRUCTOR"):
            if self.ctor1 is None:
                vals = []
                for c in self.F.consts:
                    if c.name == "ARRAY_CONSTRUCTOR" and c.impl_trait:
                        r = [p.ret for p in self.ctx.engine().run(c)]
                        vals.append(self.S("", r[0]).const() if len(r) == 1 else None)
                self.ctor1 = len(vals) > 10 and all(v == 1 for v in vals)
            if self.ctor1:
                return Lin(c=1)
        if obj.k in ("A", "C"):
            f = self.by_path.get(path)
            if obj.k == "A":
                f = self.enc_by_adt.get(obj.a[0], f)
            if f is not None:
                key = (f.id, obj)
                if key not in self.memo:
                    self.memo[key] = None
                    E = engine(self.ctx)
                    outs = set()
                    for p in E.run(f, args=[mk("&", ("H", obj), ())]):
                        if p.out == "ret" and not box_of(self, norm_facts(self, p.state.facts)).dead:
                            outs.add(self.conv(p.ret))
                    self.memo[key] = outs.pop() if len(outs) == 1 else None
                if self.memo[key] is not None:
                    return self.memo[key]
        f = self.by_path.get(path)
        if f is not None and f.impl_self and f.impl_self["s"] in ("bool", "u8", "i8", "u16", "i16", "f32", "f64", "char"):
            # the same size for every value
            key = (f.id, None)
            if key not in self.memo:
                self.memo[key] = None
                outs = {self.conv(p.ret) for p in engine(self.ctx).run(f) if p.out == "ret"}
                if len(outs) == 1:
                    l = outs.pop()
                    self.memo[key] = l if l.const() is not None else None
            if self.memo[key] is not None:
                return self.memo[key]
        return Lin({mk("X", "S", (obj,), 0): 1})

    def conv(self, t):
        return Conv(self.atom)(t)


class Item:
    __slots__ = ("size", "val", "kind", "width", "line", "what", "recv")


def buf_base(v):
    while v.k == "X" and v.a[0].startswith("mut:"):
        v = v.a[1][0]
    return v


def engine(ctx, hook=None):
    E = ctx.engine(hook)
    E.unroll, E.loop_visits, E.max_part, E.keep_facts = 2, 3, 4000, True
    return E


def encode_items(ctx, Z, f, bufidx):
    bufname = f.names.get(bufidx)
    unknown = []

    def hook(E, st, e):
        if e.kind != "call":
            return None
        deep = [buf_base(E.deepval(st, a)) for a in e.args]
        pos = [i for i, d in enumerate(deep) if d.k == "P" and d.a[0] == bufname]
        if not pos:
            return None
        e.x = (tuple(deep), pos[0])
        return e
    E = engine(ctx, hook)
    out = []
    for p in E.run(f):
        if p.out != "ret":
            continue
        items = []
        for e in p.events:
            deep, pos = e.x
            n = last(e.name)
            it = Item()
            it.val, it.width, it.line, it.what, it.recv, it.kind = None, 0, e.line, n, None, "raw"
            if n in NOP:
                continue
            if n in PUT and pos == 0:
                it.size, it.width, it.val, it.kind = Lin(c=PUT[n]), PUT[n], deep[1], "put"
            elif n in SLICE and pos == 0 and deep[1].k == "A" and deep[1].a[0] == "[]" and len(deep[1].a[2]) <= 16:
                for i, (_, v) in enumerate(sorted(deep[1].a[2], key=lambda kv: int(kv[0]))):
                    if i:
                        items.append(it)
                        it = Item()
                        it.line, it.what, it.recv = e.line, n, None
                    it.size, it.width, it.val, it.kind = Lin(c=1), 1, v, "put"
            elif n in SLICE and pos == 0 and deep[1].k == "X" and last(deep[1].a[0]) == "to_be_bytes" and \
                    Z.length(deep[1]).const() in (1, 2, 4, 8, 16):
                it.width = Z.length(deep[1]).const()
                it.size, it.kind, it.val = Lin(c=it.width), "put", deep[1].a[1][0]
            elif n in SLICE and pos == 0:
                it.size, it.kind, it.val = Z.length(deep[1]), "slice", deep[1]
            elif n == "put_bytes" and pos == 0:
                it.size, it.kind = Z.conv(deep[2]), "slice"
            elif n == "encode" and len(deep) == 2 and pos == 1:
                it.recv = Z.strip(deep[0])
                it.size, it.kind = Z.S(e.name[:-len("encode")] + "encoded_size", deep[0]), "enc"
                it.what = e.name
            elif n == "array_encode" and len(deep) == 2 and pos == 1:
                it.recv = Z.strip(deep[0])
                it.size, it.kind = Lin({mk("X", "SA", (Z.strip(deep[0]),), 0): 1}), "enc"
                it.what = e.name
            else:
                unknown.append((e.name, e.line))
                continue
            items.append(it)
        out.append((p, items))
    return out, unknown


def eq_lin(box, a, b):
    d = a - b
    return box.implies_le0(d) and box.implies_le0(d.scale(-1))


def norm_facts(Z, facts):
    return {Z.strip(t): f for t, f in facts.items()}


def box_of(Z, *factss):
    b = Box(lambda a: (0, 2 ** 62) if a.k == "X" and a.a[0] in ("S", "SA", "len", "itercount") else (-INF, INF))
    conv = Conv(Z.atom)
    for fs in factss:
        for t, f in fs.items():
            if t.k == "X" and t.a[0] == "itercount":
                if f[0] == "eq":
                    b.eq0(Z.length(t.a[1][0]) - Lin(c=f[1]))
                continue
            add_fact(b, t, f, conv)
    return b


def is_prefix(it):
    """descriptor or array constructor in front of the elements"""
    w = it.what or ""
    if "types::Descriptor>" in w or "types::Constructor>" in w:
        return True
    r = it.recv
    return r is not None and ((r.k == "A" and last(r.a[0]) in ("Descriptor", "Constructor")) or
                              (r.k == "X" and last(r.a[0]) == "descriptor") or
                              (r.k == "K" and r.a[0].endswith("ARRAY_CONSTRUCTOR")) or
                              (r.k == "F" and r.a[1][2] in ("descriptor", "element_constructor")))


def check_headers(ctx, Z, f, facts, items, box, stats, ctor=None):
    """sizes, lengths and counts inside the encoding agree with the bytes that follow"""
    i = 0
    n = len(items)

    # the payload of a transfer follows its performative and is not part of the list
    while n and "protocol::TransferBody as" in (items[n - 1].what or ""):
        n -= 1

    def total(a):
        t = Lin()
        for it in items[a:n]:
            t = t + it.size
        return t

    def equal(a, b):
        d = a - b
        return box.implies_le0(d) and box.implies_le0(d.scale(-1))

    def elements(a):
        return [it for it in items[a:n] if not is_prefix(it)]
    codes = []
    if ctor is not None and items and items[0].kind == "put":
        codes.append((-1, ctor))
    for i, it in enumerate(items):
        if it.kind == "put" and it.width == 1 and it.val is not None and it.val.k == "C" and it.val.a[1] and \
                "FORMATCODE" in it.val.a[1]:
            codes.append((i, it.val.a[0]))
        elif it.kind == "put" and it.width == 1 and it.val is not None and it.val.k == "C" and i == 0 and len(items) > 1:
            codes.append((i, it.val.a[0]))
    for i, code in codes:
        where = "%s:%d" % (f.file, items[max(i, 0)].line)
        if code in COMPOUND:
            w = COMPOUND[code]
            stats["compound headers"] = stats.get("compound headers", 0) + 1
            ok = n > i + 2 and items[i + 1].kind == items[i + 2].kind == "put" and \
                items[i + 1].width == items[i + 2].width == w
            ctx.ob("%s: %#x header has %d-byte size and count" % (f.path, code, w), ok,
                   "%s: %s writes compound code %#x without a %d-byte size and a %d-byte count" % (where, f.path, code, w, w),
                   "header:%s:%#x" % (f.path, code))
            if not ok:
                continue
            v = Z.conv(items[i + 1].val)
            rest = total(i + 2)
            ctx.ob("%s: %#x size field equals the bytes that follow" % (f.path, code), equal(v, rest),
                   "%s: %s announces %s bytes after the size field but writes %s" % (where, f.path, v, rest),
                   "sizefield:%s:%#x" % (f.path, code))
            if w == 1:
                ctx.ob("%s: %#x size fits one byte" % (f.path, code), box.eval(v)[1] <= 255 or
                       box.implies_le0(v - Lin(c=255)),
                       "%s: %s writes size %s into one byte although nothing bounds it by 255" % (where, f.path, v),
                       "fits:%s:%#x" % (f.path, code))
            c = Z.conv(items[i + 2].val)
            els = elements(i + 3)
            if not any(x.kind == "slice" for x in els):
                ctx.ob("%s: %#x count equals the elements that follow" % (f.path, code), equal(c, Lin(c=len(els))),
                       "%s: %s announces %s elements but writes %d" % (where, f.path, c, len(els)),
                       "count:%s:%#x" % (f.path, code))
        elif code in VARIABLE:
            w = VARIABLE[code]
            stats["length headers"] = stats.get("length headers", 0) + 1
            ok = len(items) > i + 2 and items[i + 1].kind == "put" and items[i + 1].width == w
            ctx.ob("%s: %#x has a %d-byte length and a payload" % (f.path, code, w), ok,
                   "%s: %s writes variable-width code %#x without a %d-byte length followed by the data" % (
                       where, f.path, code, w), "header:%s:%#x" % (f.path, code))
            if not ok:
                continue
            v = Z.conv(items[i + 1].val)
            ctx.ob("%s: %#x length equals the data" % (f.path, code), equal(v, items[i + 2].size),
                   "%s: %s announces %s bytes but writes %s" % (where, f.path, v, items[i + 2].size),
                   "sizefield:%s:%#x" % (f.path, code))
            if w == 1:
                ctx.ob("%s: %#x length fits one byte" % (f.path, code), box.eval(v)[1] <= 255 or
                       box.implies_le0(v - Lin(c=255)),
                       "%s: %s writes length %s into one byte although nothing bounds it by 255" % (where, f.path, v),
                       "fits:%s:%#x" % (f.path, code))


def c05(ctx):
    F = ctx.F
    Z = Sizes(ctx)
    stats = {}
    pairs = {}
    for f in F.fns.values():
        if f.kind == "Closure" or not f.impl_trait:
            continue
        if f.impl_trait in (CODEC + "codec::Encode", CODEC + "codec::ArrayEncode"):
            pairs.setdefault((f.impl_trait, f.path.rsplit("::", 1)[0]), {})[f.name] = f
    ctors = {}
    for c in F.consts:
        if c.name == "ARRAY_CONSTRUCTOR" and c.impl_trait:
            r = [p.ret for p in ctx.engine().run(c)]
            if len(r) == 1 and r[0].k == "A" and r[0].a[1] == "FormatCode" and r[0].a[2][0][1].k == "C":
                ctors[c.path.rsplit("::", 1)[0]] = r[0].a[2][0][1].a[0]
    ncmp = 0
    for (tr, imp), d in sorted(pairs.items()):
        arr = tr.endswith("ArrayEncode")
        fs, fe = d.get("array_encoded_size" if arr else "encoded_size"), d.get("array_encode" if arr else "encode")
        if fs is None or fe is None:
            continue
        sizes = []
        for p in engine(ctx).run(fs):
            if p.out != "ret":
                continue
            r = p.ret
            base = r
            if base.k in ("F", "X") and is_cache(F, base):
                stats["cached size results"] = stats.get("cached size results", 0) + 1
                continue
            sizes.append((norm_facts(Z, p.state.facts), Z.conv(r)))
        encs, unknown = encode_items(ctx, Z, fe, 2)
        for n, l in unknown:
            ctx.bad("effect:%s:%s" % (fe.path, n), "%s:%d %s changes the output buffer through %s, whose effect on the "
                    "length is not known" % (fe.file, l, fe.path, n))
        if not sizes or not encs:
            ctx.bad("empty:" + imp, "no path through %s could be followed" % imp)
            continue
        for p, items in encs:
            fe_facts = norm_facts(Z, p.state.facts)
            total = Lin()
            for it in items:
                total = total + it.size
            own = box_of(Z, fe_facts)
            if own.dead:
                continue
            check_headers(ctx, Z, fe, fe_facts, items, own, stats, ctors.get(imp) if arr else None)
            if not arr and items and items[0].kind == "put" and items[0].width == 4:
                # a frame: size, data offset, type, channel, body
                stats["frame headers"] = stats.get("frame headers", 0) + 1
                where = "%s:%d %s" % (fe.file, items[0].line, fe.path)
                for fs_facts, size in sizes:
                    if not compatible(fs_facts, fe_facts):
                        continue
                    box = box_of(Z, fs_facts, fe_facts)
                    if box.dead:
                        continue
                    v = Z.conv(items[0].val)
                    for a in list(v.m):
                        if a.k == "X" and a.a[0] == "S" and a.a[1][0].k == "P":
                            k = v.m[a]
                            v = v - Lin({a: k}) + size.scale(k)
                    ctx.ob("%s: frame size field equals the frame" % imp, eq_lin(box, v, total),
                           "%s announces a frame of %s bytes but writes %s" % (where, v, total), "framesize:" + imp)
                head = Lin()
                for it in items:
                    if it.kind != "put":
                        break
                    head = head + it.size
                dv = items[1].val
                ok = len(items) > 2 and items[1].width == 1 and dv.k in ("C", "cast", "B") and \
                    Z.conv(dv).const() is not None and head.const() == 4 * Z.conv(dv).const()
                ctx.ob("%s: data offset equals the header" % imp, ok,
                       "%s writes a %s-byte frame header but data offset %s words" % (where, head, dv), "doff:" + imp)
            hit = False
            for fs_facts, size in sizes:
                if not compatible(fs_facts, fe_facts):
                    continue
                box = box_of(Z, fs_facts, fe_facts)
                if box.dead:
                    continue
                hit = True
                ncmp += 1
                dlt = size - total
                eq = box.implies_le0(dlt) and box.implies_le0(dlt.scale(-1))
                ctx.ob("%s: announced size equals bytes written" % imp, eq,
                       "%s:%d %s announces %s bytes but %s writes %s (%s)" % (
                           fs.file, fs.line, fs.path, size, fe.path, total,
                           ", ".join("%s %s" % (show(t), f) for t, f in list(fe_facts.items())[:4])),
                       "size:" + imp)
            if not hit:
                ctx.bad("nomatch:" + imp, "%s: no size result corresponds to a path of the encoder" % imp)
        ctx.sample(imp)
    ctx.floor("encoder pairs", len(pairs), 80)
    ctx.floor("path pairs compared", ncmp, 300)
    ctx.floor("compound headers", stats.get("compound headers", 0), 100)
    ctx.floor("frame headers", stats.get("frame headers", 0), 2)
    ctx.floor("length headers", stats.get("length headers", 0), 12)
    ctx.count("cached size results", stats.get("cached size results", 0))


def is_cache(F, t):
    for x in walk(t):
        if x.k == "F":
            a = F.adts.get(x.a[1][0])
            for v in a["variants"] if a else ():
                for f in v["fields"]:
                    if f["name"] == x.a[1][2] and f["ty"]["s"].startswith("core::cell::Cell<usize>"):
                        return True
    return False
