"""C08: mutators of a message reset its cached encoded size."""
from absint import *

INNER = "ntex_amqp_codec::message::message::MessageInner"


def top_field(root, path):
    """first field of the message's inner struct designated by a place"""
    for f in path:
        if f[0] == INNER:
            return f[2]
    t = root[1] if root[0] == "H" else None
    while t is not None:
        if t.k == "F":
            if t.a[1][0] == INNER:
                return t.a[1][2]
            t = t.a[0]
        elif t.k == "W":
            t = t.a[0]
        elif t.k == "X" and t.a[1] and isinstance(t.a[1][0], Term):
            t = t.a[1][0]
        else:
            return None
    return None


def fields_of(term):
    """inner fields some reference inside a value designates"""
    out = set()
    for t in walk(term):
        if t.k == "&":
            f = top_field(t.a[0], t.a[1])
            if f:
                out.add(f)
            elif t.a[0][0] == "H" and not any(p[0] == INNER for p in t.a[1]):
                out.add("*whole*")
    return out


def c08(ctx):
    F = ctx.F
    adt = F.adts.get(INNER)
    if adt is None:
        return ctx.bad("anchor:MessageInner", "type MessageInner not found")
    flds = [f for v in adt["variants"] for f in v["fields"]]
    caches = [f["name"] for f in flds if f["ty"]["s"].startswith("core::cell::Cell<usize>")]
    enc = [f for f in F.fns.values() if f.impl_trait and f.impl_trait.endswith("Encode") and
           f.impl_self and f.impl_self["h"] == "ntex_amqp_codec::message::message::Message" and not f.impl_trait.endswith("ArrayEncode")]
    size = [f for f in enc if f.name == "encoded_size"]
    wr = [f for f in enc if f.name == "encode"]
    ctx.floor("encoder functions", len(size) + len(wr), 2)
    read = set()
    E = ctx.engine()
    for f in wr:
        for c in F.closure_tree(f):
            for b in c.blocks:
                for s in b["s"]:
                    for pl in places(s):
                        for e in pl[1:]:
                            if isinstance(e, list) and e[0] == "f" and e[1] == INNER:
                                read.add(e[3])
    ctx.floor("content fields read by the encoder", len(read), 7)
    if not caches:
        ctx.count("cache", 0)
        ctx.ob("the encoded size is not cached", True)
        return
    cache = caches[0]

    def hook(E, st, e):
        if e.kind in ("write", "mutate"):
            p = e.args[0]
            if p.k == "&":
                f = top_field(p.a[0], p.a[1])
                if f:
                    e.x = f
                    return e
        return None
    n = 0
    for f in F.fns.values():
        if not (f.eff_pub and f.impl_self and f.impl_trait is None and f.argc >= 1 and
                f.impl_self["h"] in ("ntex_amqp_codec::message::message::Message", INNER)):
            continue
        sty = f.locals[1]["s"]
        if f.names.get(1) != "self":
            continue
        if sty.startswith("&") and not sty.startswith("&mut"):
            continue
        n += 1
        rt = f.locals[0]["s"]
        E = ctx.engine(hook)
        for p in E.run(f):
            if p.out != "ret":
                continue
            sets = [e for e in p.events if e.x == cache and e.kind == "write"]
            reset = bool(sets) and sets[-1].args[1].k == "C" and sets[-1].args[1].a[0] == 0
            touched = sorted({e.x for e in p.events if e.x in read})
            if "&mut" in rt:
                out = fields_of(p.ret)
                touched += sorted(x for x in out if x in read)
            ok = reset or not touched
            ctx.ob("%s: change of %s resets the cached size" % (f.name, ",".join(touched) or "nothing"), ok,
                   "%s:%d %s changes or hands out message field(s) %s on a path that does not reset the cached "
                   "encoded size" % (f.file, f.line, f.path, ", ".join(touched)), "stale-size:" + f.name)
        ctx.sample(f.path)
    ctx.floor("public mutating methods", n, 12)


def places(s):
    yield s[1]
    if s[0] != "=":
        return
    rv = s[2]
    if rv[0] in ("ref", "discr"):
        yield rv[1]
    for x in rv[1:]:
        if isinstance(x, dict):
            for k in ("c", "m"):
                if k in x:
                    yield x[k]
    if rv[0] == "agg":
        for _, o in rv[4]:
            for k in ("c", "m"):
                if k in o:
                    yield o[k]
