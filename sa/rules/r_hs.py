"""H01 - H03: what has happened before a connection is served."""
from mainlib import *
from r_snd import uncast, within_field
from r_rcv import some
from r_end import names_of, where, is_err, is_ok, variants

SEND, RECV = ("Io::send",), ("Io::recv",)
CI = "ConnectionInner"
CFG = "AmqpServiceConfig"
HDR, AMQP, SASL = "header", "frame", "sasl"


def missing(s):
    raise __import__("check").Missing(s)


def afn(ctx, adt, name):
    """async functions `name` of the type (several impls are possible)"""
    l = [g for g in ctx.F.fns.values() if g.isasync and g.crate == "ntex_amqp" and g.name == name and self_type(g) == adt]
    if not l:
        missing("async %s::%s" % (adt, name))
    return sorted(l, key=lambda g: (g.line, g.path))


def hook(E, st, e):
    if e.kind == "call":
        s = short(e.name)
        if s not in SEND + RECV + ENC and not (s == "Dispatcher::new" and e.name.startswith("ntex_dispatcher")) and \
                s not in ("Pipeline::call", "PipelineBinding::call"):
            return None
    elif e.kind not in ("alloc", "timed", "timed-end", "timeout", "await"):
        return None
    e.args = tuple(E.deepval(st, a) if a is not None else a for a in e.args)
    return e


def paths(ctx, f, **kw):
    E, ps = runp(ctx, f, hook, live=False, opaque=lambda g: (g.impl_trait or "").endswith("Drop"), pin=[("await", ""), ("Connect", "sasl")], max_paths=100000, **kw)
    return [p for p in ps if p.out == "ret"]


class Step:
    """one exchange with the peer (or with the handshake service)"""
    dir = what = None       # send | recv | service ; header:Amqp, frame:Open, sasl:SaslInit
    kind = None
    code = None
    got = None              # the awaited result term
    ok = None


def root_chain(t):
    out = []
    while t.k in ("F", "W"):
        if t.k == "F":
            out.append(t.a[1][2])
            t = t.a[0]
        else:
            t = t.a[0]
    return t, out[::-1]


PROTO = {"Amqp", "AmqpSasl", "AmqpTls"}


def kinds(ctx):
    return {HDR: set(variants(ctx, "ProtocolId")), AMQP: set(cvariants(ctx, "::Frame")), SASL: set(cvariants(ctx, "SaslFrameBody")), "code": set(cvariants(ctx, "SaslCode"))}


def cvariants(ctx, name):
    l = [a for k, a in ctx.F.adts.items() if k.endswith(name)]
    if not l:
        missing("type " + name)
    return [v["name"] for v in l[0]["variants"]]


def codec_kind(e, codec):
    """which layer an exchange belongs to: by the type of its codec"""
    ts = [x["s"] for x in (e.c or {}).get("targs", [])]
    s = " ".join(ts)
    return HDR if "ProtocolIdCodec" in s else SASL if "SaslFrame" in s else AMQP if "AmqpFrame" in s else None


def value(p, t, names):
    """variant of a value: spelt out, or known on the path"""
    if t is None:
        return None
    if t.k == "A" and t.a[1] in names:
        return t.a[1]
    if t.k == "C" or t.k == "O":
        return None
    x = p.state.facts.get(t)
    if x is not None and x[0] == "is" and x[1] in names:
        return x[1]
    for c, v in p.state.facts.items():
        if c.k == "B" and c.a[0] in ("Eq", "Ne") and v[0] == "eq" and t in (c.a[1], c.a[2]):
            o = c.a[1] if c.a[2] is t else c.a[2]
            if bool(v[1]) == (c.a[0] == "Eq") and o.k == "A" and o.a[1] in names:
                return o.a[1]
    return None


def steps(ctx, p):
    K = kinds(ctx)
    out = []
    timed = 0
    for e in p.events:
        if e.kind == "timed":
            timed += 1
            cur = e.args[0]
            out.append(("timed", e))
            continue
        if e.kind == "timed-end":
            out.append(("untimed", e))
            continue
        if e.kind == "timeout":
            out.append(("timeout", e))
            continue
        if e.kind == "await":
            v = e.args[0]
            while v.k == "W":
                v = v.a[0]
            if v.k == "X" and v.a[0].startswith("ntex_io::") and short(v.a[0]) not in SEND + RECV:
                out.append(("wait", v))
        if e.kind != "call":
            continue
        s = Step()
        s.e = e
        nm = short(e.name)
        if nm in SEND:
            s.dir = "send"
        elif nm in RECV:
            s.dir = "recv"
        elif nm in ENC:
            s.dir = "send"
        elif nm in ("Pipeline::call", "PipelineBinding::call"):
            s.dir = "service"
        else:
            s.dir = "start"
            out.append((s.dir, s))
            continue
        facts = p.state.facts.items()
        A = None
        for t, x in facts:
            if t.k == "X" and t.a[0] == "await" and t.a[1] and t.a[1][0].k == "X" and t.a[1][0].a[2] == e.uid:
                A = t
                n = names_of(x)
                if n and n <= {"Ok", "Err"}:
                    s.ok = (x == ("is", "Ok")) or x[0] == "not" and "Err" in x[1]
        s.got = A
        s.kind = codec_kind(e, e.args[-1])
        if nm in ENC:
            s.ok = True
        if s.dir == "send":
            v = e.args[1]
            if s.kind == HDR:
                s.what = value(p, v, K[HDR])
            elif s.kind == AMQP:
                s.what = frame(e)[1]
                s.channel = frame(e)[0]
            elif s.kind == SASL:
                b = part(v, "body")
                s.what = value(p, b, K[SASL]) if b is not None else None
                c = part(b.a[2][0][1], "code") if b is not None and b.k == "A" and b.a[2] else None
                s.code_term = c
                s.code = value(p, c, K["code"]) if c is not None else None
        elif s.dir == "recv":
            s.what = "nothing"
            if A is not None:
                for t, x in facts:
                    r, ch = root_chain(t)
                    if r is not A or not ch:
                        continue
                    n = names_of(x)
                    if len(ch) == 1 and n and n <= {"Some", "None"}:
                        some_ = x == ("is", "Some") or x[0] == "not" and "None" in x[1]
                        s.what = "anything" if some_ and s.what == "nothing" else s.what if some_ else "nothing"
                for t, x in facts:
                    r, ch = root_chain(t)
                    if r is not A or len(ch) < 2 or s.kind is None:
                        continue
                    n = names_of(x)
                    if n and "code" in ch and n <= K["code"]:
                        s.code = x[1] if x[0] == "is" else "other"
                        s.code_term = t
                    elif n and n <= K[s.kind] and s.what != "nothing":
                        if x[0] == "is":
                            s.what = x[1]
                        elif s.what == "anything":
                            s.what = "other"
                for t, x in facts:
                    # comparisons with a value
                    if t.k == "B" and t.a[0] in ("Eq", "Ne") and x[0] == "eq":
                        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                            r, ch = root_chain(a)
                            if r is A and b.k == "A" and s.kind and b.a[1] in K[s.kind] and s.what in ("anything", "other"):
                                s.what = b.a[1] if bool(x[1]) == (t.a[0] == "Eq") else "other"
        out.append((s.dir, s))
    return out


def tell(sq):
    return ", ".join("%s %s%s" % (s.dir, s.what or "?", "" if s.code is None else "(%s)" % s.code) for d, s in sq) or "nothing"


def follows(ctx, key, w, p, sq, want, done):
    """the exchanges of the path are the wanted ones, in order; one that does not go as wanted is the last one.
    True: all of them happened"""
    for i, (d, s) in enumerate(sq):
        if i >= len(want):
            ctx.ob(key + ":more", False, "%s: goes on with the peer after the handshake: %s" % (w, tell(sq)))
            return False
        wd, wk, ww, wc = want[i]
        if not ctx.ob(key + ":order", d == wd and s.kind == wk or d == "service" == wd, "%s: exchange %d of the handshake is '%s %s %s', not '%s %s %s' (%s)" % (
                w, i + 1, d, s.kind, s.what, wd, wk, "/".join(ww), tell(sq))):
            return False
        if d == "send" and not ctx.ob(key + ":sends", s.what in ww, "%s: sends %s where %s has to be sent" % (w, s.what, "/".join(ww))):
            return False
        good = s.ok is True and (d != "recv" or s.what in ww or "anything" in ww and s.what not in ("nothing",)) and (wc is None or s.code == wc)
        if not good:
            last_ = i == len(sq) - 1
            ctx.ob(key + ":ends", last_ and not done, "%s: the handshake goes on although %s" % (
                w, "sending %s failed or was not looked at" % s.what if d == "send" else "the handshake service failed" if d == "service" else
                "the peer sent %s%s instead of %s" % (s.what, "" if s.code is None else " (%s)" % s.code, "/".join(ww))))
            return False
    full = len(sq) == len(want)
    if done:
        ctx.ob(key + ":complete", full, "%s: the connection is used after only: %s" % (w, tell(sq)))
    return full


def talk(sq):
    return [(d, s) for d, s in sq if d in ("send", "recv", "service")]


PLAIN = [("send", HDR, {"Amqp"}, None), ("recv", HDR, {"Amqp"}, None), ("send", AMQP, {"Open"}, None), ("recv", AMQP, {"Open"}, None)]
WITH_SASL = [("send", HDR, {"AmqpSasl"}, None), ("recv", HDR, {"AmqpSasl"}, None), ("recv", SASL, {"SaslMechanisms", "anything"}, None),
             ("send", SASL, {"SaslInit"}, None), ("recv", SASL, {"SaslOutcome"}, "Ok")]


def client_roots(ctx):
    return [(f, "plain") for f in afn(ctx, "ConnectorService", "negotiate")] + [(f, "sasl") for f in afn(ctx, "ConnectorService", "negotiate_sasl")] + \
        [(f, "either") for f in afn(ctx, "ConnectorService", "call")]


def wants_sasl(p):
    """was the request made with credentials"""
    for t, x in p.state.facts.items():
        if t.k == "F" and t.a[1][2] == "sasl":
            n = names_of(x)
            if n and n <= {"Some", "None"}:
                return x == ("is", "Some") or x[0] == "not" and "None" in x[1]
    return None


def of_open(t, field, A=None):
    """the value is this field of the open frame that was received"""
    t = uncast(t)
    r, ch = root_chain(t)
    if t.k == "W":
        t = t.a[0]
    return r.k == "X" and r.a[0] == "await" and (A is None or r is A) and "Open" in show(t).split(".") + [a for a in [q.a[1][1] for q in terms_f(t)] if a] and field in ch


def terms_f(t):
    out = []
    while t.k in ("F", "W"):
        if t.k == "F":
            out.append(t)
        t = t.a[0]
    return out


LIMITS = ("max_frame_size", "channel_max")


def limits(ctx, key, w, p, A):
    """the connection is made with the limits of the open frame of the peer"""
    n = 0
    for e in p.events:
        if e.kind != "alloc" or e.args[1].k != "A" or e.args[1].a[0].split("::")[-1] != CI:
            continue
        n += 1
        mf, cm = part(e.args[1], "max_frame_size"), part(e.args[1], "channel_max")
        ctx.ob(key + ":max-frame-size", mf is not None and of_open(mf, "max_frame_size", A), "%s: the frame size the connection keeps to is not the one the peer announced" % w)
        ok = cm is not None and (cm.k == "X" and cm.a[0].split("::")[-1] == "min" and len(cm.a[1]) == 2 and any(of_open(a, "channel_max", A) for a in cm.a[1]) and
                                 any(adt_field(uncast(a)) == (CFG, "channel_max") for a in cm.a[1]) or lesser(p, cm, A))
        ctx.ob(key + ":channel-max", ok, "%s: the channel limit of the connection is not the smaller of ours and the one the peer announced" % w)
    ctx.ob(key + ":connection", n == 1, "%s: %d connections are made of one handshake" % (w, n))


def lesser(p, t, A):
    """the value is one of the two limits and known not to be above the other"""
    mine = adt_field(uncast(t)) == (CFG, "channel_max")
    if not mine and not of_open(t, "channel_max", A):
        return False
    for c, v in p.state.facts.items():
        if c.k == "B" and c.a[0] in ("Lt", "Le", "Gt", "Ge") and v[0] == "eq":
            op, a, b = c.a
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            # a op b holds iff v[1]
            lo, hi = (a, b) if v[1] else (b, a)
            if uncast(lo) is uncast(t) and (of_open(hi, "channel_max", A) if mine else adt_field(uncast(hi)) == (CFG, "channel_max")):
                return True
    return False


def h01(ctx):
    client(ctx, True)
    server(ctx)
    states(ctx)
    ctx.floor("functions of the handshake", len(ctx.fns), 20)


def client(ctx, plain):
    """H01 looks at the AMQP part of a client's handshake, H02 at the SASL part before it"""
    n = {"established": 0, "given up": 0, "with sasl": 0, "without sasl": 0}
    for f, how in client_roots(ctx):
        w = where(f)
        key = "client:" + f.name + ("" if how != "either" else "")
        for p in paths(ctx, f):
            if is_err(p.ret):
                done = False
            elif is_ok(p.ret):
                done = True
            else:
                ctx.bad(key + ":result", "%s: the outcome of the handshake is not decided" % w)
                continue
            sq = talk(steps(ctx, p))
            sq = [(d, s) for d, s in sq if d != "service"]
            sasl = {"plain": False, "sasl": True}.get(how, wants_sasl(p))
            if sasl is None:
                if plain:
                    ctx.ob(key + ":chosen", not sq and not done, "%s: exchanges with the peer without looking whether there are credentials" % w)
                continue
            n["with sasl" if sasl else "without sasl"] += 1
            want = (WITH_SASL if sasl else []) + PLAIN
            full = follows(ctx, key, w, p, sq, want, done)
            n["established" if done else "given up"] += 1
            if done and full and plain:
                cl = [t for t in walk(p.ret) if t.k == "A" and t.a[0].split("::")[-1] == "Client"]
                ctx.ob(key + ":client", len(cl) == 1, "%s: a finished handshake gives no client" % w)
                A = sq[-1][1].got
                limits(ctx, key, w, p, A)
                for c in cl[:1]:
                    remote(ctx, key, w, p, part(c, "remote_config"), A)
                    ctx.ob(key + ":same-io", part(c, "io") is not None and part(c, "io") is base(sq[-1][1].e.args[0]), "%s: the client does not go on with the stream of the handshake" % w)
            for d, s in sq:
                if s.dir == "send" and s.kind == AMQP:
                    ctx.ob(key + ":open-channel", getattr(s, "channel", None) is C(0), "%s: open is not sent on channel 0" % w)
                if s.dir == "recv" and s.kind == SASL and s.code == "other" and s.code_term is not None and not plain:
                    ctx.ob(key + ":outcome-told", any(t.k == "A" and t.a[1] == "Sasl" and t.a[2] and t.a[2][0][1] is s.code_term for t in walk(p.ret)),
                           "%s: a refused authentication is not returned with its code" % w)
    for k, v in n.items():
        ctx.floor("client handshakes " + k, v, 3)


def base(t):
    return t


def remote(ctx, key, w, p, rc, A):
    """the settings of the peer are those of its open frame"""
    if rc is None or rc.k != "A":
        ctx.bad(key + ":remote", "%s: the settings of the peer are not taken from its open frame" % w)
        return
    d = dict(rc.a[2])
    for k in LIMITS:
        ctx.ob(key + ":remote:" + k, k in d and of_open(d[k], k, A), "%s: %s of the peer is not the one in its open frame" % (w, k))
    idle = d.get("idle_time_out")
    if idle is not None and idle is C(0):
        ok = any(within_name(t, "idle_time_out") and names_of(x) and (x == ("is", "None") or x[0] == "not" and "Some" in x[1]) for t, x in p.state.facts.items())
    else:
        ok = idle is not None and (of_open(idle, "idle_time_out", A) or idle.k == "X" and idle.a[0].split("::")[-1] in ("unwrap_or", "unwrap_or_default") and of_open(idle.a[1][0], "idle_time_out", A)
                                   and (len(idle.a[1]) < 2 or idle.a[1][1] is C(0)))
    ctx.ob(key + ":remote:idle_time_out", ok, "%s: the idle timeout of the peer is not the one in its open frame" % w)


def within_name(t, field):
    return t.k == "F" and t.a[1][2] == field


# ---- server ----------------------------------------------------------------------------------------------------
SERVER = [("recv", HDR, {"Amqp", "AmqpSasl"}, None), ("send", HDR, {"Amqp", "AmqpSasl"}, None), ("service", None, {""}, None), ("send", AMQP, {"Open"}, None)]


def server_roots(ctx):
    return afn(ctx, "ServerHandler", "call")


def server(ctx):
    n = {"served": 0, "refused": 0, "Amqp": 0, "AmqpSasl": 0}
    for f in server_roots(ctx):
        w = where(f)
        key = "server"
        for p in paths(ctx, f):
            sq = steps(ctx, p)
            start = [s for d, s in sq if d == "start"]
            # nothing is exchanged with the peer by the handshake after the connection is served
            tk = talk(sq)
            full = follows(ctx, key, w, p, tk, SERVER, bool(start))
            n["served" if start else "refused"] += 1
            ctx.ob(key + ":started-once", len(start) <= 1, "%s: a connection is served twice" % w)
            if start:
                ctx.ob(key + ":last", sq[-1][0] == "start", "%s: the connection is served before the handshake is over" % w)
            elif not is_err(p.ret):
                ctx.bad(key + ":refused", "%s: a connection that is not served is no error" % w)
            if len(tk) >= 2 and tk[0][1].what in ("Amqp", "AmqpSasl"):
                ctx.ob(key + ":same-header", tk[1][1].what == tk[0][1].what, "%s: header %s is answered with %s" % (w, tk[0][1].what, tk[1][1].what))
            if len(tk) >= 3:
                a = tk[2][1].e.args[1]
                proto = tk[0][1].what
                hs = {"Amqp": "Amqp", "AmqpSasl": "Sasl"}.get(proto)
                n[proto] = n.get(proto, 0) + 1
                ctx.ob(key + ":handshake-kind", a.k == "A" and a.a[0].endswith("::Handshake") and a.a[1] == hs, "%s: the handshake service of a peer that asked for %s is given %s" % (
                    w, proto, a.a[1] if a.k == "A" else show(a)[:60]))
                io = tk[0][1].e.args[0]
                ctx.ob(key + ":handshake-io", contains(a, lambda y: y is io), "%s: the handshake service gets another stream" % w)
            if full and start:
                s = start[0]
                A = tk[2][1].got
                ctx.ob(key + ":acknowledged", A is not None and within(s.e.args[0], A) and within(s.e.args[2], A), "%s: the connection that is served is not the one the handshake service acknowledged" % w)
                ctx.ob(key + ":open-stream", A is not None and within(tk[3][1].e.args[0], A), "%s: open is not sent to the peer that was acknowledged" % w)
                ctx.ob(key + ":open-channel", getattr(tk[3][1], "channel", None) is C(0), "%s: open is not sent on channel 0" % w)
                d = s.e.args[2]
                sink = part(d, "sink")
                ctx.ob(key + ":sink", sink is not None and A is not None and within(sink, A), "%s: the dispatcher works on another connection" % w)
    for k, v in n.items():
        ctx.floor("server handshakes " + k, v, 2)


# the states of a handshake: type -> (types it is made of, exchanges in between)
CHAIN = {
    "SaslInit": [("Sasl", [("send", SASL, {"SaslMechanisms"}, None), ("recv", SASL, {"SaslInit"}, None)])],
    "SaslResponse": [("SaslInit", [("send", SASL, {"SaslChallenge"}, None), ("recv", SASL, {"SaslResponse"}, None)]),
                     ("SaslResponse", [("send", SASL, {"SaslChallenge"}, None), ("recv", SASL, {"SaslResponse"}, None)])],
    "SaslSuccess": [("SaslInit", [("send", SASL, {"SaslOutcome"}, "Ok")]), ("SaslResponse", [("send", SASL, {"SaslOutcome"}, "Ok")])],
    "HandshakeAmqpOpened": [("HandshakeAmqp", [("recv", AMQP, {"Open"}, None)]),
                            ("SaslSuccess", [("recv", HDR, {"Amqp"}, None), ("send", HDR, {"Amqp"}, None), ("recv", AMQP, {"Open"}, None)])],
    "HandshakeAck": [("HandshakeAmqpOpened", [])],
}
MODULE = "ntex_amqp::server::"


def self_type(f):
    return ((f.impl_self or {}).get("s") or "").split("<")[0].split("::")[-1]


def states(ctx, only=None):
    """every value of a handshake state is made from its predecessor, by the exchange that belongs between them"""
    F = ctx.F
    chain = {k: v for k, v in CHAIN.items() if only is None or k in only}
    froms = {x for v in CHAIN.values() for x, _ in v}
    fns = [f for f in F.fns.values() if f.crate == "ntex_amqp" and self_type(f) in froms and not f.impl_trait and not f.derived and f.kind != "closure" and
           f.argc and f.locals[1]["s"].split("<")[0].split("::")[-1] == self_type(f)]
    n = dict.fromkeys(chain, 0)
    saw = set()
    for f in fns:
        w = where(f)
        src = self_type(f)
        for p in paths(ctx, f):
            made = {t.a[0].split("::")[-1] for t in walk(p.ret) if t.k == "A" and t.a[0].startswith(CR)} & set(CHAIN)
            if src in made:
                continue
            sq = [(d, s) for d, s in talk(steps(ctx, p)) if d != "service"]
            if not made:
                if sq and any(src == x for v in chain.values() for x, _ in v):
                    # a step that was begun and not finished: where it stopped is the last thing that happened
                    for want in next_of(src, sq):
                        follows(ctx, "state:%s:%s" % (src, f.name), w, p, sq, want, False)
                        break
                continue
            for m in made & set(chain):
                saw.add(f.id)
                n[m] += 1
                hows = [x for y, x in CHAIN[m] if y == src]
                if not hows:
                    ctx.bad("state:%s-of-%s" % (m, src), "%s: makes a %s out of a %s" % (w, m, src))
                    continue
                follows(ctx, "state:%s:%s" % (src, f.name), w, p, sq, hows[0], True)
                for t in walk(p.ret):
                    if t.k == "A" and t.a[0].split("::")[-1] == m:
                        io = part(t, "state")
                        ctx.ob("state:%s:io" % m, io is not None and adt_field(io) == (src, "state"), "%s: the stream of the handshake changes" % w)
                        for d, s in sq:
                            ctx.ob("state:%s:same-io" % m, s.e.args[0] is io, "%s: exchanges with another stream" % w)
                if m == "HandshakeAmqpOpened":
                    A = sq[-1][1].got
                    limits(ctx, "state:" + src, w, p, A)
                    for t in walk(p.ret):
                        if t.k == "A" and t.a[0].split("::")[-1] == m:
                            remote(ctx, "state:" + src, w, p, part(t, "remote_config"), A)
    # nobody else makes one
    for m in chain:
        for g in makers(F, m):
            ok = g.id in ctx.fns and made_only_by(F, g, fns)
            ctx.ob("state:%s:makers" % m, ok, "%s: makes a %s outside of the handshake" % (where(g), m))
    for k, v in n.items():
        ctx.floor("ways to a " + k, v, 1)
    if only is None:
        for v in ("Amqp", "Sasl"):
            for g in aggregates(F, "Handshake", v):
                ctx.ob("state:Handshake:makers", not g.eff_pub or g.argc and self_type(g) == "Handshake" and False or not g.eff_pub, "%s: anyone can make a handshake" % where(g))


def makers(F, adt):
    """functions of this crate that build a value of the type"""
    out = []
    for f in F.fns.values():
        if f.crate == "ntex_amqp" and any(s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].startswith(CR) and s[2][2].split("::")[-1] == adt
                                         for b in f.blocks for s in b["s"]):
            out.append(f)
    return sorted(out, key=lambda f: f.path)


def next_of(src, sq):
    out = []
    for m, v in CHAIN.items():
        for x, want in v:
            if x == src and want and want[0][0] == sq[0][1].dir and want[0][1] == sq[0][1].kind and (sq[0][0] == "recv" or sq[0][1].what in want[0][2]):
                out.append([(a, b, c, None if i == 0 and m == "SaslSuccess" and sq[0][1].code != "Ok" and False else d) for i, (a, b, c, d) in enumerate(want)])
    return out


def made_only_by(F, g, fns):
    """the function is one of the analysed steps, or a helper only they call (directly)"""
    top = {f.id for f in fns}
    g0 = g
    while g0.parent and g0.parent in F.fns:
        g0 = F.fns[g0.parent]
    if g0.id in top:
        return True
    if g0.eff_pub:
        return False
    for h in F.fns.values():
        for b in h.blocks:
            c = F.callee(b["t"]) if b["t"] and b["t"][0] == "call" else None
            if c and g0.id in (c.get("id"), c.get("rid")):
                h0 = h
                while h0.parent and h0.parent in F.fns:
                    h0 = F.fns[h0.parent]
                if h0.id not in top and h0.id != g0.id:
                    return False
    return True


# ---- H02 ---------------------------------------------------------------------------------------------------------
def h02(ctx):
    client(ctx, False)
    states(ctx, ("SaslInit", "SaslResponse", "SaslSuccess", "HandshakeAmqpOpened"))
    # a peer that asked for SASL gets nothing but SASL
    n = 0
    for f in server_roots(ctx):
        w = where(f)
        for p in paths(ctx, f):
            tk = talk(steps(ctx, p))
            if len(tk) < 3 or tk[2][0] != "service" or tk[0][1].what != "AmqpSasl":
                continue
            n += 1
            a = tk[2][1].e.args[1]
            ctx.ob("server:sasl", a.k == "A" and a.a[1] == "Sasl", "%s: a peer that asked for SASL does not have to authenticate" % w)
    ctx.floor("server handshakes with SASL", n, 2)
    for g in makers(ctx.F, "HandshakeAmqp"):
        g0 = g
        while g0.parent and g0.parent in ctx.F.fns:
            g0 = ctx.F.fns[g0.parent]
        ctx.ob("server:no-shortcut", self_type(g0) not in ("Sasl", "SaslInit", "SaslResponse", "SaslSuccess"), "%s: leaves SASL without an outcome" % where(g))
        ctx.ob("server:no-public-shortcut", not g0.eff_pub, "%s: anyone can make a handshake without SASL" % where(g))


# ---- H03 ---------------------------------------------------------------------------------------------------------
def is_cfg(t, field):
    t = uncast(t)
    if t.k == "X" and t.a[0].split("::")[-1] in ("try_from", "from", "into") and len(t.a[1]) == 1:
        return is_cfg(t.a[1][0], field)
    return adt_field(t) == (CFG, field)


def sized(ctx, key, w, codec, field, what):
    m = part(codec, "max_size") if codec is not None else None
    ctx.ob(key, m is not None and is_cfg(m, field), "%s: %s is not limited to the configured size (%s)" % (w, what, show(m)[:60] if m is not None else show(codec)[:60]))


def h03(ctx):
    n = {"client waits": 0, "server waits": 0, "connections": 0, "sasl states": 0}
    roots = [(f, "client") for f, _ in client_roots(ctx)] + [(f, "server") for f in server_roots(ctx)]
    for f, side in roots:
        w = where(f)
        ps = paths(ctx, f)
        gave_up = 0
        for p in ps:
            depth = []
            begun = False
            for d, s in steps(ctx, p):
                if d == "timed":
                    depth.append(s.args[0])
                    begun = True
                elif d == "untimed":
                    if depth:
                        depth.pop()
                elif d == "timeout":
                    gave_up += 1
                    ctx.ob("timeout:ends:" + side, is_err(p.ret), "%s: a handshake that took too long is no error" % w)
                elif d == "wait":
                    n[side + " waits"] += 1
                    ctx.ob("timed:other:" + side, bool(depth), "%s: waits for %s outside of the handshake timeout" % (w, show(s)[:80]))
                elif d in ("send", "recv", "service"):
                    n[side + " waits"] += 1
                    ctx.ob("timed:" + side, any(is_cfg(x, "handshake_timeout") for x in depth), "%s: %s is not bounded by the handshake timeout" % (
                        w, "the handshake service" if d == "service" else "%s %s" % ("sending" if d == "send" else "waiting for", {HDR: "a protocol header", AMQP: "a frame", SASL: "a SASL frame"}.get(s.kind, "something"))))
                    if d == "recv" and s.kind in (AMQP, SASL):
                        sized(ctx, "size:%s:%s" % (side, s.kind), w, s.e.args[-1], "max_frame_size" if side == "client" else "max_size", "what is received during the handshake")
                elif d == "start":
                    n["connections"] += 1
                    sized(ctx, "size:server:connection", w, s.e.args[1], "max_size", "what is received on the connection")
                    A = [x.got for dd, x in steps(ctx, p) if dd == "service"]
                    idle = part(s.e.args[2], "idle_timeout")
                    ctx.ob("idle:server", idle is not None and bool(A) and A[0] is not None and within(idle, A[0]) and "idle_timeout" in str([q.a[1][2] for t in walk(idle) for q in [t] if q.k == "F"]),
                           "%s: the idle timeout of the peer is not handed to the dispatcher" % w)
            if side == "client" and is_ok(p.ret):
                for t in walk(p.ret):
                    if t.k == "A" and t.a[0].split("::")[-1] == "Client":
                        n["connections"] += 1
                        sized(ctx, "size:client:connection", w, part(t, "codec"), "max_frame_size", "what is received on the connection")
        ctx.ob("timeout:used:" + side, gave_up > 0, "%s: the handshake is not bounded in time" % w)
    # the steps a handshake service takes run inside of its call
    froms = {x for v in CHAIN.values() for x, _ in v}
    for f in [f for f in ctx.F.fns.values() if f.crate == "ntex_amqp" and self_type(f) in froms and not f.impl_trait and f.isasync]:
        w = where(f)
        for p in paths(ctx, f):
            for d, s in steps(ctx, p):
                if d == "recv" and s.kind in (AMQP, SASL):
                    c = s.e.args[-1]
                    if adt_field(c) in (("SaslInit", "codec"), ("SaslResponse", "codec")):
                        n["sasl states"] += 1
                        continue
                    sized(ctx, "size:%s:%s" % (self_type(f), f.name), w, c, "max_size", "what is received during the handshake")
            for t in walk(p.ret):
                if t.k == "A" and t.a[0].split("::")[-1] in ("SaslInit", "SaslResponse"):
                    c = part(t, "codec")
                    n["sasl states"] += 1
                    ok = c is not None and adt_field(c) in (("SaslInit", "codec"), ("SaslResponse", "codec"))
                    if not ok and c is not None and t.a[0].startswith(CR):
                        sized(ctx, "size:%s" % t.a[0].split("::")[-1], w, c, "max_size", "what is received during the handshake")
                if t.k == "A" and t.a[0].split("::")[-1] == "HandshakeAck":
                    n["acks"] = n.get("acks", 0) + 1
    # the idle timeout of an acknowledged connection is the peer's
    for f in [f for f in ctx.F.fns.values() if self_type(f) == "HandshakeAmqpOpened" and not f.impl_trait and f.crate == "ntex_amqp" and not f.isasync and f.kind != "closure"]:
        for p in paths(ctx, f):
            for t in walk(p.ret):
                if t.k == "A" and t.a[0].split("::")[-1] == "HandshakeAck":
                    n["acks"] = n.get("acks", 0) + 1
                    i = part(t, "idle_timeout")
                    ctx.ob("idle:ack", i is not None and from_remote_idle(i), "%s: the idle timeout of the peer is not kept for the dispatcher" % where(f))
    ctx.floor("acknowledged handshakes", n.pop("acks", 0), 1)
    # a client serves its connection with what the handshake has left
    for name in ("start", "start_default"):
        for f in afn(ctx, "Client", name):
            w = where(f)
            st = 0
            for p in paths(ctx, f):
                for d, s in steps(ctx, p):
                    if d != "start":
                        continue
                    st += 1
                    for i, fld in ((0, "io"), (1, "codec")):
                        ctx.ob("start:" + fld, adt_field(s.e.args[i]) == ("Client", fld), "%s: the connection is not served with the %s of the handshake" % (w, fld))
                    sk = part(s.e.args[2], "sink")
                    ctx.ob("start:sink", sk is not None and within_field(sk, ("Client", "connection")), "%s: the dispatcher works on another connection" % w)
                    idle = part(s.e.args[2], "idle_timeout")
                    ctx.ob("idle:client", idle is not None and from_remote_idle(idle), "%s: the idle timeout of the peer is not handed to the dispatcher" % w)
            ctx.floor("Client::%s serves" % name, st, 1)
    for k, v in n.items():
        ctx.floor(k, v, 2)
    # what is announced to the peer
    f = ctx.fn("AmqpServiceConfig::to_open")
    for p in paths(ctx, f):
        t = [t for t in walk(p.ret) if t.k == "A" and t.a[0].endswith("OpenInner")]
        if len(t) != 1:
            ctx.bad("announced", "%s: what is announced to the peer is not built here" % where(f))
            continue
        d = dict(t[0].a[2])
        for k in LIMITS:
            ctx.ob("announced:" + k, adt_field(uncast(d[k])) == (CFG, k), "%s: %s announced to the peer is not the configured one" % (where(f), k))
        i = d["idle_time_out"]
        zero = i.k == "A" and i.a[1] == "None"
        ctx.ob("announced:idle_time_out", zero and known_zero(p, (CFG, "idle_time_out")) or
               some(i) is not None and adt_field(uncast(some(i))) == (CFG, "idle_time_out"), "%s: the idle timeout announced to the peer is not the configured one" % where(f))
    # nothing else waits for the peer
    top = {f.id for f, _ in roots}
    for g in ctx.F.fns.values():
        if g.crate != "ntex_amqp":
            continue
        for b in g.blocks:
            c = ctx.F.callee(b["t"]) if b["t"] and b["t"][0] == "call" else None
            if c and short(c["path"]) in SEND + RECV:
                ctx.ob("timed:covered", g.id in ctx.fns, "%s: waits for the peer outside of the handshake" % where(g))


def known_zero(p, field):
    """the path is only taken when the (unsigned) field is zero"""
    for t, x in p.state.facts.items():
        if adt_field(uncast(t)) == field and x == ("eq", 0):
            return True
        if t.k != "B" or x[0] != "eq":
            continue
        op, a, b = t.a
        if adt_field(uncast(b)) == field:
            a, b, op = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if adt_field(uncast(a)) != field or b.k != "C":
            continue
        n, y = b.a[0], bool(x[1])
        if (op, n, y) in (("Eq", 0, True), ("Ne", 0, False), ("Gt", 0, False), ("Le", 0, True), ("Lt", 1, True), ("Ge", 1, False)):
            return True
    return False


def from_remote_idle(t):
    return any(x.k == "F" and adt_field(x) == ("RemoteServiceConfig", "idle_time_out") for x in walk(t))
