"""S01 - S05: events reach their service, a service's failure reaches the peer, keep-alive, the router."""
from mainlib import *
from r_snd import need, dot, truth, uncast, within_field, present
from r_rcv import some
from r_end import (SI, CI, SL, RL, LINKS, SERR, SFLAGS, SESSIONS, CERR, SLOT, NOTIFY, where, endspec, calls, names_of, variants, link_kinds, slot_of, slot_shape, slot_writes,
                   action_of, is_err, is_ok, before_present, sess_state, by_tail, ctl_kinds, co, turns, flag_known)
from r_conn import CSTATE, FRAME, on_frame, encs, kinds_of, was_normal, istrue, routed, confirmed

CALL = ("PipelineBinding::call", "Pipeline::call")
DSP = "Dispatcher"


def deref(t):
    """the value behind references, clones and copies"""
    while t is not None:
        if t.k == "&":
            if t.a[0][0] != "H" or t.a[1]:
                return t
            t = t.a[0][1]
        elif t.k == "F" and t.a[1][0] == "*":
            t = t.a[0]
        elif t.k == "X" and t.a[0].split("::")[-1] in ("deref", "cast", "clone", "copied", "cloned") and t.a[1]:
            t = t.a[1][-1]
        else:
            return t
    return t


def last_(t):
    return t.a[0].split("::")[-1]


def payload(t, v):
    """is the term (a clone of) payload i of variant v of the term t; gives i"""
    def go(y):
        y = deref(y)
        if y is not None and y.k == "F" and y.a[1][1] == v and y.a[0] is t:
            return y.a[1][2]
        # Box / Wrapper around it
        if y is not None and y.k == "A" and len(y.a[2]) == 1:
            return go(y.a[2][0][1])
        return None
    return go


def services(p):
    """(calls of the control service, calls of the publish service)"""
    c = [e for e in p.events if e.kind == "call" and short(e.name) in CALL]
    return [e for e in c if within_field(e.args[0], (DSP, "ctl_service"))], [e for e in c if within_field(e.args[0], (DSP, "service"))]


def control_frame(p, t):
    """(kind term, session term) of the control frame a term leads to"""
    for e in p.events:
        if e.kind == "alloc" and contains(t, lambda z: z is e.args[0]):
            return part(e.args[1], "kind"), part(e.args[1], "session")
    return None, None


def awaited(p, e):
    """the future of the call is driven to its end"""
    return any(x.kind == "await" and contains(x.args[0], lambda y: y.k == "X" and len(y.a) > 2 and y.a[2] == e.uid) for x in p.events)


# ---- S01 ------------------------------------------------------------------------------------------------------
ACT = {"Flow": ("Flow", None), "DetachSender": ("RemoteDetachSender", None), "DetachReceiver": ("RemoteDetachReceiver", "Detached"),
       "SessionEnded": ("RemoteSessionEnded", "DetachedAll"), "RemoteClose": ("ProtocolError", None), "AttachSender": ("AttachSender", None),
       "AttachReceiver": ("AttachReceiver", None)}
STOP = ("Encoder", "Decoder", "KeepAliveTimeout", "ReadTimeout", "Io")


def s01(ctx):
    for x in (("FrameInner", "kind"), ("FrameInner", "session"), (DSP, "ctl_service"), (DSP, "service"), (DSP, "ctl_fut"), CSTATE, CERR):
        need(ctx, *x)
    incoming(ctx)
    routed(ctx)
    emitted(ctx)
    local_events(ctx)
    announced(ctx)
    final(ctx)


def no_set_error(g):
    return g.path.endswith("SessionInner::set_error") or (g.impl_trait or "").endswith("Drop")


def is_body(t):
    t = deref(t)
    return t is not None and t is P("body")


def emitted(ctx):
    """the frame handlers ask for the application to be told"""
    kinds = link_kinds(ctx)
    f, ps = on_frame(ctx, "Flow", live=False)
    w = where(f)
    n = {"Flow": 0, "Detach": 0, "End": 0, "Close": 0}
    for p in ps:
        if before_present(p, CERR) is True or before_present(p, SERR) is True or sess_state(p, "Established") is not True:
            continue
        sl = slot_of(p)
        if sl is None:
            continue
        sh = slot_shape(ctx, p, sl[2], kinds)
        if not sh or not sh <= {("Left", "Established"), ("Left", "OpeningRemote")}:
            ctx.ob("Flow:state", bool(sh) and not sh & {("Left", "Established"), ("Left", "OpeningRemote")}, "%s: a Flow frame of a link is handled without looking at the state of the link" % w)
            continue
        n["Flow"] += 1
        a = action_of(p)
        ctx.ob("Flow:told", a is not None and a.a[1] == "Flow" and within(a.a[2][0][1], sl[2]) and is_body(a.a[2][1][1]), "%s: the application is not told of the Flow of a sender link (%s)" %
               (w, show(a)[:100] if a is not None else "no action"))
    f, ps = on_frame(ctx, "Detach", live=False, opaque=no_set_error)
    w = where(f)
    for p in ps:
        a = action_of(p)
        if a is None or a.a[1] not in ("DetachSender", "DetachReceiver"):
            continue
        n["Detach"] += 1
        sl = slot_of(p)
        ctx.ob("Detach:told", sl is not None and within(a.a[2][0][1], sl[2]) and is_body(a.a[2][1][1]), "%s: the application is told of a Detach with another frame or another link than the one received" % w)
    f, ps = on_frame(ctx, "End", live=False, opaque=no_set_error)
    w = where(f)
    for p in ps:
        if before_present(p, CERR) is True or sess_state(p, "Established") is not True:
            continue
        n["End"] += 1
        a = action_of(p)
        ctx.ob("End:told", a is not None and a.a[1] == "SessionEnded" and all_links(ctx, p, a.a[2][0][1]), "%s: the application is not told of the end of a session and all its links" % w)
    f, ps = on_frame(ctx, "Close", live=False, opaque=no_set_error)
    w = where(f)
    for p in ps:
        if before_present(p, CERR) is True or was_normal(p) is not True:
            continue
        n["Close"] += 1
        a = action_of(p)
        e = a.a[2][0][1] if a is not None and a.a[1] == "RemoteClose" else None
        ctx.ob("Close:told", e is not None and e.k == "A" and e.a[1] == "Closed" and contains(e, lambda y: y.k == "F" and y.a[1][2] == "error" and within(y, P("body"))),
               "%s: the application is not told that the peer closed the connection, with the peer's reason" % w)
    for k, v in n.items():
        ctx.floor(k + " frames that concern the application", v, 1)


def all_links(ctx, p, t):
    """the list is built from the session's link table and from no part of it only"""
    if not any(isq(y, LINKS) for y in walk(t)):
        return False
    return not contains(t, lambda y: y.k == "X" and last_(y) in ("skip", "take", "step_by", "nth", "take_while", "skip_while", "truncate", "pop", "map_while"))


def queued(p):
    """control frames put on the connection's queue: (event, kind term, session)"""
    out = []
    for e in calls(p.events, "VecDeque::push_back"):
        if e.args and contains(e.args[0], lambda y: y.k == "F" and y.a[1][2] == "pending" and "ControlQueue" in y.a[1][0]):
            out.append((e,) + control_frame(p, e.args[1]))
    return out


def then_woken(p, e):
    i = p.events.index(e)
    return any(x.kind == "call" and short(x.name) == "LocalWaker::wake" and contains(x.args[0], lambda y: y.k == "F" and y.a[1][2] == "waker") for x in p.events[i + 1:])


def local_events(ctx):
    """what the application does itself to a link or a session is announced"""
    kinds = link_kinds(ctx)
    for name, side, kind in (("SessionInner::detach_sender_link", "Left", "LocalDetachSender"), ("SessionInner::detach_receiver_link", "Right", "LocalDetachReceiver")):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, endspec(("VecDeque::push_back", "LocalWaker::wake"), SLOT), live=False, pin=[LINKS, SFLAGS, SERR], opaque=no_set_error)
        n = 0
        for p in ps:
            if p.out != "ret":
                continue
            q = queued(p)
            sl = slot_of(p)
            sh = slot_shape(ctx, p, sl[2], kinds) if sl is not None else set()
            if sh != {(side, "Established")}:
                ctx.ob(kind + ":only", not q or sh == {(side, "Established")}, "%s: a local detach is announced of a link that is not established" % w)
                continue
            n += 1
            ctx.ob(kind + ":once", len(q) == 1, "%s: the detach of an established link is not announced exactly once" % w)
            for e, k, s in q:
                good = k is not None and k.k == "A" and k.a[1] == kind and any(within(y, sl[2]) for _, y in k.a[2]) and any(contains(y, lambda z: z.k == "A" and z.a[0].split("::")[-1] in ("Detach", "DetachInner"))
                                                                                                                     for _, y in k.a[2])
                ctx.ob(kind + ":kind", good, "%s: what is announced is not the detach of this link: %s" % (w, show(k)[:150] if k is not None else "nothing"))
                ctx.ob(kind + ":woken", then_woken(p, e), "%s: a local detach is queued and the dispatcher is not woken" % w)
        ctx.floor(kind + " paths", n, 1)
    f = ctx.fn("Session::end")
    w = where(f)
    E, ps = runp(ctx, f, endspec(("VecDeque::push_back", "LocalWaker::wake"), SLOT), live=False, pin=[SFLAGS, SERR, SESSIONS], opaque=no_set_error)
    n = 0
    for p in ps:
        if p.out != "ret":
            continue
        q = queued(p)
        fl = [v for t, x in p.state.facts.items() if not contains(t, lambda y: y.k == "W" or y.k == "F" and len(y.a) > 2 and y.a[2] not in (0, (0, 0))) for v in [flag_known(t, x, SFLAGS)] if v is not None]
        none = set().union(*[v[0] for v in fl if v[1] == "none"])
        over = any(v[1] != "none" and v[0] <= {"ENDED", "ENDING"} and not v[0] <= none for v in fl)
        if over:
            ctx.ob("LocalSessionEnded:only", not q, "%s: the end of a session is announced more than once" % w)
            continue
        n += 1
        ctx.ob("LocalSessionEnded:once", len(q) == 1, "%s: the local end of a session is not announced exactly once" % w)
        for e, k, s in q:
            ctx.ob("LocalSessionEnded:kind", k is not None and k.k == "A" and k.a[1] == "LocalSessionEnded" and all_links(ctx, p, k.a[2][0][1]), "%s: what is announced is not the end of the session with all its links" % w)
            ctx.ob("LocalSessionEnded:woken", then_woken(p, e), "%s: the end of the session is queued and the dispatcher is not woken" % w)
    ctx.floor("local session ends", n, 1)


def poll_fn(ctx):
    l = [g for g in ctx.F.fns.values() if g.name == "poll" and not g.coroutine and DSP in g.path and g.impl_trait and g.path.startswith("<" + CR) or g.name == "poll" and not g.coroutine and
         DSP in str(g.impl_self) and g.file.startswith("src/")]
    if len(l) != 1:
        raise __import__("check").Missing("Dispatcher::poll")
    return l[0]


def announced(ctx):
    """every queued control frame reaches the control service"""
    f = poll_fn(ctx)
    w = where(f)
    hc = by_tail(ctx, "handle_control_frame", DSP)
    E, ps = runp(ctx, f, Spec(CALL + ("Vec::push", "LocalWaker::register"), (), ("next", "collect")), live=False, opaque=lambda g: g.id == hc.id, pin=[("await", "")])
    n, it = 0, 0
    isp = lambda t: contains(t, lambda y: y.k == "F" and y.a[1][2] == "pending" and "ControlQueue" in y.a[1][0])
    for p in ps:
        if p.out != "ret":
            continue
        n += 1
        ispop = lambda t: t.k == "X" and last_(t) in ("pop_front", "pop_back")
        nx = [(i, e) for i, e in enumerate(p.events) if e.kind == "next" and isp(e.args[0]) and not contains(e.args[0], ispop)]
        pops = [t for t in p.state.facts if t.k == "X" and last_(t) in ("pop_front", "pop_back") and isp(t)]
        ended = any(known_(p, e.args[1]) == ("is", "None") for _, e in nx) or any(p.state.facts[t] == ("is", "None") for t in pops)
        ctx.ob("queue:drained", ended, "%s: control frames can be left in the queue after a poll" % w)
        rg = [i for i, e in enumerate(p.events) if e.kind == "call" and short(e.name) == "LocalWaker::register" and contains(e.args[0], lambda y: y.k == "F" and y.a[1][2] == "waker" and "ControlQueue" in y.a[1][0])]
        ctx.ob("queue:registered", bool(rg), "%s: the dispatcher does not register to be woken by the control queue" % w)
        items = [(i, mk("F", e.args[1], (OPT, "Some", "0"), 0)) for i, e in nx if known_(p, e.args[1]) != ("is", "None")] + [(0, mk("F", t, (OPT, "Some", "0"), 0)) for t in pops if p.state.facts[t] == ("is", "Some")]
        for i, x in items:
            it += 1
            c = [e for e in services(p)[0] if within(e.args[1], x) or contains(e.args[1], lambda y: y is x)]
            ctx.ob("queue:called", len(c) == 1, "%s: a queued control frame does not reach the control service exactly once" % w)
            for e in c:
                pu = [y for y in p.events if y.kind == "call" and short(y.name) == "Vec::push" and (within_field(y.args[0], (DSP, "ctl_fut")) or deref(y.args[0]).k == "P" and str(deref(y.args[0]).a[0]).startswith("loop:")) and
                      contains(y.args[1], lambda z: z.k == "X" and len(z.a) > 2 and z.a[2] == e.uid)]
                ctx.ob("queue:kept", len(pu) == 1 and contains(pu[0].args[1], lambda z: z is x), "%s: the answer of the control service to a queued frame is not waited for" % w)
    ctx.floor("poll paths", n, 1)
    ctx.floor("queued frames", it, 1)


def known_(p, t):
    return p.state.facts.get(t)


def final(ctx):
    """shutdown ends with the final event, whatever has been before"""
    f = co(ctx, DSP, "shutdown")
    w = where(f)
    E, ps = runp(ctx, f, Spec(CALL + ("PipelineBinding::shutdown", "Pipeline::shutdown", "ConnectionInner::set_error"), (), ("await", "alloc")), live=False,
                 opaque=lambda g: g.path.endswith("ConnectionInner::set_error"))
    n = 0
    for p in ps:
        if p.out != "ret":
            continue
        n += 1
        ctl, pub = services(p)
        kinds = [control_frame(p, e.args[1])[0] for e in ctl]
        good = [e for e, k in zip(ctl, kinds) if k is not None and k.k == "A" and k.a[1] == "Closed"]
        ctx.ob("shutdown:closed", len(good) == 1 and awaited(p, good[0]), "%s: shutdown does not end with one Closed event that is waited for" % w)
        err = [i for i, e in enumerate(p.events) if e.kind == "call" and short(e.name) == "ConnectionInner::set_error"]
        ctx.ob("shutdown:error", bool(err) and (not good or err[0] < p.events.index(good[0])), "%s: shutdown does not fail what is left of the connection before the final event" % w)
        down = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and short(e.name) in ("PipelineBinding::shutdown", "Pipeline::shutdown")]
        for nm in ("service", "ctl_service"):
            d = [(i, e) for i, e in down if within_field(e.args[0], (DSP, nm))]
            ctx.ob("shutdown:" + nm, len(d) == 1 and awaited(p, d[0][1]), "%s: the %s is not shut down once" % (w, nm))
            if good and d:
                ctx.ob("shutdown:last", p.events.index(good[0]) < d[0][0] or nm == "service", "%s: the control service is shut down before the final event" % w)
    ctx.floor("shutdown paths", n, 1)


def call_paths(ctx, opaque=None, pin=()):
    f = co(ctx, DSP, "call")
    E, ps = runp(ctx, f, Spec(CALL + ("Vec::push", "LocalWaker::wake"), (), ("await", "alloc", "collect", "next")), live=False,
                 opaque=opaque or (lambda g: g.path.endswith("ConnectionRef::handle_frame")), pin=[("ConnectionRef::handle_frame", ""), ("DispatchItem", "0"), CSTATE, CERR, ("is_closed", "")] + list(pin))
    return f, ps


def about(p):
    """what the dispatcher has been asked: ('Item', action term, variant) / ('Stop', reason term, variant) / ('Err', ...) / ('Control', ...)"""
    fx = p.state.facts
    for t, x in fx.items():
        if x[0] != "is":
            continue
        if x[1] == "Err" and t.k == "X" and last_(t) == "handle_frame":
            return "Err", t, None
    for t, x in fx.items():
        if x[0] == "is" and t.k == "F" and t.a[1][1:] == ("Ok", "0") and t.a[0].k == "X" and last_(t.a[0]) == "handle_frame":
            return "Item", t, x[1]
    for t, x in fx.items():
        if x[0] == "is" and t.k == "F" and t.a[1][1:] == ("Stop", "0"):
            return "Stop", t, x[1]
    if any(x == ("is", "Control") for t, x in fx.items()):
        return "Control", None, None
    return None, None, None


def kept(ctx, tag, w, p, e, ft):
    """the frame is kept together with the answer to wait for, and whoever waits for answers is woken"""
    pu = [x for x in p.events if x.kind == "call" and short(x.name) == "Vec::push" and within_field(x.args[0], (DSP, "ctl_fut"))]
    good = len(pu) == 1 and contains(pu[0].args[1], lambda y: y.k == "X" and len(y.a) > 2 and y.a[2] == e.uid) or \
        len(pu) == 1 and contains(pu[0].args[1], lambda y: y is e.args[1])
    ctx.ob(tag + ":kept", good, "%s: the answer of the control service is not waited for" % w)
    i = p.events.index(e)
    ctx.ob(tag + ":woken", any(x.kind == "call" and short(x.name) == "LocalWaker::wake" and contains(x.args[0], lambda y: adt_field(y) == (CI, "control_queue") or y.k == "F" and
                               y.a[1][2] == "waker") for x in p.events[i:]), "%s: the control service is called and the dispatcher is not woken to wait for its answer" % w)


def incoming(ctx):
    f, ps = call_paths(ctx)
    w = where(f)
    acts = variants(ctx, "Action")
    n = dict.fromkeys(["Item:" + a for a in acts if a != "None"] + ["Stop:" + s for s in STOP] + ["Err"], 0)
    for p in ps:
        if p.out != "ret":
            continue
        what, t, v = about(p)
        ctl, pub = services(p)
        if what == "Err":
            n["Err"] += 1
            ctx.ob("error:returned", p.ret is not None and is_err(p.ret) and contains(p.ret, lambda y: y.k == "F" and y.a[0] is t and y.a[1][1] == "Err") and not ctl and not pub,
                   "%s: a protocol error found in a frame does not end the dispatcher with that error" % w)
            continue
        if what == "Control":
            continue
        if what is None:
            ctx.bad("unknown", "%s: a request is handled without looking what it is" % w)
            continue
        n[what + ":" + v] = n.get(what + ":" + v, 0) + 1
        tag = "%s:%s" % (what, v)
        ctx.ob(tag + ":served", p.ret is not None and is_ok(p.ret), "%s: %s ends the dispatcher" % (w, v))
        if what == "Stop":
            ctx.ob(tag + ":once", len(ctl) == 1 and not pub, "%s: the control service is not told once why the connection stopped (%s)" % (w, v))
            if len(ctl) != 1:
                continue
            k, s = control_frame(p, ctl[0].args[1])
            kept(ctx, tag, w, p, ctl[0], k)
            pl = payload(t, v)
            if v == "Io":
                good = k is not None and k.k == "A" and k.a[1] == "Disconnected" and pl(k.a[2][0][1]) == "0"
            elif v in ("Encoder", "Decoder"):
                er = k.a[2][0][1] if k is not None and k.k == "A" and k.a[1] == "ProtocolError" else None
                good = er is not None and contains(er, lambda y: y.k == "F" and y.a[0] is t and y.a[1][1:] == (v, "0")) and (er.k != "A" or er.a[1] == "Codec")
            else:
                er = k.a[2][0][1] if k is not None and k.k == "A" and k.a[1] == "ProtocolError" else None
                good = er is not None and er.k == "A" and er.a[1] == v
            ctx.ob(tag + ":kind", good, "%s: the control service is told the wrong reason for %s: %s" % (w, v, show(k)[:120] if k is not None else "nothing"))
            continue
        if v == "None":
            ctx.ob(tag, not ctl and not pub, "%s: a service is called although nothing has to be done" % w)
            continue
        if v == "Transfer":
            gone = any(adt_field(u) == CSTATE and (x[0] == "is" and x[1] != "Normal" or x[0] == "not" and "Normal" in x[1]) for u, x in p.state.facts.items()) or any(adt_field(u) == CERR and (x == ("is", "Some") or x[0] == "not" and "None" in x[1]) for u, x in p.state.facts.items()) or \
                any(u.k == "X" and last_(u) == "is_closed" and istrue(x) for u, x in p.state.facts.items())
            ctx.ob(tag + ":no-control", not ctl, "%s: a transfer is handed to the control service" % w)
            ctx.ob(tag + ":once", len(pub) == (0 if gone and not pub else 1), "%s: a message of an open connection is not handed to the publish service once" % w)
            if pub:
                m = pub[0].args[1]
                ctx.ob(tag + ":link", m.k == "A" and m.a[1] == "Transfer" and payload(t, v)(m.a[2][0][1]) == "0", "%s: the publish service is not told of the link the message is on" % w)
                ctx.ob(tag + ":driven", awaited(p, pub[0]), "%s: the publish service is called and its answer not waited for" % w)
            else:
                n[tag] -= 1
            continue
        if v not in ACT:
            ctx.bad("action:" + v, "%s: no service is known for %s" % (w, v))
            continue
        kind, msg = ACT[v]
        ctx.ob(tag + ":once", len(ctl) == 1, "%s: %s is not handed to the control service exactly once" % (w, v))
        if len(ctl) == 1:
            k, s = control_frame(p, ctl[0].args[1])
            kept(ctx, tag, w, p, ctl[0], k)
            pl = payload(t, v)
            if k is None or k.k != "A":
                ctx.bad(tag + ":kind", "%s: cannot tell what the control service is told about %s" % (w, v))
                continue
            want = [a for vv in [x for q, a_ in ctx.F.adts.items() if q.endswith("::Action") for x in a_["variants"] if x["name"] == v] for a in range(len(vv["fields"]))]
            got = sorted(str(pl(y)) for _, y in k.a[2])
            ctx.ob(tag + ":kind", k.a[1] == kind and got == sorted(str(a) for a in want), "%s: the control service is told %s about %s, or not the link and frame it is about" % (w, show(k)[:150], v))
            if s is not None and some(s) is not None:
                ctx.ob(tag + ":session", within(some(s), t), "%s: the control service is told of the wrong session" % w)
        if msg is None:
            ctx.ob(tag + ":no-publish", not pub, "%s: the publish service is told about %s" % (w, v))
            continue
        ctx.ob(tag + ":publish", len(pub) == 1, "%s: the publish service is not told once about %s" % (w, v))
        if len(pub) == 1:
            m = pub[0].args[1]
            good = m.k == "A" and m.a[1] == msg
            ctx.ob(tag + ":driven", awaited(p, pub[0]), "%s: the publish service is called about %s and the call is not driven" % (w, v))
            if msg == "Detached":
                ctx.ob(tag + ":message", good and payload(t, v)(m.a[2][0][1]) == "0", "%s: the publish service is told of another link than the one that is detached" % w)
            else:
                ctx.ob(tag + ":message", good and only_receivers(ctx, p, m.a[2][0][1], lambda y: y.k == "F" and y.a[0] is t and y.a[1][1:] == (v, "0")), "%s: the publish service "
                       "is not told of all receiving links of the session" % w)
    for k, v in n.items():
        ctx.floor(k, v, 1)


def only_receivers(ctx, p, t, src):
    """the list is made of every receiving link of the other list and of nothing else"""
    if contains(t, lambda y: y.k == "X" and last_(y) in ("skip", "take", "step_by", "nth", "take_while", "skip_while", "last", "first", "truncate", "pop", "map_while")):
        return False
    cur, got, ends = None, [], False
    for e in p.events:
        if e.kind == "next" and contains(e.args[0], src):
            cur = e.args[1]
            x = p.state.facts.get(cur)
            ends = ends or x == ("is", "None")
            if x != ("is", "None"):
                got.append([cur, 0])
            else:
                cur = None
        elif cur is not None and (e.kind == "collect" and contains(t, lambda y: y is e.args[0]) or e.kind == "call" and short(e.name) == "Vec::push" and
                                  not within_field(e.args[0], (DSP, "ctl_fut"))) and within(e.args[1], cur):
            got[-1][1] += 1
    for c, k in got:
        side = {x[1] for u, x in p.state.facts.items() if x[0] == "is" and x[1] in ("Left", "Right") and within(u, c)}
        if len(side) == 1 and k != (1 if side == {"Right"} else 0) or not side and k:
            return False
    return ends or bool(got)


# ---- S02 ------------------------------------------------------------------------------------------------------
def from_err(t, src):
    """the error is made of the failure"""
    return t is not None and contains(t, src)


def detach_with(p, src, link=None):
    """Detach frames that carry the failure"""
    out = []
    for e in encs(p):
        c, k, b = frame(e)
        if k != "Detach":
            continue
        er = part(b, "error")
        if er is not None and some(er) is not None and from_err(er, src):
            out.append(e)
    return out


LCLOSED = ((SL, "closed"), ("ReceiverLinkInner", "closed"))


def s02(ctx):
    for x in (("FrameInner", "kind"), (DSP, "ctl_error"), (SL, "closed"), ("ReceiverLinkInner", "closed"), LINKS, CSTATE, CERR):
        need(ctx, *x)
    failed_message(ctx)
    confirmed(ctx)
    failed_event(ctx)
    failed_control(ctx)
    unavailable(ctx)


def failed_message(ctx):
    f = co(ctx, DSP, "call")
    w = where(f)
    kinds = link_kinds(ctx)
    E, ps = runp(ctx, f, endspec(ENC + CALL, SLOT, ("await",)), live=True, opaque=lambda g: g.path.endswith("ConnectionRef::handle_frame") or (g.impl_trait or "").endswith("Drop"),
                 pin=[("ConnectionRef::handle_frame", ""), LINKS, LCLOSED[1], ("await", "")])
    n = 0
    for p in ps:
        if p.out != "ret":
            continue
        what, t, v = about(p)
        if v != "Transfer":
            continue
        ctl, pub = services(p)
        res = [(u, x) for u, x in p.state.facts.items() if u.k == "X" and u.a[0] == "await" and any(contains(u, lambda y: y.k == "X" and len(y.a) > 2 and y.a[2] == e.uid) for e in pub)]
        if pub and not res:
            ctx.bad("message:outcome", "%s: it is not looked at whether the publish service failed on a message" % w)
            continue
        if not pub or res[0][1] != ("is", "Err"):
            if pub:
                ctx.ob("message:ok", not [x for x in kinds_of(p) if x in ("Detach", "End", "Close")], "%s: a message is handled and its link is closed" % w)
            continue
        cl = [istrue(x) for u, x in p.state.facts.items() if adt_field(u) == LCLOSED[1]]
        sl = slot_of(p)
        sh = slot_shape(ctx, p, sl[2], kinds) if sl is not None else set()
        if cl and cl[0] is True:
            continue
        if sl is None and any(u.k == "X" and len(u.a[1]) > 1 and isq(u.a[1][0], LINKS) and x == ("is", "None") for u, x in p.state.facts.items()):
            continue
        if sl is not None and sh and ("Right", "Established") not in sh:
            continue
        n += 1
        d = detach_with(p, lambda y: y is res[0][0])
        ctx.ob("message:closed", len(d) == 1 and [x for x in kinds_of(p)] == ["Detach"], "%s: the publish service fails on a message and its link is not closed with the error (%s)" % (w, kinds_of(p) or "no frame"))
        for e in d:
            c, k, b = frame(e)
            h = part(b, "handle")
            ctx.ob("message:link", h is not None and within(h, t), "%s: another link than that of the failed message is closed" % w)
    ctx.floor("failed messages", n, 1)


def hcf(ctx, spec, opaque, pin=(), live=True):
    hc = by_tail(ctx, "handle_control_frame", DSP)
    E, ps = runp(ctx, hc, spec, live=live, opaque=opaque, max_paths=100000, pin=[("FrameInner", "kind"), LCLOSED[0], LCLOSED[1], LINKS, SFLAGS, CSTATE, ("await", "")] + list(pin))
    return hc, where(hc), [p for p in ps if p.out == "ret"]


def failed_event(ctx):
    """the control service fails on a flow or on a peer's detach"""
    kinds = link_kinds(ctx)
    op = lambda g: g.path.endswith(("ConnectionInner::set_error", "SessionInner::handle_flow", "::notify_service"))
    hc, w, ps = hcf(ctx, endspec(ENC + CALL + ("SessionInner::handle_flow",), SLOT), op)
    er = P("err")
    n = [0, 0]
    for p in ps:
        ks = ctl_kinds(ctx, p)
        if not ks or not ks <= {"Flow", "RemoteDetachSender", "RemoteDetachReceiver"}:
            continue
        fx = p.state.facts.get(er)
        if fx is None:
            ctx.bad("event:looked", "%s: the outcome of the control service is not looked at" % w)
            continue
        bad = fx == ("is", "Some") or fx == ("not", frozenset({"None"}))
        fl = [e for e in p.events if e.kind == "call" and short(e.name) == "SessionInner::handle_flow"]
        if not bad:
            if ks == {"Flow"}:
                n[1] += 1
                ctx.ob("event:flow-applied", len(fl) == 1 and within_field(fl[0].args[1], ("FrameInner", "kind")), "%s: a flow the application accepts is not applied" % w)
            ctx.ob("event:accepted", "Detach" not in kinds_of(p), "%s: a link is closed although the application accepted the event" % w)
            continue
        ctx.ob("event:flow-refused", not fl, "%s: a flow the application refused is applied" % w)
        cl = [istrue(x) for u, x in p.state.facts.items() if adt_field(u) in LCLOSED and within_field(u, ("FrameInner", "kind"))]
        sl = slot_of(p)
        sh = slot_shape(ctx, p, sl[2], kinds) if sl is not None else set()
        if cl and cl[0] is True or sl is None and any(u.k == "X" and len(u.a[1]) > 1 and isq(u.a[1][0], LINKS) and x == ("is", "None") for u, x in p.state.facts.items()):
            continue
        if ks & {"RemoteDetachReceiver"}:
            want = ("Right", "Established")
        else:
            want = ("Left", "Established")
        if sl is not None and sh and want not in sh:
            continue
        n[0] += 1
        d = detach_with(p, lambda y: y is er)
        ctx.ob("event:closed", len(d) == 1, "%s: the control service fails on an event of a link and the link is not closed with the error (%s)" % (w, ",".join(sorted(ks))))
        for e in d:
            h = part(frame(e)[2], "handle")
            ctx.ob("event:link", h is not None and within_field(h, ("FrameInner", "kind")), "%s: another link than the one of the event is closed" % w)
    ctx.floor("failed link events", n[0], 1)
    ctx.floor("applied flows", n[1], 1)


def failed_control(ctx):
    """protocol errors end the connection whatever the control service says; the error reaches the dispatcher"""
    op = lambda g: g.path.endswith(("ConnectionInner::set_error", "ConnectionRef::set_error", "SessionInner::handle_flow", "::notify_service")) or (g.impl_trait or "").endswith("Drop")
    hc, w, ps = hcf(ctx, Spec(("ConnectionInner::set_error", "ConnectionRef::set_error"), (), ()), op, live=False, pin=[("ConnectionRef::set_error", ""), ("ConnectionInner::set_error", "")])
    n = {"ProtocolError": 0, "Closed": 0, "Disconnected": 0}
    for p in ps:
        ks = ctl_kinds(ctx, p)
        se = [e for e in p.events if e.kind == "call" and short(e.name).endswith("::set_error")]
        if not ks or not ks <= set(n):
            if ks:
                ctx.ob("control:others", p.ret is not None and is_ok(p.ret) and not se, "%s: an event of a link or session ends the connection" % w)
            continue
        for k in ks:
            n[k] += 1
        ctx.ob("control:set-error", len(se) == 1, "%s: the connection is not failed on %s" % (w, ",".join(sorted(ks))))
        if ks == {"ProtocolError"}:
            own = lambda y: y.k == "F" and y.a[1][1] == "ProtocolError" and within_field(y, ("FrameInner", "kind"))
            ctx.ob("control:error", all(contains(e.args[1], own) for e in se) and p.ret is not None and is_err(p.ret) and contains(p.ret, own), "%s: a protocol error does not fail the connection "
                   "and end the dispatcher with that error" % w)
        else:
            ctx.ob("control:end", p.ret is not None and is_ok(p.ret), "%s: the end of the connection is reported as an error of the dispatcher" % w)
    for k, v in n.items():
        ctx.floor("control frames " + k, v, 1)
    f = poll_fn(ctx)
    w = where(f)
    E, ps = runp(ctx, f, Spec((short(hc.path),), ("Dispatcher.ctl_error",), ()), live=False, opaque=lambda g: g.id == hc.id, pin=[(short(hc.path), ""), ("await", "")])
    m = [0, 0]
    for p in ps:
        if p.out != "ret":
            continue
        bad = [t for t, x in p.state.facts.items() if x == ("is", "Err") and t.k == "X" and last_(t) == "handle_control_frame"]
        st = [e for e in p.events if e.kind == "write" and adt_field(e.args[0]) == (DSP, "ctl_error")]
        if bad:
            m[0] += 1
            ctx.ob("poll:kept", len(st) == 1 and some(st[0].args[1]) is not None and any(contains(st[0].args[1], lambda y: y.k == "F" and y.a[0] is t and y.a[1][1] == "Err") for t in bad) or
                   p.ret is not None and is_err(p.ret), "%s: the error a control frame leads to is lost" % w)
        else:
            ctx.ob("poll:no-error", not st, "%s: an error is reported without one having happened" % w)
        # the answer of the control service is passed on
        hs = [e for e in p.events if e.kind == "call" and short(e.name) == short(hc.path)]
        for t, x in p.state.facts.items():
            if t.k == "X" and t.a[0] == "await" and x == ("is", "Err"):
                ctx.ob("poll:failure", any(contains(e.args[2], lambda y: y is t) for e in hs), "%s: the control service fails on an event and its error is dropped" % w)
        for e in p.events:
            if e.kind == "call" and e.name == hc.path or e.kind == "call" and short(e.name) == short(hc.path):
                m[1] += 1
                a = e.args[2]
                failed = some(a) is not None
                src = [t for t, x in p.state.facts.items() if x == ("is", "Err") and (t.k == "X" and t.a[0] == "await") and (not failed or contains(a, lambda y: y is t))]
                ctx.ob("poll:passed", bool(src) if failed else a.k == "A" and a.a[1] == "None", "%s: an answer of the control service is not passed on as it is" % w)
    ctx.floor("failing control frames", m[0], 1)
    ctx.floor("answers of the control service", m[1], 2)


def unavailable(ctx):
    f = co(ctx, DSP, "ready")
    w = where(f)
    NM = ("ConnectionRef::close", "ConnectionRef::close_with_error", "ConnectionInner::close")
    E, ps = runp(ctx, f, Spec(NM, (), ("await",)), live=False, opaque=lambda g: g.path.endswith("ConnectionInner::close"), pin=[(DSP, "ctl_error"), ("poll_ready", "")])
    n = {"error": 0, "service": 0, "ctl_service": 0, "ready": 0}
    for p in ps:
        if p.out != "ret":
            continue
        cl = [e for e in p.events if e.kind == "call"]
        er = [t for t, x in p.state.facts.items() if adt_field(t) == (DSP, "ctl_error") and x == ("is", "Some")]
        if not any(adt_field(t) == (DSP, "ctl_error") for t in p.state.facts):
            ctx.bad("ready:looked", "%s: readiness is reported without looking for an error of the control service" % w)
            continue
        if er:
            n["error"] += 1
            ctx.ob("ready:error", len(cl) == 1 and p.ret is not None and is_err(p.ret) and contains(p.ret, lambda y: y.k == "F" and y.a[0] is er[0]), "%s: an error of the control service does not close "
                   "the connection and end the dispatcher with it" % w)
            continue
        bad = [(t, nm) for t, x in p.state.facts.items() if x == ("is", "Err") and t.k == "X" and last_(t) == "poll_ready" for nm in ("service", "ctl_service") if adt_field(t.a[1][0]) == (DSP, nm)]
        if bad:
            for t, nm in bad:
                n[nm] += 1
            ctx.ob("ready:closed", len(cl) == 1 and some(cl[0].args[1]) is not None and contains(cl[0].args[1], lambda y: y.k == "F" and y.a[0] is bad[0][0] and y.a[1][1] == "Err") and
                   p.ret is not None and is_err(p.ret), "%s: a service that is not available any more does not close the connection with its error" % w)
        else:
            n["ready"] += 1
            seen = {nm for t, x in p.state.facts.items() if t.k == "X" and last_(t) == "poll_ready" for nm in ("service", "ctl_service") if adt_field(t.a[1][0]) == (DSP, nm)}
            pend = any(x == ("is", "Pending") for x in p.state.facts.values())
            ctx.ob("ready:both", not cl and (seen == {"service", "ctl_service"} or pend or p.ret is not None and is_err(p.ret)), "%s: readiness is reported without asking both services" % w)
    for k, v in n.items():
        ctx.floor("ready: " + k, v, 1)


# ---- S03 ------------------------------------------------------------------------------------------------------
from fractions import Fraction as Fr

MAX32 = 2 ** 32 - 1


class Unbounded(Exception):
    pass


def lin(t, leaf, a, b, depth=0):
    """bounds of a term for every value x in [a, b] of the announced timeout: ((l1, l0), (u1, u0)) with l1*x+l0 <= term <= u1*x+u0"""
    def at(f, x):
        return f[0] * x + f[1]

    def rng(f):
        return min(at(f, a), at(f, b)), max(at(f, a), at(f, b))

    def least(f, g):                # a line below min(f, g) / the better of two lines above the minimum
        if at(f, a) <= at(g, a) and at(f, b) <= at(g, b):
            return f
        if at(g, a) <= at(f, a) and at(g, b) <= at(f, b):
            return g
        return (Fr(0), min(rng(f)[0], rng(g)[0]))

    def most(f, g):
        if at(f, a) >= at(g, a) and at(f, b) >= at(g, b):
            return f
        if at(g, a) >= at(f, a) and at(g, b) >= at(f, b):
            return g
        return (Fr(0), max(rng(f)[1], rng(g)[1]))

    r = leaf(t)
    if r is not None:
        if isinstance(r, tuple):
            return r
        return (Fr(1), Fr(0)), (Fr(1), Fr(0))
    if t.k == "C" and isinstance(t.a[0], int):
        return (Fr(0), Fr(t.a[0])), (Fr(0), Fr(t.a[0]))
    if t.k == "A" and len(t.a[2]) == 1:
        return lin(t.a[2][0][1], leaf, a, b)
    nm = t.a[0] if t.k == "B" else last_(t) if t.k == "X" else None
    ar = list(t.a[1:]) if t.k == "B" else list(t.a[1]) if t.k == "X" else []
    if t.k == "F" and t.a[1][2] == "0" and t.a[0].k in ("A", "X", "B"):
        return lin(t.a[0], leaf, a, b)
    if t.k == "X" and nm in ("from", "into", "cast", "deref", "clone", "Millis", "from_millis") and ar:
        return lin(ar[-1], leaf, a, b)
    if nm is None or len(ar) != 2:
        raise Unbounded(show(t)[:80])
    if nm in ("Add", "saturating_add"):          # x / k + x % k for k = 2 is x / 2 rounded up
        for y, z in (ar, ar[::-1]):
            if y.k == z.k == "B" and y.a[0] == "Div" and z.a[0] == "Rem" and y.a[1] is z.a[1] and y.a[2] is z.a[2] and y.a[2].k == "C" and y.a[2].a[0] == 2:
                l, u = lin(y.a[1], leaf, a, b)
                return (l[0] / 2, l[1] / 2), (u[0] / 2, u[1] / 2 + Fr(1, 2))
    if nm == "Rem":
        k = lin(ar[1], leaf, a, b)
        if k[0] == k[1] and k[0][0] == 0 and k[0][1] > 0:
            return (Fr(0), Fr(0)), (Fr(0), k[0][1] - 1)
        raise Unbounded(show(t)[:80])
    (l1, u1), (l2, u2) = lin(ar[0], leaf, a, b), lin(ar[1], leaf, a, b)
    k = l2[1] if l2 == u2 and l2[0] == 0 else None
    if nm == "min":
        lo = least(l1, l2)
        # either line is above the minimum
        hi = u1 if rng(u1)[1] <= rng(u2)[1] else u2
        return lo, hi
    if nm == "max":
        return (l1 if rng(l1)[0] >= rng(l2)[0] else l2), most(u1, u2)
    if nm in ("Sub", "saturating_sub", "wrapping_sub"):
        lo, hi = (l1[0] - u2[0], l1[1] - u2[1]), (u1[0] - l2[0], u1[1] - l2[1])
        if rng(lo)[0] < 0:
            if nm != "saturating_sub":
                if not not_above(ar[1], ar[0]):
                    raise Unbounded("%s may wrap" % show(t)[:80])
            lo = lo if rng(lo)[0] >= 0 else (Fr(0), Fr(0))
            hi = most(hi, (Fr(0), Fr(0)))
        return lo, hi
    if nm in ("Add", "saturating_add"):
        return (l1[0] + l2[0], l1[1] + l2[1]), (u1[0] + u2[0], u1[1] + u2[1])
    if k is not None and k > 0:
        if nm in ("Div", "div_ceil", "Shr"):
            if nm == "Shr":
                k = Fr(2) ** int(k)
            lo, hi = (l1[0] / k, l1[1] / k), (u1[0] / k, u1[1] / k)
            g = (k - 1) / k
            return (lo, (hi[0], hi[1] + g)) if nm == "div_ceil" else ((lo[0], lo[1] - g), hi)
    for (lx, ux), kk in (((l1, u1), k), ((l2, u2), l1[1] if l1 == u1 and l1[0] == 0 else None)):
        if kk is not None and kk >= 0 and nm in ("Mul", "saturating_mul"):
            lo, hi = (lx[0] * kk, lx[1] * kk), (ux[0] * kk, ux[1] * kk)
            if nm == "Mul" and rng(hi)[1] > MAX32:
                raise Unbounded("%s may overflow" % show(t)[:80])
            return lo, hi
    raise Unbounded(show(t)[:80])


def not_above(x, y):
    """x <= y whatever y: x is a part of y"""
    return x is y or x.k == "B" and x.a[0] in ("Div", "Shr") and not_above(x.a[1], y) or x.k == "X" and last_(x) in ("min", "div_ceil") and any(not_above(z, y) for z in x.a[1])


def ranges():
    yield 0, 0
    yield 1, 1
    lo = 2
    while lo <= MAX32:
        yield lo, min(2 * lo - 1, MAX32)
        lo *= 2


def strictly_below(ctx, key, w, t, leaf):
    """an interval for the keep-alive timer: none when nothing is announced, never as long as the announced time-out and never nothing"""
    n = 0
    for a, b in ranges():
        try:
            lo, hi = lin(t, leaf, a, b)
        except Unbounded as e:
            ctx.ob(key + ":bounded", False, "%s: cannot bound the keep-alive interval: %s" % (w, e))
            return
        L = min(lo[0] * a + lo[1], lo[0] * b + lo[1])
        if a == 0:
            ctx.ob(key + ":none", hi[0] * a + hi[1] < 1, "%s: keep-alive frames are timed although the peer announced no idle timeout" % w)
            continue
        ok = all(hi[0] * x + hi[1] < x for x in (a, b)) if a > 1 else hi[0] + hi[1] < 2
        ctx.ob(key + ":below", ok, "%s: the keep-alive interval is not below the idle timeout of the peer (announced %s-%s ms)" % (w, a, b))
        ctx.ob(key + ":some", L > 0, "%s: no keep-alive frames are sent although the peer announced an idle timeout (%s-%s ms)" % (w, a, b))
        n += 1
    ctx.sample("%s: interval %s, checked on %d ranges of the announced timeout" % (key, show(t)[:120], n + 1))


def s03(ctx):
    for x in ((DSP, "idle_timeout"), (DSP, "idle_sleep"), ("RemoteServiceConfig", "idle_time_out"), ("HandshakeAck", "idle_timeout")):
        need(ctx, *x)
    from r_hs import afn, server_roots, paths, steps, self_type
    peer = lambda y: y if y.k == "F" and adt_field(y) == ("RemoteServiceConfig", "idle_time_out") else None
    acks, n = [], 0
    for f in [f for f in ctx.F.fns.values() if self_type(f) == "HandshakeAmqpOpened" and not f.impl_trait and f.crate == "ntex_amqp" and not f.isasync and f.kind != "closure"]:
        for p in paths(ctx, f):
            for t in walk(p.ret):
                if t.k == "A" and t.a[0].split("::")[-1] == "HandshakeAck":
                    acks.append((f, part(t, "idle_timeout")))
    ctx.floor("acknowledged handshakes", len(acks), 1)
    seen = set()
    for f in afn(ctx, "Client", "start") + afn(ctx, "Client", "start_default") + server_roots(ctx):
        w = where(f)
        for p in paths(ctx, f):
            for d, s in steps(ctx, p):
                if d != "start":
                    continue
                i, z = part(s.e.args[2], "idle_timeout"), part(s.e.args[2], "idle_sleep")
                if (f.id, i, z) in seen:
                    continue
                seen.add((f.id, i, z))
                n += 1
                ctx.ob("timer", i is not None and z is not None and z.k == "X" and last_(z) == "sleep" and same_millis(z.a[1][0], i), "%s: the keep-alive timer does not run for the keep-alive interval" % w)
                if i is None:
                    ctx.bad("interval", "%s: a dispatcher without keep-alive interval" % w)
                    continue
                if any(peer(y) is not None for y in walk(i)):
                    strictly_below(ctx, "interval:client", w, i, peer)
                    continue
                own = [y for y in walk(i) if y.k == "F" and y.a[1][2] == "idle_timeout" and not adt_field(y) == (DSP, "idle_timeout")]
                if not own:
                    ctx.bad("interval:source", "%s: the keep-alive interval does not come from what the peer announced: %s" % (w, show(i)[:120]))
                    continue
                for g, at in acks:
                    def leaf(y):
                        if y.k == "F" and y.a[1][2] == "0" and y.a[0] in own or y in own:
                            return "ack"
                        return None
                    chained(ctx, "interval:server", w, i, leaf, at, peer)
    ctx.floor("dispatchers started", n, 2)
    ticks(ctx)


def same_millis(a, b):
    u = lambda t: u(t.a[2][0][1]) if t.k == "A" and len(t.a[2]) == 1 else u(t.a[0]) if t.k == "F" and t.a[1][2] == "0" and "Millis" in t.a[1][0] else t
    return u(a) is u(b)


def chained(ctx, key, w, t, leaf, inner, peer):
    """the interval is computed in two places: bounds of the inner term are put in for the leaf"""
    n = 0
    for a, b in ranges():
        try:
            r = lin(inner, peer, a, b)
            lo, hi = lin(t, lambda y: r if leaf(y) else None, a, b)
        except Unbounded as e:
            ctx.ob(key + ":bounded", False, "%s: cannot bound the keep-alive interval: %s" % (w, e))
            return
        L = min(lo[0] * a + lo[1], lo[0] * b + lo[1])
        if a == 0:
            ctx.ob(key + ":none", hi[0] * a + hi[1] < 1, "%s: keep-alive frames are timed although the peer announced no idle timeout" % w)
            continue
        ok = all(hi[0] * x + hi[1] < x for x in (a, b)) if a > 1 else hi[0] + hi[1] < 2
        ctx.ob(key + ":below", ok, "%s: the keep-alive interval is not below the idle timeout of the peer (announced %s-%s ms)" % (w, a, b))
        ctx.ob(key + ":some", L > 0, "%s: no keep-alive frames are sent although the peer announced an idle timeout (%s-%s ms)" % (w, a, b))
        n += 1
    ctx.sample("%s: interval %s over %s, checked on %d ranges of the announced timeout" % (key, show(t)[:80], show(inner)[:80], n + 1))


def idle_known(p):
    """what is known of the interval: True (there is one), False, None, or "both": a path that cannot be (the interval is a plain field of a shared dispatcher, it does not change)"""
    got = set()
    for t, x in p.state.facts.items():
        v = None
        if t.k == "X" and t.a[1] and any(adt_field(y) == (DSP, "idle_timeout") for y in walk(t.a[1][0])) and x[0] in ("eq", "ne"):
            v = istrue(x)
            v = v if last_(t) == "non_zero" else not v if last_(t) == "is_zero" and v is not None else None
        elif t.k in ("F", "B") and any(adt_field(y) == (DSP, "idle_timeout") for y in walk(t)):
            if t.k == "F" and t.a[1][2] == "0":
                v = False if x == ("eq", 0) else True if x[0] == "ne" and 0 in x[1] else None
            elif t.k == "B" and t.a[2].k == "C" and t.a[2].a[0] == 0 and x[0] == "eq":
                v = {"Eq": not x[1], "Ne": bool(x[1]), "Gt": bool(x[1])}.get(t.a[0])
        got.add(v)
    got.discard(None)
    return "both" if len(got) > 1 else got.pop() if got else None


def ticks(ctx):
    f = poll_fn(ctx)
    w = where(f)
    hc = by_tail(ctx, "handle_control_frame", DSP)
    E, ps = runp(ctx, f, Spec(ENC + ("Sleep::reset", "Sleep::poll_elapsed"), ("Dispatcher.ctl_error",), ()), live=False, opaque=lambda g: g.id == hc.id,
                 pin=[(DSP, "idle_timeout"), ("Sleep::poll_elapsed", ""), ("poll_elapsed", ""), ("Millis::non_zero", ""), ("non_zero", ""), (short(hc.path), ""), CSTATE])
    n = {"elapsed": 0, "pending": 0, "none": 0}
    for p in ps:
        if p.out != "ret":
            continue
        if any(e.kind == "write" and adt_field(e.args[0]) == (DSP, "ctl_error") for e in p.events) or p.ret is not None and is_err(p.ret):
            continue
        looks = [e for e in p.events if e.kind == "call" and short(e.name) == "Sleep::poll_elapsed" and within_field(e.args[0], (DSP, "idle_sleep"))]
        rs = [e for e in p.events if e.kind == "call" and short(e.name) == "Sleep::reset" and within_field(e.args[0], (DSP, "idle_sleep"))]
        beat = [e for e in encs(p) if frame(e)[1] == "Empty"]
        if idle_known(p) == "both":
            continue
        if idle_known(p) is False:
            n["none"] += 1
            ctx.ob("tick:none", not beat, "%s: a keep-alive frame is sent although the peer asked for none" % w)
            continue
        ctx.ob("tick:looked", bool(looks), "%s: the keep-alive timer is not looked at in a poll" % w)
        over = 0
        for t, x in p.state.facts.items():
            if t.k == "X" and last_(t) == "poll_elapsed" and x == ("is", "Ready") or t.k == "X" and last_(t) == "is_ready" and contains(t, lambda y: y.k == "X" and last_(y) == "poll_elapsed") and istrue(x):
                over += 1
        if not over:
            n["pending"] += 1
            ctx.ob("tick:early", not beat and not rs, "%s: the keep-alive timer is restarted, or a frame sent, before it has run out" % w)
            continue
        n["elapsed"] += 1
        shut = any(adt_field(t) == CSTATE and names_of(x) and ("Normal" not in names_of(x) if x[0] == "is" else "Normal" in x[1]) for t, x in p.state.facts.items())
        ctx.ob("tick:sent", shut or len(beat) == over, "%s: the keep-alive timer runs out and no empty frame is sent" % w)
        for e in beat:
            c = frame(e)[0]
            ctx.ob("tick:channel", c is not None and c.k == "C" and c.a[0] == 0, "%s: a keep-alive frame is not sent on channel 0" % w)
        ctx.ob("tick:restarted", len(rs) == over and all(adt_field(e.args[1]) == (DSP, "idle_timeout") or same_millis(e.args[1], mk_idle(p, e)) for e in rs), "%s: the keep-alive timer is not restarted with the keep-alive interval" % w)
        if rs:
            i = p.events.index(rs[-1])
            ctx.ob("tick:woken", any(e in looks for e in p.events[i + 1:]), "%s: the restarted keep-alive timer is not polled: nothing wakes the dispatcher for the next frame" % w)
    for k, v in n.items():
        ctx.floor("keep-alive: " + k, v, 1)


def mk_idle(p, e):
    for y in walk(e.args[1]):
        if adt_field(y) == (DSP, "idle_timeout"):
            return y
    return e.args[0]


# ---- S04 / S05: the router ------------------------------------------------------------------------------------
HANDLERS = ("RouterServiceInner", "handlers")


def router(ctx):
    f = co(ctx, "RouterService", "call")
    op = lambda g: g.path.endswith(("::close_with_error", "Delivery::settle", "ReceiverLink::get_delivery", "ReceiverLink::set_link_credit")) or (g.impl_trait or "").endswith("Drop")
    E, ps = runp(ctx, f, Spec(("HashMap::insert", "HashMap::remove", "HashMap::get_mut", "HashMap::get", "HashMap::clear", "HashMap::drain", "HashMap::retain", "Pipeline::call", "Pipeline::shutdown", "Pipeline::ready",
                               "ReceiverLink::close_with_error", "Delivery::settle", "ReceiverLink::get_delivery", "Vec::push"), ("Option.0", "Some.0", ""), ("await", "collect", "next")), live=False, opaque=op,
                 pin=[("ReceiverLink::get_delivery", ""), ("get_delivery", ""), HANDLERS, ("await", "")])
    return f, [p for p in ps if p.out == "ret"]


def message_of(p):
    for t, x in p.state.facts.items():
        if x[0] == "is" and x[1] in ("Attached", "Detached", "DetachedAll", "Transfer") and t.k == "P" or x[0] == "is" and x[1] in ("Attached", "Detached", "DetachedAll", "Transfer") and t.k == "F":
            return t, x[1]
    return None, None


def mcall(p, *names):
    return [e for e in p.events if e.kind == "call" and short(e.name) in names]


def on_handlers(e):
    return isq(e.args[0], HANDLERS)


def result(p, e, name="await"):
    """the outcome of an awaited call: (term, fact)"""
    for t, x in p.state.facts.items():
        if t.k == "X" and t.a[0] == "await" and x[0] == "is" and x[1] in ("Ok", "Err") and any(y.k == "X" and len(y.a) > 2 and y.a[2] == e.uid for y in [t.a[1][0]]):
            return t, x[1]
    return None, None


STATES_OF = {"Accept": "Accepted", "Reject": "Rejected", "Error": "Rejected"}


def s04(ctx):
    need(ctx, *HANDLERS)
    f, ps = router(ctx)
    w = where(f)
    n = dict.fromkeys(["taken", "served", "failed", "unready", "no target", "no route", "gone", "Accept", "Reject", "Error"], 0)
    for p in ps:
        m, v = message_of(p)
        if v is None:
            ctx.bad("message", "%s: a message is handled without looking what it is about" % w)
            continue
        link = mk("F", m, (m_adt(ctx), v, "1" if v == "Attached" else "0"), 0)
        is_link = lambda t: deref(t) is link or same_place(t, m, v, "1" if v == "Attached" else "0")
        took = mcall(p, "ReceiverLink::get_delivery")
        settled = mcall(p, "Delivery::settle")
        served = mcall(p, "Pipeline::call")
        if v in ("Detached", "DetachedAll"):
            ctx.ob("only:" + v, not took and not settled and not served, "%s: a detached link's messages are handled" % w)
            continue
        for e in took:
            ctx.ob("taken:link", is_link(e.args[0]), "%s: a message is taken from another link" % w)
        ctx.ob("taken:once", len(took) <= 1, "%s: more than one message is taken for one event" % w)
        if v == "Transfer":
            has = [x for t, x in p.state.facts.items() if t.k == "F" and t.a[1][1:] == ("Some", "0") and t.a[0].k == "X" and isq(t.a[0].a[1][0], HANDLERS) and is_link(t.a[0].a[1][1])] if True else []
            known = bool(has) and has[0] == ("is", "Some")
            if known:
                n["taken"] += 1
                ctx.ob("taken", len(took) == 1, "%s: a message of a link with a handler is not taken from the link" % w)
        if v == "Attached":
            route(ctx, w, p, m, n)
        if not took:
            ctx.ob("settle:only", not settled and not served, "%s: a handler is called, or a delivery settled, without a message" % w)
            continue
        d = [t for t, x in p.state.facts.items() if t.k == "X" and last_(t) == "get_delivery" and x == ("is", "Some")]
        if not d:
            ctx.ob("settle:empty", not settled and not served, "%s: a handler is called, or a delivery settled, without a message" % w)
            continue
        pair = mk("F", d[0], (OPT, "Some", "0"), 0)
        rd = mcall(p, "Pipeline::ready")
        if not rd:
            ctx.ob("settle:no-handler", not settled and not served, "%s: a handler is called without asking whether it is ready" % w)
            n["gone"] += 1
            continue
        ctx.ob("handler:link", all(from_handlers(e.args[0], is_link) for e in rd + served), "%s: a message is handed to the handler of another link" % w)
        t, r = result(p, rd[0])
        if r is None:
            ctx.bad("handler:ready", "%s: the readiness of the handler is not waited for" % w)
            continue
        cl = mcall(p, "ReceiverLink::close_with_error")
        if r == "Err":
            n["unready"] += 1
            ctx.ob("unready", len(cl) == 1 and is_link(cl[0].args[0]) and not served and not settled, "%s: a handler that is not ready any more does not close its link" % w)
            continue
        ctx.ob("ready:open", not cl, "%s: a link is closed although its handler works" % w)
        ctx.ob("served", len(served) == 1 and pair_part(served[0].args[1], pair, "1"), "%s: the message is not handed to the handler once" % w)
        if len(served) != 1:
            continue
        t, r = result(p, served[0])
        if r is None:
            ctx.bad("served:outcome", "%s: the outcome of the handler is not looked at" % w)
            continue
        n["served" if r == "Ok" else "failed"] += 1
        ctx.ob("settled", len(settled) == 1 and pair_part(settled[0].args[0], pair, "0"), "%s: the message is not settled exactly once" % w)
        if len(settled) != 1:
            continue
        ctx.ob("settled:after", p.events.index(settled[0]) > p.events.index(served[0]), "%s: the message is settled before the handler is done" % w)
        s = settled[0].args[1]
        if r == "Err":
            er = rejected(s)
            ctx.ob("outcome:Err", er is not None and some(er) is not None and contains(er, lambda y: y.k == "F" and y.a[0] is t and y.a[1][1] == "Err"), "%s: a message its handler failed on is not rejected with the error" % w)
            continue
        ov = [x[1] for u, x in p.state.facts.items() if u.k == "F" and u.a[0] is t and u.a[1][1] == "Ok" and x[0] == "is"]
        if not ov:
            ctx.bad("outcome:looked", "%s: the outcome of the handler is not looked at" % w)
            continue
        n[ov[0]] = n.get(ov[0], 0) + 1
        if ov[0] == "Accept":
            ctx.ob("outcome:Accept", s.k == "A" and s.a[1] == "Accepted", "%s: an accepted message is settled as %s" % (w, show(s)[:60]))
        elif ov[0] == "Reject":
            er = rejected(s)
            ctx.ob("outcome:Reject", er is not None and er.k == "A" and er.a[1] == "None", "%s: a rejected message is settled as %s" % (w, show(s)[:60]))
        elif ov[0] == "Error":
            er = rejected(s)
            ctx.ob("outcome:Error", er is not None and some(er) is not None and contains(er, lambda y: y.k == "F" and y.a[1][1] == "Error" and y.a[0].k == "F" and y.a[0].a[0] is t), "%s: a message that is "
                   "rejected with an error is settled as %s" % (w, show(s)[:60]))
        else:
            ctx.bad("outcome:" + ov[0], "%s: an outcome that is not known: %s" % (w, ov[0]))
    for k, v in n.items():
        if k != "gone":
            ctx.floor("router: " + k, v, 1)


def m_adt(ctx):
    return next(k for k in ctx.F.adts if k.endswith("types::Message"))


def same_place(t, m, v, i):
    t = deref(t)
    return t is not None and t.k == "F" and t.a[0] is m and t.a[1][1] == v and t.a[1][2] == i


def from_handlers(t, is_link):
    return contains(t, lambda y: y.k == "X" and last_(y) in ("get", "get_mut") and len(y.a[1]) > 1 and isq(y.a[1][0], HANDLERS) and is_link(y.a[1][1]))


def pair_part(t, pair, i):
    """t is part i of the pair that was taken from the link"""
    t = deref(t)
    return t is not None and t.k == "F" and t.a[0] is pair and t.a[1][2] == i


def rejected(s):
    if s.k != "A" or s.a[1] != "Rejected":
        return None
    return part(s, "error") if part(s, "error") is not None else None


def route(ctx, w, p, m, n):
    """no target or no route: the attach is refused with detach-forced"""
    fx = p.state.facts
    rec = [x for t, x in fx.items() if t.k == "X" and last_(t).startswith("recognize")]
    if any(x == ("is", "Some") for x in rec):
        return
    k = "no route" if rec else "no target"
    n[k] += 1
    ctx.ob("refused:" + k, p.ret is not None and is_err(p.ret) and contains(p.ret, lambda y: y.k == "A" and y.a[1] == "DetachForced"), "%s: a link with %s is not refused" % (w, k))
    ctx.ob("refused:clean:" + k, not [e for e in mcall(p, "HashMap::insert") if on_handlers(e)], "%s: a handler is registered for a link with %s" % (w, k))


def s05(ctx):
    need(ctx, *HANDLERS)
    f, ps = router(ctx)
    w = where(f)
    n = dict.fromkeys(["created", "failed", "late", "registered", "Detached", "released", "DetachedAll", "removed of many", "released of many"], 0)
    WIDE = ("HashMap::clear", "HashMap::drain", "HashMap::retain")
    stash = {loop_var(e.args[0]) for p in ps for e in mcall(p, "Vec::push") if contains(e.args[1], lambda y: y.k == "X" and last_(y) == "remove" and isq(y.a[1][0], HANDLERS))} - {None}
    for p in ps:
        m, v = message_of(p)
        if v is None:
            ctx.bad("message", "%s: a message is handled without looking what it is about" % w)
            continue
        ins = [e for e in mcall(p, "HashMap::insert") if on_handlers(e)]
        rem = [e for e in mcall(p, "HashMap::remove") if on_handlers(e)]
        down = mcall(p, "Pipeline::shutdown")
        ctx.ob("others", not [e for e in mcall(p, *WIDE) if on_handlers(e)], "%s: handlers of all links are touched" % w)
        if v == "Transfer":
            ctx.ob("transfer", not ins and not rem and not down, "%s: a message changes which handlers there are" % w)
            continue
        if v == "Attached":
            link = lambda t: same_place(t, m, v, "1")
            cr = [t for t in p.state.facts if t.k == "X" and t.a[0] == "await" and contains(t, lambda y: y.k == "X" and last_(y) == "create")]
            if not cr:
                ctx.ob("attach:nothing", not ins and not rem, "%s: a handler is registered without one being made" % w)
                continue
            for e in ins + rem:
                ctx.ob("attach:key", link(e.args[1]), "%s: the handler is registered under another link" % w)
            res = p.state.facts[cr[0]]
            aw = [i for i, e in enumerate(p.events) if e.kind == "await" and contains(e.args[0], lambda y: y.k == "X" and last_(y) == "create")]
            early = [e for e in ins if aw and p.events.index(e) < aw[0]]
            ctx.ob("attach:reserved", len(early) == 1 and len(ins) == 1, "%s: the link is not registered (once) before its handler is made: a detach meanwhile is missed" % w)
            for e in early:
                ctx.ob("attach:empty", e.args[2].k == "A" and e.args[2].a[1] == "None", "%s: the link is registered with a handler before it is made" % w)
            if res == ("is", "Err"):
                n["failed"] += 1
                ctx.ob("attach:forgotten", len(rem) == 1 and p.events.index(rem[0]) > aw[0], "%s: a link whose handler cannot be made stays registered" % w)
                ctx.ob("attach:error", p.ret is not None and is_err(p.ret), "%s: the attach of a link whose handler cannot be made is accepted" % w)
                continue
            n["created"] += 1
            ctx.ob("attach:kept", not rem, "%s: the entry of a new link is removed" % w)
            g = [(t, x) for t, x in p.state.facts.items() if t.k == "X" and last_(t) in ("get_mut", "get", "contains_key", "entry") and isq(t.a[1][0], HANDLERS) and len(t.a[1]) > 1 and link(t.a[1][1]) and
                 (x[0] == "is" and x[1] in ("Some", "None") or x[0] in ("eq", "ne"))]
            if not g:
                ctx.bad("attach:looked", "%s: the handler is registered without looking whether the link is still there" % w)
                continue
            gone = g[0][1] == ("is", "None") or g[0][1][0] in ("eq", "ne") and istrue(g[0][1]) is False
            srv = mk("F", cr[0], (RES, "Ok", "0"), 0)
            if gone:
                n["late"] += 1
                ctx.ob("attach:late", len(down) == 1 and contains(down[0].args[0], lambda y: y is srv) and driven(p, down[0]), "%s: the handler of a link that is gone meanwhile is not released" % w)
                continue
            n["registered"] += 1
            st = [e for e in p.events if e.kind == "write" and contains(e.args[1], lambda y: y is srv)]
            ctx.ob("attach:registered", len(st) == 1 and from_handlers(st[0].args[0], link) and not down, "%s: the handler of a new link is not registered under the link" % w)
            continue
        ctx.ob("detach:only", not ins, "%s: a detach registers a handler" % w)
        if v == "Detached":
            n["Detached"] += 1
            ctx.ob("detach:removed", len(rem) == 1 and same_place(rem[0].args[1], m, v, "0"), "%s: the handler of a detached link is not removed" % w)
            held = [t for t, x in p.state.facts.items() if x == ("is", "Some") and t.k == "F" and t.a[0].k == "X" and last_(t.a[0]) == "remove" and isq(t.a[0].a[1][0], HANDLERS)]
            if held:
                n["released"] += 1
                ctx.ob("detach:released", len(down) == 1 and within(down[0].args[0], held[0]) and driven(p, down[0]), "%s: the handler of a detached link is not released" % w)
            continue
        n["DetachedAll"] += 1
        many = lambda y: same_place(y, m, v, "0")
        for t in [x for e in p.events for a in e.args if hasattr(a, "k") for x in walk(a)]:
            if t.k == "X" and last_(t) in ("skip", "take", "step_by", "nth", "take_while", "skip_while", "truncate", "pop", "map_while") and contains(t, many):
                ctx.bad("detach-all:some", "%s: only some links of an ended session are released" % w)
                break
        els = [mk("F", e.args[1], (OPT, "Some", "0"), 0) for e in p.events if e.kind == "next" and whole(e.args[0], many) and p.state.facts.get(e.args[1]) != ("is", "None")]
        for el in els:
            r = [e for e in rem if within(e.args[1], el)]
            ctx.ob("detach-all:removed", len(r) == 1, "%s: the handler of a link is not removed when its session ends" % w)
        for e in rem:
            n["removed of many"] += 1
            ctx.ob("detach-all:key", any(within(e.args[1], el) for el in els) or of_walk(p, e.args[1], many), "%s: the end of a session removes the handler of another link" % w)
        for e in down:
            n["released of many"] += 1
            ctx.ob("detach-all:released", of_kept(p, e.args[0], stash) or contains(e.args[0], lambda y: many(y) or y.k == "X" and last_(y) == "remove" and isq(y.a[1][0], HANDLERS)) or of_walk(p, e.args[0], many), "%s: the end of a session "
                   "releases the handler of another link" % w)
        ctx.ob("detach-all:driven", not down or any(e.kind == "await" for e in p.events), "%s: the handlers of an ended session are not released" % w)
    for k, v in n.items():
        ctx.floor("router: " + k, v, 1)
    identity(ctx)
    late(ctx)


def loop_var(t):
    """the local variable (function, name) behind a value a loop changes"""
    for y in walk(t):
        if y.k == "P" and isinstance(y.a[0], str) and y.a[0].startswith("loop:"):
            return tuple(y.a[0].split(":")[1:3])
    return None


def of_kept(p, t, stash):
    """an element of a local list that removed handlers, and nothing else, were put in"""
    if loop_var(t) in stash:
        return True
    return any(of_walk(p, t, lambda y, k=k: y.k == "P" and loop_var(y) == k) for k in stash)


def driven(p, e):
    return awaited(p, e)


def whole(t, src):
    """a walk over all of a list (not over something computed from it)"""
    t = deref(t)
    while t is not None and t.k == "X" and last_(t) in ("iter", "into_iter", "iter_mut", "drain") and t.a[1]:
        t = deref(t.a[1][0])
    return t is not None and src(t)


def of_walk(p, t, src):
    """an element given to a closure by an adaptor over the list (or over what was collected from it)"""
    clos = [y.a[0] for y in walk(t) if y.k == "X" and last_(y) == "cloarg"] + [y.a[1][0] for y in walk(t) if y.k == "X" and last_(y) == "cloarg" and y.a[1]]
    ks = [y for y in clos if hasattr(y, "k")]
    if not ks:
        return False
    terms_ = [x for e in p.events for a in e.args if hasattr(a, "k") for x in walk(a)] + [x for u in p.state.facts for x in walk(u)]
    for x in terms_:
        if x.k == "X" and last_(x) in ("filter_map", "map", "for_each", "flat_map", "retain", "inspect") and contains(x, src):
            for k in ks:
                if contains(x, lambda y: y is k or y.k == "A" and k.k == "A" and y.a[:2] == k.a[:2]):
                    return True
    return False


def identity(ctx):
    """links are told apart by what they are, not by numbers that other links have too"""
    l = [f for f in ctx.F.fns.values() if f.path.startswith("<" + CR + "rcvlink::ReceiverLink as ") and f.name in ("eq", "hash")]
    ctx.floor("comparison and hash of links", len(l), 2)
    for f in l:
        E, ps = runp(ctx, f, Spec(("Hash::hash",), (), ()), live=False)
        for p in ps:
            if p.out != "ret":
                continue
            ts = [p.ret] if f.name == "eq" else [e.args[0] for e in p.events]
            for t in ts:
                fs = [y for y in walk(t) if y.k == "F"]
                deep = [y for y in fs if y.a[1][1:] != ("", "inner") and y.a[1][2] != "inner" and y.a[1][0] != "*"]
                ctx.ob("identity:" + f.name, bool(fs) and not deep, "%s: links are told apart by %s" % (where(f), show(t)[:100]))


def late(ctx):
    """a link that goes away while the publish service is being told of it is reported as gone"""
    op = lambda g: g.path.endswith(("ConnectionInner::set_error", "SessionInner::handle_flow", "::notify_service", "::close_with_error", "::confirm_receiver_link", "::set_link_credit")) or (g.impl_trait or "").endswith("Drop")
    hc, w, ps = hcf(ctx, Spec(CALL + ("ReceiverLink::confirm_receiver_link", "ReceiverLink::close_with_error"), (), ("await",)), op, live=False)
    n = 0
    for p in ps:
        if ctl_kinds(ctx, p) != {"AttachReceiver"}:
            continue
        sv = [e for e in p.events if e.kind == "call" and short(e.name) in CALL and contains(e.args[0], lambda y: adt_field(y) == (DSP, "service"))]
        told = [e for e in sv if e.args[1].k == "A" and e.args[1].a[1] == "Attached"]
        if not told:
            continue
        t, r = result(p, told[0])
        if r != "Ok":
            continue
        cl = [istrue(x) for u, x in p.state.facts.items() if adt_field(u) == LCLOSED[1] and within_field(u, ("FrameInner", "kind"))]
        conf = mcall(p, "ReceiverLink::confirm_receiver_link")
        gone = [e for e in sv if e.args[1].k == "A" and e.args[1].a[1] == "Detached"]
        # the last look is after the answer
        if not cl or len(cl) < 2:
            ctx.bad("late:looked", "%s: a link is confirmed without looking whether it is still there" % w)
            continue
        if cl[-1] is True:
            n += 1
            ctx.ob("late:released", len(gone) == 1 and awaited(p, gone[0]) and within_field(gone[0].args[1].a[2][0][1], ("FrameInner", "kind")), "%s: a link that is gone while the publish service was attaching it "
                   "is not reported to it as detached" % w)
            ctx.ob("late:unconfirmed", not conf, "%s: a link that is gone is confirmed" % w)
        else:
            ctx.ob("late:kept", not gone, "%s: an attached link is reported as detached" % w)
    ctx.floor("links gone while being attached", n, 1)
