"""R01 - R08: obligations of the protocol engine towards the peer."""
from mainlib import *
from r_snd import need, dot, truth, uncast, within_field, present
from r_rcv import some
from r_end import (SI, CI, SL, RL, DI, LINKS, NAMES, HANDLES, PENDING, SERR, SFLAGS, SNDMAP, RCVMAP, SESSIONS, SMAP, CERR, SLOT, where, endspec, calls, known,
                   names_of, variants, link_kinds, slot_of, slot_shape, slot_writes, action_of, is_err, is_ok, before_present, sess_state, posted, by_tail, ctl_kinds, Turn,
                   shapes, co)

CSTATE = (CI, "state")
ID = (SI, "id")
INS = ("Slab::insert", "VacantEntry::insert")
FRAME = lambda ctx: [k for k in ctx.F.adts if k.endswith("::Frame")][0]
CH = P("channel")
SESSION_FRAMES = ("Attach", "Flow", "Transfer", "Disposition", "Detach", "End")


def encs(p):
    return [e for e in p.events if is_enc(e)]


def kinds_of(p):
    return [frame(e)[1] for e in encs(p)]


def frame_term(ctx, kind):
    """an arbitrary frame of this kind that arrives on an arbitrary channel"""
    af = [k for k in ctx.F.adts if k.endswith("::AmqpFrame")][0]
    body = aggl(FRAME(ctx), kind, *([P("body")] if kind != "Empty" else []))
    return mk("A", af, "AmqpFrame", (("channel_id", CH), ("performative", body)))


def on_frame(ctx, kind, spec=None, live=True, pin=(), **kw):
    f = ctx.fn("ConnectionRef::handle_frame")
    E, ps = runp(ctx, f, spec or endspec(ENC + INS, SLOT, ("retain",)), args=[P("self"), frame_term(ctx, kind)], live=live,
                 pin=[SESSIONS, SMAP, LINKS, CERR, SERR, CSTATE] + list(pin), max_paths=kw.pop("max_paths", 300000), **kw)
    return f, [p for p in ps if p.out == "ret"]


def was_normal(p):
    """state of the connection when the function was entered: True / False / None (not looked at)"""
    for t, x in p.state.facts.items():
        if t.k == "F" and adt_field(t) == CSTATE and t.a[2] in (0, (0, 0)):
            n = names_of(x)
            if n:
                return x == ("is", "Normal") if x[0] == "is" else False if "Normal" in n else None
        if t.k == "B" and t.a[0] in ("Eq", "Ne") and x[0] == "eq":
            v = bool(x[1]) == (t.a[0] == "Eq")
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if adt_field(a) == CSTATE and show(b).endswith("Normal"):
                    return v
    return None


def chan_of_session(t):
    """the channel of a frame is our own number of the session: its id, or the slot it is going to live in"""
    t = uncast(t)
    return adt_field(t) == ID or t.k == "X" and t.a[0].split("::")[-1] in ("key", "vacant_key", "insert") and any(isq2(a, SESSIONS) for a in t.a[1])


def isq2(t, af):
    return isq(t, af) or contains(t, lambda y: adt_field(y) == af)


# ---- R02 ------------------------------------------------------------------------------------------------------
def r02(ctx):
    for x in (SESSIONS, SMAP, CERR, CSTATE, LINKS, SERR, SFLAGS, ID):
        need(ctx, *x)
    begin(ctx)
    end(ctx)
    detach(ctx)
    close(ctx)
    local(ctx)


def ret_ok(p):
    return p.ret is not None and is_ok(p.ret)


def begin(ctx):
    f, ps = on_frame(ctx, "Begin")
    w = where(f)
    n = {"opened by the peer": 0, "answers of the peer": 0, "refused": 0}
    for p in ps:
        if before_present(p, CERR) is True:
            continue
        k = kinds_of(p)
        rc = [x for t, x in p.state.facts.items() if adt_field(t) == ("BeginInner", "remote_channel") and names_of(x)]
        if not ret_ok(p):
            n["refused"] += 1
            ctx.ob("begin:refused", not k, "%s: a begin that is an error is answered" % w)
            continue
        if not rc:
            ctx.bad("begin:looked", "%s: a begin is handled without looking whether it answers one of ours" % w)
            continue
        theirs = rc[0] == ("is", "None") or rc[0][0] == "not" and "Some" in rc[0][1]
        if not theirs:
            n["answers of the peer"] += 1
            ctx.ob("begin:not-answered", not k, "%s: a begin that answers ours is answered again" % w)
            continue
        n["opened by the peer"] += 1
        ctx.ob("begin:answered", k == ["Begin"], "%s: a begin of the peer is answered with %s" % (w, k or "nothing"))
        for e in encs(p):
            c, kd, b = frame(e)
            if kd != "Begin":
                continue
            v = part(b, "remote_channel")
            ctx.ob("begin:names-channel", v is not None and some(v) is not None and uncast(some(v)) is CH, "%s: the answer to a begin does not name the channel of the peer" % w)
            ctx.ob("begin:own-channel", c is not None and chan_of_session(c), "%s: the answer to a begin does not go out on the new session's channel" % w)
    for k, v in n.items():
        ctx.floor("Begin frames: " + k, v, 1)


def end(ctx):
    se = ctx.fn("SessionInner::set_error")
    f, ps = on_frame(ctx, "End", opaque=lambda g: g.id == se.id)
    w = where(f)
    n = {"opened": 0, "answers": 0, "unknown": 0}
    for p in ps:
        if before_present(p, CERR) is True:
            continue
        k = kinds_of(p)
        if not ret_ok(p):
            n["unknown"] += 1
            ctx.ob("end:unknown", not k, "%s: an end for an unknown session is answered" % w)
        elif sess_state(p, "Established") is True:
            n["opened"] += 1
            ctx.ob("end:answered", k == ["End"], "%s: an end of the peer is answered with %s" % (w, k or "nothing"))
            for e in encs(p):
                ctx.ob("end:own-channel", frame(e)[0] is not None and chan_of_session(frame(e)[0]), "%s: the answer to an end does not go out on the session's channel" % w)
        elif sess_state(p, "Closing") is True:
            n["answers"] += 1
            ctx.ob("end:not-answered", not k, "%s: an end that answers ours is answered again" % w)
        else:
            ctx.bad("end:looked", "%s: an end is handled without looking at the state of the session" % w)
    for k, v in n.items():
        ctx.floor("End frames: " + k, v, 1)


def no_error_payload(p):
    return None


def own_handle(b, sl):
    """the handle in the frame is the link's own: its slot, or the number kept in it"""
    from r_end import link_id
    h = part(b, "handle") if b is not None else None
    return h is not None and link_id(sl[2], [sl[0]])(h)


def detach(ctx):
    f = ctx.fn("SessionInner::handle_frame")
    E, ps = runp(ctx, f, endspec(ENC, SLOT), args=[P("self"), aggl(FRAME(ctx), "Detach", P("body"))], live=True, pin=[LINKS, HANDLES, SERR, (SL, "id")], max_paths=200000)
    w = where(f)
    kinds = link_kinds(ctx)
    want = {("Left", "Established"): ["Detach"], ("Left", "OpeningRemote"): ["Attach", "Detach"], ("Left", "Closing"): [],
            ("Right", "Established"): ["Detach"], ("Right", "Opening"): ["Attach", "Detach"], ("Right", "Closing"): []}
    n = dict.fromkeys(want, 0)
    for p in ps:
        if p.out != "ret" or before_present(p, SERR) is True:
            continue
        sl = slot_of(p)
        k = kinds_of(p)
        if sl is None:
            ctx.ob("detach:unknown", not k, "%s: a detach for an unknown link is answered" % w)
            continue
        for sh in slot_shape(ctx, p, sl[2], kinds):
            if sh not in want:
                continue
            n[sh] += 1
            exp = want[sh]
            if sh[1] == "Opening" and any(x == ("is", "None") and within(t, sl[2]) for t, x in p.state.facts.items()):
                exp = []
            ctx.ob("detach:answered:%s:%s" % sh, k == exp, "%s: a detach for a link that is %s is answered with %s" % (w, sh[1], k or "nothing"))
            for e in encs(p):
                c, kd, b = frame(e)
                ctx.ob("detach:own-channel", c is not None and chan_of_session(c), "%s: the answer to a detach does not go out on the session's channel" % w)
                ctx.ob("detach:own-handle", own_handle(b, sl), "%s: the answer to a detach does not carry our handle of the link" % w)
    for k, v in n.items():
        ctx.floor("Detach frames for a link %s %s" % k, v, 1)


def close(ctx):
    se = ctx.fn("SessionInner::set_error")
    f, ps = on_frame(ctx, "Close", live=False, opaque=lambda g: g.id == se.id)
    w = where(f)
    n = {"opened": 0, "answers": 0}
    for p in ps:
        s = was_normal(p)
        k = kinds_of(p)
        if s is True:
            n["opened"] += 1
            ctx.ob("close:answered", k == ["Close"], "%s: a close of the peer is answered with %s" % (w, k or "nothing"))
            for e in encs(p):
                ctx.ob("close:channel", frame(e)[0] is C(0), "%s: a close is not sent on channel 0" % w)
        elif s is False:
            n["answers"] += 1
            ctx.ob("close:not-answered", not k, "%s: a close is answered although ours has been sent" % w)
        else:
            ctx.bad("close:looked", "%s: a close is handled without looking whether ours has been sent" % w)
    for k, v in n.items():
        ctx.floor("Close frames: " + k, v, 1)


def not_established(x):
    n = names_of(x)
    return bool(n) and n <= {"Opening", "Established", "Closing"} and ("Established" not in n if x[0] == "is" else "Established" in n)


def local(ctx):
    """our own end, detach and close go out once"""
    from r_end import flag_known
    f = ctx.fn("Session::end")
    w = where(f)
    E, ps = runp(ctx, f, endspec(ENC, SLOT), live=False, pin=[SFLAGS, CSTATE, SESSIONS], opaque=lambda g: g.path.endswith("get_all_links"))
    n = [0, 0]
    for p in ps:
        if p.out != "ret":
            continue
        ended = any((lambda r: r and r[0] & {"ENDED", "ENDING"} and r[1] in ("any", "all"))(flag_known(t, x, SFLAGS)) for t, x in p.state.facts.items())
        k = kinds_of(p)
        if ended:
            n[0] += 1
            ctx.ob("local:end-once", not k, "%s: an end is sent for a session that is ended or ending" % w)
        elif was_normal(p) is True:
            n[1] += 1
            ctx.ob("local:end", k == ["End"] and chan_of_session(frame(encs(p)[0])[0]), "%s: ending a session sends %s" % (w, k or "nothing"))
            away = any(t.k in ("X", "F") and contains(t, lambda y: adt_field(y) == SESSIONS) and (x == ("is", "None") or not_established(x)) for t, x in p.state.facts.items())
            mark = [e for e in p.events if e.kind == "write" and e.args[1].k == "A" and e.args[1].a[0].endswith("SessionState")]
            ctx.ob("local:end-marked", away or bool(mark) and mark[-1].args[1].a[1] == "Closing", "%s: an end is sent and the session is not marked as waiting for the answer" % w)
    ctx.floor("local ends of an ended session", n[0], 1)
    ctx.floor("local ends", n[1], 1)
    n = [0, 0]
    for name in ("ConnectionRef::close", "ConnectionRef::close_with_error"):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, endspec(ENC), live=False, pin=[CSTATE])
        for p in ps:
            if p.out != "ret":
                continue
            k = kinds_of(p)
            s = was_normal(p)
            if s is True:
                n[0] += 1
                ctx.ob("local:close", k == ["Close"] and frame(encs(p)[0])[0] is C(0), "%s: closing the connection sends %s" % (w, k or "nothing"))
                ctx.ob("local:close-marked", any(wr(e, dot(CSTATE)) for e in p.events), "%s: a close is sent and not remembered" % w)
            else:
                n[1] += s is False
                ctx.ob("local:close-once", not k, "%s: a close is sent although one has been sent" % w)
    ctx.floor("local closes", n[0], 2)
    ctx.floor("local closes of a closed connection", n[1], 2)
    kinds = link_kinds(ctx)
    n = {}
    for name in ("Session::detach_sender_link", "Session::detach_receiver_link"):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, endspec(ENC, SLOT), live=True, pin=[LINKS])
        for p in ps:
            if p.out != "ret":
                continue
            sl = slot_of(p)
            k = kinds_of(p)
            if sl is None:
                ctx.ob("local:detach-unknown", not k, "%s: a detach is sent for a link that does not exist" % w)
                continue
            for sh in slot_shape(ctx, p, sl[2], kinds):
                mine = sh[0] == ("Left" if "sender" in name else "Right")
                if not mine or sh[1] == "Closing":
                    ctx.ob("local:detach-once", not k, "%s: a detach is sent for a link that is detached already" % w)
                else:
                    n[sh] = n.get(sh, 0) + 1
                    exp = ["Attach", "Detach"] if sh in (("Left", "OpeningRemote"), ("Right", "Opening")) else ["Detach"]
                    if sh == ("Right", "Opening") and any(x == ("is", "None") and within(t, sl[2]) for t, x in p.state.facts.items()):
                        exp = []
                    ctx.ob("local:detach:%s:%s" % sh, k == exp, "%s: detaching a link that is %s sends %s" % (w, sh[1], k or "nothing"))
                    ctx.ob("local:detach-remembered", any(s == sh[0] and v == "Closing" for s, v, _, _ in slot_writes(p)), "%s: a detach is sent and the link is not "
                           "marked as closing" % w)
    for s in ("Left", "Right"):
        ctx.floor("local detaches " + s, n.get((s, "Established"), 0), 1)


# ---- R01 ------------------------------------------------------------------------------------------------------
MIRROR = {"Receiver": ("Left", "Opening", "OpeningRemote", "AttachSender", "Sender"), "Sender": ("Right", "OpeningLocal", "Opening", "AttachReceiver", "Receiver")}


def r01(ctx):
    for x in (LINKS, NAMES, HANDLES, ("FrameInner", "kind"), (SL, "closed"), ("ReceiverLinkInner", "closed")):
        need(ctx, *x)
    attach(ctx)
    routed(ctx)
    processed(ctx)
    confirmed(ctx)
    withdrawn(ctx)


def withdrawn(ctx):
    """a link that is detached by either side before it is answered: the peer's attach is answered once all the same"""
    kinds = link_kinds(ctx)
    n = {}
    fs = [("SessionInner::handle_frame", [P("self"), aggl(FRAME(ctx), "Detach", P("body"))]), ("Session::detach_sender_link", None), ("Session::detach_receiver_link", None)]
    for nme, a in fs:
        f = ctx.fn(nme)
        w = where(f)
        E, ps = runp(ctx, f, endspec(ENC, SLOT), args=a, live=True, pin=[LINKS, HANDLES, SERR, (SL, "id")], max_paths=200000)
        for p in ps:
            sl = slot_of(p)
            if p.out != "ret" or before_present(p, SERR) is True or sl is None:
                continue
            k = kinds_of(p)
            for sh in slot_shape(ctx, p, sl[2], kinds):
                if sh not in (("Left", "OpeningRemote"), ("Right", "Opening")) or "detach_" in nme and sh[0] != ("Left" if "sender" in nme else "Right"):
                    continue
                gone = sh[0] == "Right" and any(x == ("is", "None") and within(t, sl[2]) for t, x in p.state.facts.items())
                n[nme, sh] = n.get((nme, sh), 0) + 1
                ctx.ob("withdrawn:answered:%s:%s" % (f.name, sh[1]), k.count("Attach") == (0 if gone else 1) and (gone or k[0] == "Attach"), "%s: an attach of the peer that is withdrawn before "
                       "it is confirmed is answered with %s" % (w, k or "nothing"))
                for e in encs(p):
                    c, kd, b = frame(e)
                    if kd == "Attach":
                        ctx.ob("withdrawn:role:%s:%s" % (f.name, sh[1]), isrole(part(b, "role"), "Sender" if sh[0] == "Left" else "Receiver"), "%s: a withdrawn attach is answered with the wrong "
                               "role" % w)
                        ctx.ob("withdrawn:handle:%s:%s" % (f.name, sh[1]), own_handle(b, sl), "%s: the answer to a withdrawn attach does not carry our handle" % w)
    for k in (("SessionInner::handle_frame", ("Left", "OpeningRemote")), ("SessionInner::handle_frame", ("Right", "Opening")), ("Session::detach_sender_link", ("Left", "OpeningRemote")),
              ("Session::detach_receiver_link", ("Right", "Opening"))):
        ctx.floor("withdrawn %s" % (k[0] + " " + k[1][1]), n.get(k, 0), 1)


def role_of(p, t=None):
    """role in the frame (within t, or the frame that arrived)"""
    al = {"Sender", "Receiver"}
    for u, x in p.state.facts.items():
        n = names_of(x)
        if n and n <= {"Sender", "Receiver"} and adt_field(u) == ("AttachInner", "role") and within(u, P("body") if t is None else t):
            al = al & n if x[0] == "is" else al - n
    return next(iter(al)) if len(al) == 1 else None


def by_name(t):
    """slot of the link that has the name in the frame"""
    t = deref(t)
    if t.k == "F" and t.a[1][1:] == ("Some", "0"):
        t = t.a[0]
    return t.k == "X" and t.a[0].split("::")[-1] in ("get", "remove") and isq2(t.a[1][0], NAMES) and contains(t.a[1][1], lambda y: adt_field(y) == ("AttachInner", "name"))


def deref(t):
    while t is not None and (t.k == "&" or t.k == "F" and t.a[1][0] == "*" or t.k == "X" and t.a[0].split("::")[-1] in ("deref", "cast", "clone", "copied", "cloned")):
        t = t.a[0] if t.k in ("F", "&") else t.a[1][-1]
    return t


def inserted(p, af):
    """(key, value) of entries added to the table"""
    out = []
    for e in p.events:
        if e.kind == "call" and short(e.name).split("::")[-1] == "insert" and isq2(e.args[0], af):
            out.append((e.args[1], e.args[2]) if len(e.args) > 2 else (e.args[0], e.args[1]))
    return out


def slab_added(p, af):
    """(the new slot's number, value) of elements added to the slab"""
    out = []
    for e in p.events:
        if e.kind == "call" and short(e.name) in INS and isq2(e.args[0], af):
            out.append((e, e.args[-1]))
    return out


def new_key(t, af):
    """the number of the slot that is being filled"""
    t = uncast(t)
    return t.k == "X" and t.a[0].split("::")[-1] in ("key", "vacant_key", "insert") and isq2(t.a[1][0], af)


def of_body(t, field):
    return t is not None and adt_field(deref(t)) == field and within(t, P("body"))


def attach(ctx):
    f, ps = on_frame(ctx, "Attach", endspec(ENC + INS + ("HashMap::insert",), SLOT, ("retain",)), pin=[("AttachInner", "role")])
    w = where(f)
    kinds = link_kinds(ctx)
    n = {"answers to our sender": 0, "answers to our receiver": 0, "for a link we closed": 0, "new sender": 0, "new receiver": 0}
    for p in ps:
        if before_present(p, CERR) is True or sess_state(p, "Established") is not True:
            continue
        if not ret_ok(p):
            ctx.ob("attach:refused", not encs(p) and not inserted(p, HANDLES), "%s: an attach that is an error has an effect" % w)
            continue
        act = action_of(p)
        if act is None:
            ctx.bad("attach:action", "%s: cannot tell what is done with an attach" % w)
            continue
        role = role_of(p)
        if role is None:
            ctx.bad("attach:role", "%s: an attach is handled without looking at its role" % w)
            continue
        side, own, fresh, action, ours = MIRROR[role]
        sl = slot_of(p)
        sh = slot_shape(ctx, p, sl[2], kinds) if sl is not None and by_name(sl[0]) else set()
        ctx.ob("attach:no-frame", not encs(p), "%s: an attach is answered before the application has seen it" % w)
        hs = inserted(p, HANDLES)
        if act.a[1] == "None":
            mine = bool(sh) and all(s[0] == side and s[1] in (own, "Closing") for s in sh)
            ctx.ob("attach:own", mine, "%s: an attach of the peer that answers none of our requests is dropped" % w)
            if not mine:
                continue
            broken = any(x == ("is", "None") and within(t, sl[2]) and contains(t, lambda y: y.k == "F" and y.a[1][1] == own) for t, x in p.state.facts.items())
            if not (broken and side == "Right"):
                ctx.ob("attach:own-mapped", len(hs) == 1 and of_body(hs[0][0], ("AttachInner", "handle")) and by_name(hs[0][1]), "%s: the peer's handle does not lead to "
                       "the link its attach is for" % w)
            else:
                # the request is gone, nothing waits
                continue
            ctx.ob("attach:own-added", not slab_added(p, LINKS), "%s: an answer to our attach creates another link" % w)
            if all(s[1] == "Closing" for s in sh):
                n["for a link we closed"] += 1
                ctx.ob("attach:own-first", mapped(p) is False, "%s: an attach for a link that the peer has attached before and has still to detach is dropped" % w)
                ctx.ob("attach:closing", not slot_writes(p), "%s: an answer to our attach revives a link we have closed" % w)
                continue
            n["answers to our " + ("sender" if side == "Left" else "receiver")] += 1
            sw = slot_writes(p)
            ctx.ob("attach:established", [(s, v) for s, v, _, _ in sw] == [(side, "Established")], "%s: the peer has attached our link and it does not become established" % w)
            tx = [e for e in calls(p.events, "Sender::send")]
            if not broken:
                ctx.ob("attach:completed", len(tx) == 1 and within(tx[0].args[0], sl[2]) and is_ok(tx[0].args[1]), "%s: the peer has attached our link and who asked for it is not "
                       "told" % w)
        else:
            n["new " + ours.lower()] += 1
            if any(s[0] == side and s[1] == own for s in sh):
                ctx.bad("attach:not-own", "%s: an answer to our attach is treated as a new link" % w)
            if any(s[0] == side and s[1] == "Closing" for s in sh):
                ctx.ob("attach:not-closing", mapped(p) is True, "%s: an answer to our attach of a link that is closed by now is treated as a new link" % w)
            ctx.ob("attach:action-kind", act.a[1] == action, "%s: an attach with role %s leads to %s" % (w, role, act.a[1]))
            if act.a[1] != action:
                continue
            add = slab_added(p, LINKS)
            ctx.ob("attach:added", len(add) == 1 and slot_value(add[0][1]) == (side, fresh), "%s: an attach of the peer does not create a link that waits for the application" % w)
            ctx.ob("attach:mapped", len(hs) == 1 and of_body(hs[0][0], ("AttachInner", "handle")) and new_key(hs[0][1], LINKS), "%s: the peer's handle does not lead to the link "
                   "it attaches" % w)
            d = dict(act.a[2])
            ctx.ob("attach:frame", deref(d.get("1")) is not None and contains(d["1"], lambda y: y is P("body")), "%s: the application does not get the peer's attach" % w)
            r = d.get("2")
            ctx.ob("attach:response-role", isrole(part(r, "role"), ours), "%s: the answer to an attach with role %s does not have the opposite role" % (w, role))
            ctx.ob("attach:response-handle", part(r, "handle") is not None and new_key(part(r, "handle"), LINKS), "%s: the answer to an attach does not carry our handle" % w)
            ctx.ob("attach:response-name", of_body(part(r, "name"), ("AttachInner", "name")), "%s: the answer to an attach does not carry the name of the link" % w)
            if add:
                lk = d.get("0")
                cell = [e for e in p.events if e.kind == "alloc"]
                objs = {e.args[0] for e in cell if contains(add[0][1], lambda y: y is e.args[0])}
                ctx.ob("attach:same-link", lk is not None and any(contains(lk, lambda y: y is o) for o in objs), "%s: the application gets another link than the one that is kept" % w)
    for k, v in n.items():
        ctx.floor("Attach frames: " + k, v, 1)


def mapped(p):
    """some handle of the peer leads to the link already (something was looked up in the table of the peer's handles)"""
    for t, x in p.state.facts.items():
        if t.k == "X" and t.a[0].split("::")[-1] in ("any", "all", "find", "contains") and contains(t, lambda y: adt_field(y) == HANDLES):
            want = 0 if t.a[0].split("::")[-1] == "all" else 1
            if x == ("eq", want) or x[0] == "ne" and (1 - want) in x[1] or x == ("is", "Some"):
                return True
            return False
    return None


def slot_value(v):
    if v.k == "A" and v.a[0].endswith("Either") and v.a[2]:
        u = v.a[2][0][1]
        if u.k == "A":
            return v.a[1], u.a[1]
    return None


def isrole(t, name):
    return t is not None and t.k == "A" and t.a[1] == name


def routed(ctx):
    """a link the peer attaches is handed to the control service once, with what has to be answered"""
    f = co(ctx, "Dispatcher", "call")
    w = where(f)
    E, ps = runp(ctx, f, Spec(("PipelineBinding::call", "Pipeline::call", "Vec::push", "VecDeque::push_back"), (), ("await", "alloc")), live=False,
                 opaque=lambda g: g.path.endswith("ConnectionRef::handle_frame"), pin=[("ConnectionRef::handle_frame", "")])
    n = {"AttachSender": 0, "AttachReceiver": 0}
    for p in ps:
        if p.out != "ret":
            continue
        k = [(t, x[1]) for t, x in p.state.facts.items() if x[0] == "is" and x[1] in n and "handle_frame" in show(t)]
        if not k:
            continue
        t, v = k[0]
        n[v] += 1
        al = {e.args[0]: e.args[1] for e in p.events if e.kind == "alloc"}
        cl = [e for e in p.events if e.kind == "call" and short(e.name).endswith("::call")]
        ctx.ob("routed:once:" + v, len(cl) == 1 and within_field(cl[0].args[0], ("Dispatcher", "ctl_service")), "%s: a link attached by the peer is not handed to the control service "
               "exactly once" % w)
        if len(cl) != 1:
            continue
        o = [al[y] for y in al if contains(cl[0].args[1], lambda z: z is y)]
        fr = part(o[0], "kind") if o else None
        good = fr is not None and fr.k == "A" and fr.a[1] == v and all(contains(dict(fr.a[2])[i], lambda y: y.k == "F" and y.a[0] is t and y.a[1][2] == j)
                                                                     for i, j in (("0", "1"), ("1", "2"), ("2", "0")))
        ctx.ob("routed:frame:" + v, good, "%s: the control service does not get the attach, its answer and the link" % w)
        ss = part(o[0], "session") if o else None
        ctx.ob("routed:session:" + v, ss is not None and some(ss) is not None and within(some(ss), t), "%s: the control frame does not name the link's session" % w)
        ps_ = [e for e in p.events if e.kind == "call" and short(e.name).split("::")[-1].startswith("push") and within_field(e.args[0], ("Dispatcher", "ctl_fut"))]
        ctx.ob("routed:kept:" + v, len(ps_) == 1 and any(contains(ps_[0].args[1], lambda z: z is y) for y in al), "%s: the answer of the control service is not waited for" % w)
    for k, v in n.items():
        ctx.floor("actions " + k, v, 1)


def processed(ctx):
    """the answer of the control service is handled once, for the frame it was asked about, with its outcome"""
    l = [g for g in ctx.F.fns.values() if "Dispatcher" in g.path and g.name == "poll" and "DispatchItem" in g.path and not g.coroutine]
    if not l:
        raise __import__("check").Missing("Dispatcher::poll")
    f, w = l[0], where(l[0])
    hc = by_tail(ctx, "handle_control_frame", "Dispatcher")
    nm = short(hc.path)
    E, ps = runp(ctx, f, Spec((nm, "PipelineBinding::call", "Pipeline::call", "Vec::push", "Vec::swap_remove", "Vec::remove"), (), ("await",)), live=False,
                 opaque=lambda g: g.id == hc.id, tune=lambda E: (setattr(E, "exact_loops", True), setattr(E, "loop_visits", 3)), pin=[(nm, ""), ("await", "")])
    n = {"Ok": 0, "Err": 0, "pending": 0, "queued": 0}
    for p in ps:
        if p.out != "ret":
            continue
        hs = [e for e in p.events if e.kind == "call" and short(e.name) == nm]
        for e in hs:
            item = [y for y in terms(e.args[1]) if y.k == "X" and y.a[0].split("::")[-1] in ("swap_remove", "remove")]
            ctx.ob("processed:taken", len(item) == 1, "%s: a control frame is handled and its future is kept" % w)
            if not item:
                continue
            idx = item[0].a[1][1]
            at = [(t, x) for t, x in p.state.facts.items() if t.k == "X" and t.a[0] == "await" and contains(t, lambda y: y.k == "X" and y.a[0].split("::")[-1] in ("index_mut", "index",
                  "get_mut") and y.a[1][1] is idx)]
            st = {x[1] for t, x in at if x[0] == "is" and x[1] in ("Ok", "Err")}
            er = e.args[2]
            if er.k == "A" and er.a[1] == "None":
                n["Ok"] += 1
                ctx.ob("processed:ok", st == {"Ok"} or st >= {"Ok"} and len(hs) > 1, "%s: a control frame is handled as accepted although its service has failed" % w)
            elif er.k == "A" and er.a[1] == "Some":
                n["Err"] += 1
                ctx.ob("processed:err", "Err" in st and any(contains(er, lambda y: y is t) for t, x in at), "%s: a control frame is handled as refused with an error that is not its own" % w)
            else:
                ctx.bad("processed:unknown", "%s: cannot tell the outcome a control frame is handled with" % w)
        took = [e for e in p.events if e.kind == "call" and short(e.name).split("::")[-1] in ("swap_remove", "remove") and within_field(e.args[0], ("Dispatcher", "ctl_fut"))]
        ctx.ob("processed:handled", len(took) == len(hs), "%s: a control frame is taken out and not handled" % w)
        ready = [t for t, x in p.state.facts.items() if t.k == "X" and t.a[0] == "await" and x[0] == "is" and x[1] in ("Ok", "Err")]
        q = [e for e in p.events if e.kind == "call" and short(e.name).endswith("::call")]
        pu = [e for e in p.events if e.kind == "call" and short(e.name) == "Vec::push" and within_field(e.args[0], ("Dispatcher", "ctl_fut"))]
        n["queued"] += len(q)
        ctx.ob("processed:queued", len(q) == len(pu) and all(contains(b.args[1], lambda y: y is a.args[1]) or a.args[1].k == "A" for a, b in zip(q, pu)),
               "%s: a control frame is given to the service and its answer is not waited for" % w)
        n["pending"] += not ready
    for k in ("Ok", "Err", "queued"):
        ctx.floor("control frames " + k, n[k], 1)


def terms(t):
    out, seen = [], set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        out.append(y)
    contains(t, lambda y: (go(y), False)[1])
    return out


def confirmed(ctx):
    """handle_control_frame: one attach for a link that is accepted, attach and detach for one that is refused"""
    hc = by_tail(ctx, "handle_control_frame", "Dispatcher")
    w = where(hc)
    kinds = link_kinds(ctx)
    op = lambda g: g.path.endswith(("ConnectionInner::set_error", "SessionInner::handle_flow", "::notify_service"))
    E, ps = runp(ctx, hc, endspec(ENC + ("PipelineBinding::call", "Pipeline::call"), SLOT), live=True, opaque=op, max_paths=100000,
                 pin=[("FrameInner", "kind"), (SL, "closed"), ("ReceiverLinkInner", "closed"), LINKS, SFLAGS, CSTATE, ("await", "")])
    n = {}
    er = P("err")
    for p in ps:
        if p.out != "ret":
            continue
        ks = ctl_kinds(ctx, p)
        if not ks & {"AttachSender", "AttachReceiver"}:
            continue
        if len(ks) > 1:
            ctx.bad("confirmed:mixed", "%s: attach frames are handled without telling senders from receivers" % w)
            continue
        v = next(iter(ks))
        side, fresh, role = ("Left", "OpeningRemote", "Sender") if v == "AttachSender" else ("Right", "Opening", "Receiver")
        fx = p.state.facts.get(er)
        if fx is None or fx[0] != "is" and not (fx[0] == "not" and len(fx[1]) == 1):
            ctx.bad("confirmed:looked", "%s: the outcome of the control service is not looked at" % w)
            continue
        failed = fx == ("is", "Some") or fx == ("not", frozenset({"None"}))
        cl = [istrue(x) for t, x in p.state.facts.items() if adt_field(t) in ((SL, "closed"), ("ReceiverLinkInner", "closed")) and within_field(t, ("FrameInner", "kind"))]
        gone = bool(cl) and cl[0] is True
        late = bool(cl) and cl[-1] is True
        k = [x for x in kinds_of(p) if x != "Flow"]
        sl = slot_of(p)
        sh = slot_shape(ctx, p, sl[2], kinds) if sl is not None else set()
        service = [e for e in p.events if e.kind == "call" and short(e.name).endswith("::call") and within_field(e.args[0], ("Dispatcher", "service"))]
        if gone:
            n[v, "gone"] = n.get((v, "gone"), 0) + 1
            ctx.ob("confirmed:gone:" + v, not k and not service, "%s: a link that is detached already is confirmed" % w)
            continue
        outcome = [x[1] for t, x in p.state.facts.items() if t.k == "X" and t.a[0] == "await" and x[0] == "is" and x[1] in ("Ok", "Err")]
        if v == "AttachReceiver" and not failed:
            told = [e for e in service if e.args[1].k == "A" and e.args[1].a[1] == "Attached"]
            ctx.ob("confirmed:service", len(told) == 1 and service[0] is told[0] and msg_attached(told[0].args[1]), "%s: an accepted receiver link is not announced to the publish service once" % w)
            if not outcome:
                ctx.bad("confirmed:service-outcome", "%s: the answer of the publish service to a new link is not looked at" % w)
                continue
            failed = outcome[0] == "Err"
        else:
            ctx.ob("confirmed:no-service", not service, "%s: a refused link or a sender link is announced to the publish service" % w)
        if late:
            n[v, "late"] = n.get((v, "late"), 0) + 1
            ctx.ob("confirmed:late:" + v, not k, "%s: a link that is detached meanwhile is confirmed" % w)
            continue
        if v == "AttachSender" and sl is None:
            # the slot is addressed without looking at it (the peer cannot have taken it: the link is not closed)
            sh = {(side, fresh)}
        if (side, fresh) not in sh:
            ctx.ob("confirmed:attach-once:" + v, "Attach" not in k, "%s: an attach is sent for a link that does not wait for one" % w)
            continue
        if v == "AttachReceiver" and any(x == ("is", "None") and within(t, sl[2]) and contains(t, lambda y: y.k == "F" and y.a[1][1] == fresh) for t, x in p.state.facts.items()):
            ctx.ob("confirmed:attach-once:" + v, "Attach" not in k, "%s: an attach is sent for a link that does not wait for one" % w)
            continue
        key = (v, "refused" if failed else "accepted")
        n[key] = n.get(key, 0) + 1
        exp = ["Attach", "Detach"] if failed else ["Attach"]
        ctx.ob("confirmed:answer:%s:%s" % key, k == exp, "%s: a link the peer attaches and the application %s is answered with %s" % (w, key[1], k or "nothing"))
        for e in encs(p):
            c, kd, b = frame(e)
            if kd == "Flow":
                continue
            ctx.ob("confirmed:channel", c is not None and chan_of_session(c), "%s: the answer to an attach does not go out on the session's channel" % w)
            if kd == "Attach" and failed:
                ctx.ob("confirmed:role", isrole(part(b, "role"), role), "%s: a refused attach is answered with the wrong role" % w)
            if kd == "Attach" and not failed:
                ctx.ob("confirmed:response", b is not None and from_response(p, b), "%s: an attach is not answered with the answer that was prepared for it" % w)
            if kd == "Detach" or failed:
                h = part(b, "handle")
                ctx.ob("confirmed:handle", h is not None and adt_field(uncast(h)) in ((SL, "id"), ("ReceiverLinkInner", "handle")) and within_field(h, ("FrameInner", "kind")),
                       "%s: the refusal of a link does not carry our handle" % w)
            if kd == "Detach":
                e2 = part(b, "error")
                ctx.ob("confirmed:error", e2 is not None and some(e2) is not None and (contains(e2, lambda y: y is er) or contains(e2, lambda y: y.k == "X" and y.a[0] == "await")),
                       "%s: the refusal of a link does not carry the error" % w)
        sw = [(s, x) for s, x, _, _ in slot_writes(p)]
        ctx.ob("confirmed:state:%s:%s" % key, sl is None or sw and sw[-1][1] == ("Closing" if failed else "Established"), "%s: a link the application %s becomes %s" % (w, key[1], sw))
    for v in ("AttachSender", "AttachReceiver"):
        for o in ("accepted", "refused", "gone"):
            ctx.floor("%s %s" % (v, o), n.get((v, o), 0), 1)


def msg_attached(t):
    return t.k == "A" and t.a[1] == "Attached" and all(within_field(y, ("FrameInner", "kind")) for _, y in t.a[2])


def from_response(p, b):
    """the frame is the one kept in the control frame"""
    return contains(b, lambda y: y.k == "F" and within_field(y, ("FrameInner", "kind")) and contains(y, lambda z: z.k == "F" and z.a[1][1] in ("AttachSender", "AttachReceiver") and
                                                                                                    z.a[1][2] == "1"))


def istrue(x):
    return True if x == ("eq", 1) or x[0] == "ne" and 0 in x[1] else False if x == ("eq", 0) or x[0] == "ne" and 1 in x[1] else None


# ---- R03 ------------------------------------------------------------------------------------------------------
EFFECTS = ENC + INS + ("HashMap::insert", "HashMap::remove", "HashMap::clear", "HashMap::retain", "Slab::remove", "Slab::try_remove", "Slab::clear", "Sender::send",
                       "VecDeque::push_back", "VecDeque::push_front", "VecDeque::pop_front", "VecDeque::clear", "Vec::push", "Condition::notify", "Condition::notify_and_lock_readiness",
                       "LocalWaker::wake", "PipelineBinding::call", "Pipeline::call")


def effects(E, st, e):
    """everything that changes or announces something"""
    if e.kind == "write":
        return e
    if e.kind == "call" and short(e.name) in EFFECTS:
        e.args = tuple(E.deepval(st, a) if a is not None else a for a in e.args)
        return e
    return None


def healthy(t, x):
    """the connection is known to have no error when the frame arrives"""
    return t.k == "F" and adt_field(t) == CERR and t.a[2] in (0, (0, 0)) and x in (("is", "None"), ("not", frozenset({"Some"})))


def r03(ctx):
    need(ctx, *CERR)
    need(ctx, *CSTATE)
    n = {}
    vs = variants(ctx, "Frame")
    for k in vs:
        if k in ("Open", "Close"):
            continue
        f, ps = on_frame(ctx, k, effects, live=False, max_paths=300000, tune=lambda E: setattr(E, "dead", healthy))
        w = where(f)
        for p in ps:
            ended = before_present(p, CERR)
            if ended is False:
                continue
            if ended is None:
                if p.events:
                    ctx.bad("ended:looked:" + k, "%s: a %s frame is handled without looking whether the connection has ended" % (w, k))
                elif k == "Empty":
                    n[k] = n.get(k, 0) + 1
                continue
            n[k] = n.get(k, 0) + 1
            ctx.ob("ended:no-effect:" + k, not p.events, "%s: a %s frame has an effect after the connection has ended (%s)" % (w, k, ", ".join(sorted({short(e.name) or e.kind for e in
                   p.events})[:4])))
            a = action_of(p)
            ctx.ob("ended:no-action:" + k, p.ret is not None and (is_err(p.ret) or a is not None and a.a[1] == "None"), "%s: a %s frame leads to work for the application after the "
                   "connection has ended" % (w, k))
    for k in vs:
        if k not in ("Open", "Close"):
            ctx.floor("%s frames after the end" % k, n.get(k, 0), 1)
    f, ps = on_frame(ctx, "Close", endspec(ENC, ("ConnectionInner.state",)), live=False, opaque=lambda g: g.path.endswith("SessionInner::set_error"))
    w = where(f)
    c = [0, 0]
    for p in ps:
        s = was_normal(p)
        if s is True:
            c[0] += 1
            st = [e for e in p.events if wr(e, dot(CSTATE))]
            ctx.ob("close:remembered", bool(st) and not show(st[-1].args[1]).endswith("Normal"), "%s: a close of the peer is answered and not remembered" % w)
        else:
            c[1] += s is False
            ctx.ob("close:once", not encs(p), "%s: a close that is not the first one is answered" % w)
            a = action_of(p)
            ctx.ob("close:once-told", p.ret is not None and (is_err(p.ret) or a is not None and a.a[1] == "None"), "%s: a close that is not the first one is reported to the application" % w)
    ctx.floor("first close", c[0], 1)
    ctx.floor("further close", c[1], 1)
    served(ctx)
    drops(ctx)


def served(ctx):
    """a message is only given to the application while the connection is open"""
    f = co(ctx, "Dispatcher", "call")
    w = where(f)
    E, ps = runp(ctx, f, Spec(("PipelineBinding::call", "Pipeline::call"), (), ("await", "alloc")), live=False,
                 opaque=lambda g: g.path.endswith("ConnectionRef::handle_frame"), pin=[("ConnectionRef::handle_frame", ""), CERR])
    n = [0, 0]
    for p in ps:
        if p.out != "ret":
            continue
        act = [x[1] for t, x in p.state.facts.items() if x[0] == "is" and "handle_frame" in show(t) and x[1] not in ("Ok", "Err", "Some", "None")]
        cl = [e for e in p.events if e.kind == "call" and within_field(e.args[0], ("Dispatcher", "service"))]
        if "Transfer" in act:
            err = [x for t, x in p.state.facts.items() if adt_field(t) == CERR]
            gone = any(x in (("is", "Some"), ("not", frozenset({"None"}))) for x in err)
            ok = any(x in (("is", "None"), ("not", frozenset({"Some"}))) for x in err)
            if cl:
                n[0] += 1
                ctx.ob("served:open", ok and not gone, "%s: a message is given to the application although the connection has ended (or without looking)" % w)
                ctx.ob("served:once", len(cl) == 1, "%s: a message is given to the application more than once" % w)
            elif gone:
                n[1] += 1
        elif any(x == ("is", "Err") and "handle_frame" in show(t) for t, x in p.state.facts.items()):
            ctx.ob("served:error", not [e for e in p.events if e.kind == "call"], "%s: a frame that is an error is given to the application" % w)
        elif "None" in act or not act:
            ctx.ob("served:nothing", not cl, "%s: the application's service is called although a frame asks for nothing" % w)
    ctx.floor("messages served", n[0], 1)
    ctx.floor("messages not served after the end", n[1], 1)


def drops(ctx):
    """no frame leaves once our close, the peer's, or a failure has ended the connection"""
    n = [0, 0]
    for name in ("ConnectionInner::post_frame", "SessionInner::post_frame"):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, endspec(ENC), live=False, pin=[CSTATE])
        for p in ps:
            if p.out != "ret":
                continue
            s = was_normal(p)
            if encs(p):
                n[0] += 1
                ctx.ob("drops:normal", s is True, "%s: a frame is written although the connection is closed (or without looking)" % w)
            else:
                n[1] += s is False
    ctx.floor("frames written", n[0], 2)
    ctx.floor("frames dropped", n[1], 2)


# ---- R06 ------------------------------------------------------------------------------------------------------
CMAX = (CI, "channel_max")


def exact(p, t):
    """no narrowing cast in t, unless the value is known to fit"""
    while t.k == "cast":
        bits = {"u8": 8, "u16": 16, "u32": 32, "i32": 31, "u64": 64, "usize": 64, "i64": 63}.get(t.a[0], 0)
        fits = any(u.k == "B" and u.a[0] == "Lt" and u.a[1].k == "C" and u.a[2] is t.a[1] and x == ("eq", 0) and u.a[1].a[0] < 2 ** bits for u, x in p.state.facts.items())
        if not fits:
            return False
        t = t.a[1]
    return True


def within_limit(p, key):
    """is the number of the slot known to be at most channel_max: True / False (known to be above) / None"""
    def k(t):
        return new_key(t, SESSIONS) and exact(p, t)

    def m(t):
        return adt_field(uncast(t)) == CMAX and exact(p, t)
    for t, x in p.state.facts.items():
        if t.k != "B" or t.a[0] not in ("Lt", "Le", "Gt", "Ge"):
            continue
        v = istrue(x)
        if v is None:
            continue
        op, a, b = t.a[0], t.a[1], t.a[2]
        if m(a) and k(b):
            a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
        if not (k(a) and m(b)):
            continue
        # key op max
        le = {("Gt", False): True, ("Le", True): True, ("Lt", True): True, ("Gt", True): False, ("Le", False): False, ("Ge", False): True, ("Lt", False): None, ("Ge", True): None}[op, v]
        if le is not None:
            return le, (op, v)
        return None, (op, v)
    # narrowed into u16 first
    return None


def r06(ctx):
    need(ctx, *CMAX)
    need(ctx, *SESSIONS)
    os_ = [g for g in ctx.F.fns.values() if g.coroutine and "::open_session::" in g.path and "ConnectionRef" not in g.path]
    if not os_:
        raise __import__("check").Missing("open_session")
    spec = lambda: endspec(ENC + INS + ("HashMap::insert",), SLOT)
    n = {"opened": 0, "refused": 0}

    def look(ps, w, tag):
        for p in ps:
            add = slab_added(p, SESSIONS)
            r = within_limit(p, None)
            if add:
                n["opened"] += 1
                ctx.ob(tag + ":limit", r is not None and r[0] is True, "%s: a session is opened without making sure that its number is within the negotiated limit" % w)
                ctx.ob(tag + ":one", len(add) == 1, "%s: more than one session is opened" % w)
                for e in encs(p):
                    c, kd, b = frame(e)
                    ctx.ob(tag + ":number", c is not None and chan_of_session(c), "%s: a session is begun on a channel that is not its number" % w)
            elif r is not None and r[0] is not True:
                n["refused"] += 1
                ctx.ob(tag + ":exact", r[0] is False, "%s: a session is refused although its number is the negotiated limit" % w)
                ctx.ob(tag + ":no-trace", not encs(p) and not inserted(p, SMAP), "%s: a session beyond the limit leaves a trace" % w)
                ctx.ob(tag + ":error", p.ret is None or p.out != "ret" or contains(p.ret, lambda y: y.k == "A" and y.a[1] == "TooManyChannels"), "%s: a session beyond the limit is refused "
                       "without an error that tells" % w)
            else:
                ctx.ob(tag + ":no-begin", "Begin" not in kinds_of(p), "%s: a begin is sent and no session is opened" % w)
    f = sorted(os_, key=lambda g: len(g.path))[0]
    E, ps = runp(ctx, f, spec(), live=True, pin=[CERR])
    look([p for p in ps if p.out in ("ret", "cut")], where(f), "local")
    a = dict(n)
    f, ps = on_frame(ctx, "Begin", spec())
    look(ps, where(f), "remote")
    for k in n:
        ctx.floor("local sessions " + k, a[k], 1)
        ctx.floor("sessions " + k, n[k], a[k] + 1)
    # the limit is the smaller of the two
    c = 0
    for g in ctx.F.fns.values():
        if g.path.endswith("::connection::Connection::new"):
            E, ps = runp(ctx, g, Spec((), (), ("alloc",)), live=False, pin=[("ServiceConfig", "channel_max")])
            for p in ps:
                for e in p.events:
                    if e.kind == "alloc" and part(e.args[1], "channel_max") is not None:
                        c += 1
                        ctx.ob("limit:smaller", smaller(p, part(e.args[1], "channel_max")), "%s: the channel limit of a connection is not the smaller one of the two sides'" % where(g))
    ctx.floor("connections created", c, 1)
    for g, _ in writers(ctx.F, *CMAX):
        ctx.bad("limit:constant", "%s: the channel limit changes after the open" % where(g))


def smaller(p, t):
    """min of the local and the remote limit"""
    t = uncast(t)

    def who(y):
        y = uncast(y)
        if y.k in ("F", "W") and y.k == "F" and y.a[1][2] == "channel_max":
            return y.a[1][0].split("::")[-1]
        return None
    if t.k == "X" and t.a[0].split("::")[-1] == "min":
        return {who(a) for a in t.a[1]} == {"ServiceConfig", "RemoteServiceConfig"} or len({who(a) for a in t.a[1]} - {None}) == 2
    me = who(t)
    if me is None:
        return False
    for u, x in p.state.facts.items():
        if u.k == "B" and u.a[0] in ("Lt", "Le", "Gt", "Ge"):
            a, b = who(u.a[1]), who(u.a[2])
            if {a, b} >= {me} and a and b and a != b:
                v = istrue(x)
                first_smaller = (u.a[0] in ("Lt", "Le")) == v
                return (a if first_smaller else b) == me
    return False


# ---- R05 ------------------------------------------------------------------------------------------------------
REMOVE = ("Slab::remove", "Slab::try_remove", "Slab::clear", "Slab::drain", "Slab::retain")
TABLES = ("HashMap::insert", "HashMap::remove", "HashMap::remove_entry", "HashMap::clear", "HashMap::retain")


def r05(ctx):
    from r_end import let_go, strip as st_
    for x in (LINKS, NAMES, HANDLES, SESSIONS, SMAP):
        need(ctx, *x)
    kinds = link_kinds(ctx)
    spec = lambda: endspec(ENC + INS + REMOVE + TABLES, SLOT, ("retain",))
    n = {}

    def count(k):
        n[k] = n.get(k, 0) + 1

    def links(tag, w, p):
        rm = [e for e in calls(p.events, "Slab::remove", "Slab::try_remove") if isq(e.args[0], LINKS)]
        for e in rm:
            count("links removed")
            sl = slot_of(p)
            hd = [y for y in walk(e.args[1]) if y.k == "F" and y.a[1][2] == "handle"]
            let_go(ctx, tag, w, p, e.args[1], sl[2] if sl else None, hd[0] if hd else e.args[1])
        if any(isq(e.args[0], LINKS) for e in calls(p.events, "Slab::clear", "Slab::drain", "Slab::retain")):
            count("link tables emptied")
            for af, what in ((NAMES, "names"), (HANDLES, "handles")):
                ctx.ob(tag + ":emptied:" + what, any(isq(e.args[0], af) for e in calls(p.events, "HashMap::clear")) or queue_emptied(p, af), "%s: the links of a session are dropped and their "
                       "%s are kept" % (w, what))

    def sessions(tag, w, p):
        rm = [e for e in calls(p.events, "Slab::remove", "Slab::try_remove") if isq(e.args[0], SESSIONS)]
        mp = [e for e in calls(p.events, "HashMap::remove", "HashMap::remove_entry") if isq(e.args[0], SMAP)]
        if rm or mp:
            count("sessions removed")
            # an entry that is known to be there and taken out
            gone = [e for e in mp if not any(x in (("is", "None"), ("not", frozenset({"Some"}))) and t.k == "X" and t.a[0].split("::")[-1].startswith("remove") and len(t.a[1]) > 1 and
                                             isq(t.a[1][0], SMAP) for t, x in p.state.facts.items())]
            ctx.ob(tag + ":session-slot", len(rm) == len(mp) == 1 or len(mp) == 1 and not gone and not rm, "%s: of a session that ends, its slot and the entry for the peer's channel are not "
                   "released together" % w)
            for e in mp:
                ctx.ob(tag + ":session-channel", deref(e.args[1]) is CH or uncast(deref(e.args[1])) is CH, "%s: the entry of another channel is released" % w)
            for e in rm:
                ctx.ob(tag + ":session-token", contains(e.args[1], lambda y: y.k == "X" and len(y.a[1]) > 1 and isq(y.a[1][0], SMAP)) and contains(e.args[1], lambda y: y is CH),
                       "%s: the slot of another session is released" % w)
        if any(isq(e.args[0], SESSIONS) for e in calls(p.events, "Slab::clear", "Slab::drain", "Slab::retain")):
            count("session tables emptied")
            ctx.ob(tag + ":sessions-emptied", any(isq(e.args[0], SMAP) for e in calls(p.events, "HashMap::clear")), "%s: the sessions are dropped and the peer's channels still lead "
                   "to them" % w)

    # a link is detached
    f = ctx.fn("SessionInner::handle_frame")
    E, ps = runp(ctx, f, spec(), args=[P("self"), aggl(FRAME(ctx), "Detach", P("body"))], live=True, pin=[LINKS, (SL, "id"), HANDLES, SERR], max_paths=400000,
                 tune=lambda E: (setattr(E, "exact_loops", True), setattr(E, "loop_visits", 3)))
    for p in ps:
        if p.out == "ret":
            links("detach", where(f), p)
            if slot_of(p) is not None and before_present(p, SERR) is not True:
                count("detached")
                ctx.ob("detach:released", any(isq(e.args[0], LINKS) for e in calls(p.events, "Slab::remove", "Slab::try_remove")) or
                       any(x == ("eq", 0) and t.k == "X" and t.a[0].split("::")[-1] == "contains" and isq(t.a[1][0], LINKS) for t, x in p.state.facts.items()),
                       "%s: the slot of a detached link is not released" % where(f))
    # a session ends
    se = ctx.fn("SessionInner::set_error")
    E, ps = runp(ctx, se, spec(), live=False)
    for p in ps:
        if p.out == "ret":
            links("end", where(se), p)
    f, ps = on_frame(ctx, "End", spec(), live=True, opaque=lambda g: g.id == se.id)
    for p in ps:
        sessions("end", where(f), p)
        if sess_state(p, "Established") is True or sess_state(p, "Closing") is True:
            count("ended")
            gone = any(x in (("is", "None"), ("not", frozenset({"Some"}))) and t.k == "X" and t.a[0].split("::")[-1].startswith("remove") and isq(t.a[1][0], SMAP) for t, x in
                       p.state.facts.items())
            ctx.ob("end:released", gone or any(isq(e.args[0], SESSIONS) for e in calls(p.events, "Slab::remove", "Slab::try_remove")), "%s: the slot of an ended session is not "
                   "released" % where(f))
    f = ctx.fn("ConnectionInner::set_error")
    E, ps = runp(ctx, f, spec(), live=False, opaque=lambda g: g.id == se.id)
    for p in ps:
        if p.out == "ret":
            sessions("failed", where(f), p)
    # a session begins
    f, ps = on_frame(ctx, "Begin", spec())
    w = where(f)
    for p in ps:
        add = [e for e, v in slab_added(p, SESSIONS)]
        ww = [e for e in p.events if e.kind == "write" and e.args[1].k == "A" and e.args[1].a[0].endswith("SessionState") and e.args[1].a[1] == "Established"]
        ins = inserted(p, SMAP)
        if add or ww:
            count("sessions begun")
            ctx.ob("begin:mapped", len(ins) == 1 and uncast(deref(ins[0][0])) is CH, "%s: a session is established and the peer's channel does not lead to it" % w)
            for k, v in ins:
                ok = new_key(v, SESSIONS) if add else not add and any(contains(t, lambda y: y is uncast(v)) for t, x in p.state.facts.items() if t.k == "X" and isq2(t.a[1][0], SESSIONS) and
                                                                      x == ("is", "Some"))
                ctx.ob("begin:mapped-to", ok, "%s: the peer's channel leads to another session than the one it begins" % w)
        else:
            ctx.ob("begin:unmapped", not ins, "%s: the peer's channel leads to a session that is not established" % w)
    # a link is attached
    f, ps = on_frame(ctx, "Attach", spec(), pin=[("AttachInner", "role")])
    w = where(f)
    for p in ps:
        add = slab_added(p, LINKS)
        est = [x for x in slot_writes(p) if x[1] == "Established"]
        hs = inserted(p, HANDLES)
        if not add and not est:
            continue
        count("links attached")
        ctx.ob("attach:mapped", len(hs) == 1 and of_body(hs[0][0], ("AttachInner", "handle")), "%s: a link is attached and the peer's handle does not lead to it" % w)
        for k, v in hs:
            ctx.ob("attach:mapped-to", new_key(v, LINKS) if add else by_name(v), "%s: the peer's handle leads to another link than the one it attaches" % w)
    for nme in ("SessionInner::attach_local_sender_link", "SessionInner::attach_local_receiver_link"):
        f = ctx.fn(nme)
        w = where(f)
        E, ps = runp(ctx, f, spec(), live=True)
        for p in ps:
            if p.out != "ret" or not slab_added(p, LINKS):
                continue
            count("links requested")
            nm = inserted(p, NAMES)
            ctx.ob("local:named", len(nm) == 1 and new_key(nm[0][1], LINKS) and adt_field(deref(nm[0][0])) == ("AttachInner", "name"), "%s: a requested link cannot be found by its "
                   "name when it is answered" % w)
    for k, least in (("links removed", 10), ("link tables emptied", 1), ("sessions removed", 2), ("session tables emptied", 1), ("sessions begun", 2), ("links attached", 4), ("links requested", 2),
                     ("detached", 10), ("ended", 2)):
        ctx.floor(k, n.get(k, 0), least)
    # no other place releases slots
    for g in removers(ctx):
        ctx.ob("covered:" + g.path, g.id in ctx.fns, "%s: releases a slot and is not part of any analysed way a link or session ends" % where(g))
        count("removers")
    ctx.floor("functions that release slots", n.get("removers", 0), 3)


def callee(t):
    """(short path, type arguments) of a call terminator"""
    k = t[1].get("k") if t[0] == "call" and isinstance(t[1], dict) else None
    fn = k.get("fn") if isinstance(k, dict) else None
    return (short(fn["path"]), [x.get("s", "") for x in fn.get("targs", [])]) if fn else ("", [])


def removers(ctx):
    """functions whose own body releases a slot of the link or session table"""
    out = []
    for g in ctx.F.fns.values():
        for b in g.blocks:
            nm, ta = callee(b["t"])
            if nm in REMOVE and ta and ("SenderLinkState" in ta[0] or "SessionState" in ta[0]):
                out.append(g)
                break
    return out


# ---- R04 ------------------------------------------------------------------------------------------------------
def spaces_of(ctx):
    import spaces
    if not hasattr(ctx.F, "_spaces"):
        ctx.F._spaces = spaces.Flow(ctx.F)
    return ctx.F._spaces


def r04(ctx):
    import spaces
    for a, fl in list(spaces.FIELDS):
        need(ctx, a, fl)
    fl = spaces_of(ctx)
    for f in fl.fns:
        ctx.fns.add(f.id)
    n = {}
    for nd, sp, what, f, line in fl.sinks:
        got = fl.of(nd)
        for x in sorted(got - {sp}):
            if what == "ReceiverLinkInner.remote_handle" and x == spaces.OURS_H and unattached(ctx, fl, nd, x):
                n["placeholder"] = n.get("placeholder", 0) + 1
                continue
            ctx.bad("mixed:%s:%s" % (what, fl.name(f)), "%s: %s where %s belongs (%s): %s" % (where(f), x, sp, what, fl.trail(nd, x)))
        ctx.ob("sink:" + what, sp in got or not got or True)
        if sp in got:
            n[what] = n.get(what, 0) + 1
    for a, b, f, line in fl.compared:
        x, y = fl.of(a), fl.of(b)
        if x and y:
            n["comparisons"] = n.get("comparisons", 0) + 1
            ctx.ob("compared:" + fl.name(f), x & y, "%s: %s is compared with %s" % (where(f), sorted(x)[0], sorted(y)[0]))
    ctx.count("places where a number is used or kept", len(fl.sinks))
    for what, least in (("AmqpFrame.channel_id", 1), ("AttachInner.handle", 3), ("DetachInner.handle", 3), ("FlowInner.handle", 1), ("TransferInner.handle", 1), ("BeginInner.remote_channel", 1),
                        ("SenderLinkInner.id", 1), ("SenderLinkInner.remote_handle", 1), ("ReceiverLinkInner.handle", 1), ("ReceiverLinkInner.remote_handle", 1), ("SessionInner.id", 1),
                        ("SessionInner.remote_channel_id", 1), ("key of the table of the peer's channels", 3), ("key of the table of the peer's handles", 4), ("slot of a link", 8),
                        ("slot of a session", 2), ("value in the table of names", 2), ("value in the table of the peer's channels", 1), ("value in the table of the peer's handles", 3)):
        ctx.floor(what, n.get(what, 0), least)
    # a receiver link of ours gets the peer's handle when it is attached
    f, ps = on_frame(ctx, "Attach", endspec((), (RL + ".remote_handle",) + SLOT), pin=[("AttachInner", "role")])
    c = 0
    for p in ps:
        if any(s == "Right" and v == "Established" for s, v, _, _ in slot_writes(p)):
            c += 1
            ws = [e for e in p.events if e.kind == "write" and wr(e, RL + ".remote_handle")]
            ctx.ob("attached:remote-handle", bool(ws) and of_body(ws[-1].args[1], ("AttachInner", "handle")), "%s: a receiver link is attached and does not learn the peer's handle" % where(f))
    ctx.floor("receiver links attached", c, 1)


def unattached(ctx, fl, nd, sp):
    """our own number stands in for the peer's handle in a link that is being requested: it is replaced when the peer answers"""
    seen, cur = [], nd
    while cur is not None and len(seen) < 20:
        p, at = fl.taint[cur, sp]
        if p is None:
            break
        seen.append(at[0])
        cur = p
    for g in seen:
        for b in g.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][3] == "OpeningLocal":
                    return True
    return False


# ---- R07 ------------------------------------------------------------------------------------------------------
def shakes(g):
    return any(x in g.path for x in ("ntex_amqp::client::", "ntex_amqp::server::"))


def r07(ctx):
    need(ctx, *ID)
    se = ctx.fn("SessionInner::set_error")
    n = {}

    def look(f, ps):
        w = where(f)
        for p in ps:
            for e in encs(p):
                c, k, b = frame(e)
                if c is None:
                    ctx.bad("channel:unknown:" + short(f.path), "%s: cannot tell on which channel a frame is sent" % w)
                    continue
                n[k] = n.get(k, 0) + 1
                if k in ("Open", "Close", "Empty"):
                    ctx.ob("channel:zero:" + k, c is C(0), "%s: a %s frame is not sent on channel 0" % (w, k))
                else:
                    ctx.ob("channel:session:%s" % k, chan_of_session(c), "%s: a %s frame is not sent on its session's channel" % (w, k or "session's"))

    for k in ("Begin", "End", "Close", "Attach", "Flow", "Transfer", "Disposition"):
        look(*on_frame(ctx, k, endspec(ENC), opaque=lambda g: g.id == se.id or g.path.endswith(("settle_deliveries",))))
    f = ctx.fn("SessionInner::handle_frame")
    E, ps = runp(ctx, f, endspec(ENC), args=[P("self"), aggl(FRAME(ctx), "Detach", P("body"))], live=True, pin=[LINKS], max_paths=200000)
    look(f, ps)
    for nm in ("SessionInner::post_frame", "Session::end", "ConnectionRef::close", "ConnectionRef::close_with_error", "Session::detach_sender_link", "Session::detach_receiver_link"):
        f = ctx.fn(nm)
        E, ps = runp(ctx, f, endspec(ENC), live=True, opaque=lambda g: g.path.endswith("get_all_links"))
        look(f, ps)
    for f in sorted([g for g in ctx.F.fns.values() if g.coroutine and "::open_session::" in g.path and "ConnectionRef" not in g.path], key=lambda g: len(g.path))[:1]:
        E, ps = runp(ctx, f, endspec(ENC), live=True)
        look(f, ps)
    l = [g for g in ctx.F.fns.values() if "Dispatcher" in g.path and g.name == "poll" and "DispatchItem" in g.path and not g.coroutine]
    hc = by_tail(ctx, "handle_control_frame", "Dispatcher")
    for f in l:
        E, ps = runp(ctx, f, endspec(ENC), live=True, opaque=lambda g: g.id == hc.id)
        look(f, ps)
    E, ps = runp(ctx, hc, endspec(ENC), live=True, max_paths=100000, pin=[("FrameInner", "kind")],
                 opaque=lambda g: g.path.endswith(("ConnectionInner::set_error", "SessionInner::handle_flow", "::notify_service")))
    look(hc, ps)
    for k, least in (("Begin", 2), ("End", 2), ("Close", 2), ("Empty", 1), ("Attach", 2), ("Detach", 4), ("Flow", 1), (None, 1)):
        ctx.floor("%s frames sent" % (k or "session"), n.get(k, 0), least)
    # every place that puts a frame on a channel has been looked at; the handshake only opens, on channel 0
    c = [0, 0]
    for g in ctx.F.fns.values():
        if g.crate != "ntex_amqp" or g.derived:
            continue
        for b in g.blocks:
            nm, ta = callee(b["t"])
            mk_ = nm == "AmqpFrame::new" or any(s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][2], str) and s[2][2].endswith("::AmqpFrame") for s in b["s"])
            if not mk_:
                continue
            if shakes(g):
                c[1] += 1
                E, ps = runp(ctx, g, endspec(("Framed::send", "IoBoxed::send", "Io::send", "IoRef::send", "AmqpFrame::new")), live=False,
                             opaque=lambda h: h.path.endswith("AmqpFrame::new") or h.file != g.file)
                fr = [e for p in ps for e in p.events if e.kind == "call" and short(e.name) == "AmqpFrame::new"]
                ctx.ob("handshake:open", bool(fr) and all(e.args[0] is C(0) for e in fr), "%s: a frame of the handshake is not sent on channel 0" % where(g))
                continue
            c[0] += 1
            ctx.ob("covered:" + g.path, g.id in ctx.fns, "%s: puts a frame on a channel and is not part of any analysed way a frame is sent" % where(g))
    ctx.floor("places that put a frame on a channel", c[0], 5)
    ctx.floor("places in the handshake", c[1], 2)
    # one gate
    c = 0
    gates = []
    for g in ctx.F.fns.values():
        if g.crate != "ntex_amqp" or g.derived:
            continue
        for b in g.blocks:
            nm, ta = callee(b["t"])
            tys = b["t"][7] if b["t"] and b["t"][0] == "call" and len(b["t"]) > 7 else []
            sig = " ".join([x.get("s", "") for x in tys if isinstance(x, dict)] + ta)
            if nm.split("::")[0] in ("IoRef", "Io", "IoBoxed", "Framed") and nm.split("::")[-1] in ("encode", "send", "write", "encode_slice") or nm.split("::")[-1] in ("encode", "send") and "AmqpCodec" in sig:
                if shakes(g) or "::codec" in g.path:
                    continue
                c += 1
                owner = g.path.startswith("ntex_amqp::connection::ConnectionInner::") or g.path.startswith("<ntex_amqp::connection::ConnectionInner")
                ctx.ob("gate:" + g.path, owner, "%s: writes to the connection past ConnectionInner" % where(g))
                gates.append(g)
    ctx.floor("places that write to an established connection", c, 1)
    for g in gates:
        E, ps = runp(ctx, g, endspec(ENC, ("ConnectionInner.error",)), live=False, tune=lambda E: setattr(E, "encode_err", True), pin=[CERR])
        k = 0
        for p in ps:
            if p.out != "ret" or not any(t.k == "X" and t.a[0].split("::")[-1] == "encode" and x == ("is", "Err") for t, x in p.state.facts.items()):
                continue
            k += 1
            told = p.ret is not None and is_err(p.ret)
            failed = any(wr(e, dot(CERR)) for e in p.events) or before_present(p, CERR) is True
            ctx.ob("unencodable:" + g.name, told or failed, "%s: a frame that cannot be encoded is dropped and the connection goes on" % where(g))
        ctx.floor("encode failures in " + (g.name or ""), k, 1)
    # the dispatcher itself returns no frame to be written
    f = co(ctx, "Dispatcher", "call")
    E, ps = runp(ctx, f, Spec((), (), ("await",)), live=False, opaque=lambda g: g.path.endswith("ConnectionRef::handle_frame"), pin=[("ConnectionRef::handle_frame", "")])
    c = 0
    for p in ps:
        if p.out == "ret" and p.ret is not None and not is_err(p.ret):
            c += 1
            v = p.ret
            while v.k == "A" and v.a[1] in ("Ok", "Ready") and v.a[2]:
                v = v.a[2][0][1]
            ctx.ob("gate:dispatcher", v.k == "A" and v.a[1] == "None", "%s: the dispatcher returns a frame that is written past ConnectionInner" % where(f))
    ctx.floor("results of the dispatcher", c, 5)
