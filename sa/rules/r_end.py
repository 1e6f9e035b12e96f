"""E01 - E04: whatever ends, everything that waits on it is completed."""
from mainlib import *
from r_snd import need, dot, truth, uncast, within_field, present
from r_rcv import field_truth, frame_kind, some

SI, CI, SL, RL, DI = "SessionInner", "ConnectionInner", "SenderLinkInner", "ReceiverLinkInner", "DeliveryInner"
LINKS, NAMES, HANDLES = (SI, "links"), (SI, "links_by_name"), (SI, "remote_handles")
PENDING, SERR, SFLAGS, SCLOSED = (SI, "pending_transfers"), (SI, "error"), (SI, "flags"), (SI, "closed")
SNDMAP, RCVMAP = (SI, "unsettled_snd_deliveries"), (SI, "unsettled_rcv_deliveries")
SESSIONS, SMAP, CERR, CCLOSE = (CI, "sessions"), (CI, "sessions_map"), (CI, "error"), (CI, "on_close")
NOTIFY = ("Condition::notify_and_lock_readiness", "Condition::notify")
LOCK = NOTIFY[0]
WAKE = "LocalWaker::wake"
CLEAR = ("Slab::clear", "HashMap::clear", "VecDeque::clear", "HashMap::drain", "Slab::drain", "VecDeque::drain", "mem::take", "mem::replace")
CALLS = QCALLS + NOTIFY + (WAKE, "Slab::clear", "Slab::drain", "Slab::remove", "Slab::try_remove", "HashMap::clear", "HashMap::drain",
                           "HashMap::remove", "HashMap::retain", "HashMap::insert", "mem::take", "mem::replace")
WRITES = {"Flags.0"} | {dot(x) for x in (SERR, SFLAGS, CERR, (SL, "closed"), (SL, "error"), (RL, "closed"), (RL, "error"), (DI, "error"),
                           LINKS, NAMES, HANDLES, SESSIONS, SMAP, (CI, "state"))}


def where(f):
    return "%s:%d %s" % (f.file, f.line, f.path)


def endspec(calls=(), writes=(), kinds=()):
    return Spec(CALLS + tuple(calls), WRITES | set(writes), ("next", "collect", "alloc") + tuple(kinds))


# ---- walks over a table --------------------------------------------------------------------------------------
class Turn:
    def __init__(self, v):
        self.v, self.evs = v, []

    def has(self, t):
        return within(t, self.v)

    def __repr__(self):
        return "<turn %s>" % show(self.v)


def known(p, t):
    return p.state.facts.get(t)


def turns(p, af):
    """(turns of every walk over the field, was a walk brought to its end)"""
    out, cur, done = [], None, False
    for e in p.events:
        if e.kind == "next" and isq(e.args[0], af):
            x = known(p, e.args[1])
            if x == ("is", "None"):
                done, cur = True, None
            else:
                cur = Turn(e.args[1])
                out.append(cur)
                done = False
        elif cur is not None:
            cur.evs.append(e)
    return out, done


def names_of(x):
    return {x[1]} if x[0] == "is" else set(x[1]) if x[0] == "not" else None


def shapes(ctx, p, turn, kinds):
    """which (side, variant) the element of the turn can be; kinds: side -> variants ('' for a table that is not sided)"""
    left = {s: set(v) for s, v in kinds.items()}
    for t, x in p.state.facts.items():
        n = names_of(x)
        if not n or not turn.has(t):
            continue
        steps, u = [], t
        while u is not turn.v and u.k in ("F", "W"):
            if u.k == "F":
                steps.append(u.a[1])
            u = u.a[0]
        if u is not turn.v:
            continue
        if n <= set(kinds):                     # Left / Right
            if x[0] == "is":
                left = {s: v for s, v in left.items() if s in n}
            else:
                left = {s: v for s, v in left.items() if s not in n}
            continue
        side = next((q[1] for q in steps if q[1] in kinds), "")
        # the state itself, not something inside of it
        if any(q[1] in vs for q in steps for vs in kinds.values()):
            continue
        if side in left and n <= set(kinds[side]):
            left[side] = left[side] & n if x[0] == "is" else left[side] - n
    return {(s, v) for s, vs in left.items() for v in vs}


def variants(ctx, name):
    l = [a for k, a in ctx.F.adts.items() if k.split("::")[-1] == name and k.startswith(CR.rstrip(":"))]
    if not l:
        raise __import__("check").Missing("type " + name)
    return [v["name"] for v in l[0]["variants"]]


def link_kinds(ctx):
    return {"Left": variants(ctx, "SenderLinkState"), "Right": variants(ctx, "ReceiverLinkState")}


def is_err(t):
    return t.k == "A" and t.a[0] == RES and t.a[1] == "Err"


def is_ok(t):
    return t.k == "A" and t.a[0] == RES and t.a[1] == "Ok"


def calls(evs, *names):
    return [e for e in evs if e.kind == "call" and short(e.name) in names]


def failed_all(p, evs, test):
    """the queue whose term satisfies `test` is taken out to the end, every entry is answered with an error"""
    nexts = [e for e in evs if e.kind == "next" and test(e.args[0])]
    pops = [(t, x) for t, x in p.state.facts.items() if t.k == "X" and short(t.a[0]) == "VecDeque::pop_front" and test(t.a[1][0])]
    items = [mk("F", e.args[1], (OPT, "Some", "0"), 0) for e in nexts if known(p, e.args[1]) != ("is", "None")]
    items += [mk("F", t, (OPT, "Some", "0"), 0) for t, x in pops if x == ("is", "Some")]
    ended = any(known(p, e.args[1]) == ("is", "None") for e in nexts) or any(x == ("is", "None") for t, x in pops) or \
        any(t.k == "X" and t.a[0] == "len" and x == ("eq", 0) and test(t.a[1][0]) for t, x in p.state.facts.items())
    if not ended:
        return False
    snd = calls(evs, "Sender::send")
    for it in items:
        s = [e for e in snd if within(e.args[0], it)]
        if len(s) != 1 or not is_err(s[0].args[1]):
            return False
    return True


def on_field(t, af, root=None):
    """t is the field of an object reached through `root`"""
    return isq(t, af) and (root is None or within(t, root))


def sender_closed(ctx, tag, w, p, evs, root, err=True, pend=True):
    """what it takes for a sending link to be over for everybody"""
    ws = [e for e in evs if wr(e, SL + ".closed") and within(e.args[0], root)]
    ctx.ob(tag + ":closed", ws and ws[-1].args[1] is C(1), "%s: a sending link is not marked closed" % w)
    if err:
        we = [e for e in evs if wr(e, SL + ".error") and within(e.args[0], root)]
        ctx.ob(tag + ":error", we and some(we[-1].args[1]) is not None, "%s: a sending link does not get the error" % w)
    for c, what in (("on_close", "close notification"), ("on_credit", "tasks waiting for credit")):
        ctx.ob(tag + ":" + c, any(adt_field(e.args[0]) == (SL, c) and within(e.args[0], root) for e in calls(evs, LOCK)),
               "%s: a sending link ends without its %s being completed for good" % (w, what))
    if pend:
        ctx.ob(tag + ":pending", failed_all(p, evs, lambda t: on_field(t, (SL, "pending_transfers"), root)),
               "%s: a sending link ends and sends queued for its credit are not failed" % w)


def receiver_closed(ctx, tag, w, p, evs, root):
    ws = [e for e in evs if wr(e, RL + ".closed") and within(e.args[0], root)]
    ctx.ob(tag + ":closed", ws and ws[-1].args[1] is C(1), "%s: a receiving link is not marked closed" % w)
    ctx.ob(tag + ":woken", any(adt_field(e.args[0]) == (RL, "reader_task") and within(e.args[0], root) for e in calls(evs, WAKE)),
           "%s: a receiving link ends and the task that reads from it is not woken" % w)


def emptied(p, evs, af):
    """the table is empty afterwards"""
    for e in evs:
        if e.kind == "call" and short(e.name) in CLEAR and isq(e.args[0], af):
            return True
        if wr(e, dot(af)) and e.args[1].k == "X" and e.args[1].a[0].split("::")[-1] in ("new", "default", "with_capacity"):
            return True
    return False


def deliveries_dropped(ctx, tag, w, p, af):
    """all entries leave the table: whoever waits is woken by that (see d02) and finds its delivery gone"""
    ctx.ob(tag + ":all", emptied(p, p.events, af), "%s: unsettled deliveries are kept, tasks waiting for their outcome are not woken" % w)


def woken(ctx, tag, w, p, t):
    tx = [x for u, x in p.state.facts.items() if u.k == "F" and adt_field(u) == (DI, "tx") and t.has(u)]
    none = any(x == ("is", "None") or x[0] == "not" and "Some" in x[1] for x in tx)
    ctx.ob(tag + ":woken", none or any(within_field(e.args[0], (DI, "tx")) and t.has(e.args[0]) for e in calls(t.evs, "Sender::send")),
           "%s: an unsettled delivery fails and the task waiting for its outcome is not woken" % w)


def flag_writes(ev):
    return [e for e in ev if e.kind == "write" and (wr(e, dot(SFLAGS)) or within_fieldm(place(e), SFLAGS))]


def place(e):
    """the place written, as a chain of fields"""
    t = e.args[0]
    if t.k != "&":
        return t
    b = t.a[0][1] if t.a[0][0] == "H" else mk("P", "local")
    for f in t.a[1]:
        b = mk("F", b, f, 0)
    return b


def adds_flag(e, name):
    """the write leaves the flag set"""
    def go(t):
        if t.k == "A" and t.a[2]:
            return any(go(v) for _, v in t.a[2])
        if t.k == "B" and t.a[0] == "BitOr":
            return go(t.a[1]) or go(t.a[2])
        if t.k == "B" or t.k == "N" or contains(t, lambda y: adt_field(y) == SFLAGS):
            return False
        return re.split(r"[.']", show(t))[0].split("::")[-1] == name
    return go(e.args[1])


def posted(p):
    """control events queued for the control service: (variant, payload values, event)"""
    al = {e.args[0]: e.args[1] for e in p.events if e.kind == "alloc"}
    out = []
    for e in p.events:
        if e.kind == "call" and short(e.name) in ("VecDeque::push_back", "VecDeque::push_front") and adt_field(e.args[0]) == ("ControlQueue", "pending"):
            for t in walk(e.args[1]):
                v = al.get(t, t if t.k == "A" and t.a[0].endswith("::FrameInner") else None)
                if v is not None:
                    kd = part(v, "kind")
                    out.append((kd.a[1] if kd is not None and kd.k == "A" else None, [x for _, x in kd.a[2]] if kd is not None and kd.k == "A" else [], e))
                    break
            else:
                out.append((None, [], e))
    return out


# ---- E02 ------------------------------------------------------------------------------------------------------
PINL = [LINKS]


def session_enders(ctx):
    """functions that end a session: they (or what they call) set its error; outermost ones of the session itself"""
    ws = {f.id for f, _ in writers(ctx.F, *SERR) if not f.path.endswith("SessionInner::new")}
    need(ctx, *SERR)
    return ws


def e02(ctx):
    for x in (LINKS, NAMES, HANDLES, PENDING, SERR, SFLAGS, SCLOSED, SNDMAP, RCVMAP, (DI, "tx"), (DI, "error"), (SL, "closed"), (RL, "closed")):
        need(ctx, *x)
    f = ctx.fn("SessionInner::set_error")
    w = where(f)
    kinds = link_kinds(ctx)
    E, ps = runp(ctx, f, endspec(), live=False, pin=PINL, max_paths=100000)
    n = {}
    done_paths = 0
    for p in ps:
        if p.out != "ret":
            continue
        done_paths += 1
        ev = p.events
        # waiting sends, unsettled deliveries
        ctx.ob("window-waiters", failed_all(p, ev, lambda t: on_field(t, PENDING)), "%s: sends waiting for the session window are not failed" % w)
        deliveries_dropped(ctx, "sent-deliveries", w, p, SNDMAP)
        deliveries_dropped(ctx, "received-deliveries", w, p, RCVMAP)
        # links
        ts, done = turns(p, LINKS)
        ctx.ob("links-all", done, "%s: not every link of the session is looked at" % w)
        for t in ts:
            for side, v in shapes(ctx, p, t, kinds):
                n[(side, v)] = n.get((side, v), 0) + 1
                if side == "Left" and v in ("Established", "OpeningRemote"):
                    sender_closed(ctx, "link:%s" % v, w, p, t.evs, t.v)
                elif side == "Right" and v in ("Established", "Opening"):
                    gone = v == "Opening" and any(names_of(x) == {"None"} and x[0] == "is" and t.has(u) for u, x in p.state.facts.items())
                    if not gone:
                        receiver_closed(ctx, "link:%s" % v, w, p, t.evs, t.v)
                for e in calls(t.evs, "Sender::send"):
                    ctx.ob("answer:" + v, not is_ok(e.args[1]), "%s: a task waiting for a link is told success when the session ends" % w)
        for af, what in ((LINKS, "links"), (NAMES, "link names"), (HANDLES, "remote handles")):
            ctx.ob("cleared:" + af[1], emptied(p, ev, af), "%s: the %s of an ended session are kept (and so are the tasks waiting in them)" % (w, what))
        er = [e for e in ev if wr(e, dot(SERR))]
        ctx.ob("error-set", er and some(er[-1].args[1]) is not None, "%s: the session ends and has no error, it goes on processing frames" % w)
        ctx.ob("flag-set", any(adds_flag(e, "ENDED") for e in flag_writes(ev)), "%s: the session ends and is not marked ended" % w)
        ctx.ob("notified", any(adt_field(e.args[0]) == SCLOSED for e in calls(ev, LOCK)), "%s: the session ends and whoever waits for it is not "
               "notified for good" % w)
    ctx.floor("paths of ending a session", done_paths, 10)
    for side, vs in kinds.items():
        for v in vs:
            ctx.floor("ended sessions with a link %s %s" % (side, v), n.get((side, v), 0), 1)
    for g in session_enders(ctx):
        ctx.ob("ends-elsewhere:" + ctx.F.fns[g].path, g in ctx.fns, "%s sets the error of a session without ending it" % where(ctx.F.fns[g]))
    end_frame(ctx)
    session_end(ctx)
    ignored(ctx)


def collected(ctx, tag, w, p, vec):
    """the list holds exactly the attached links of the session"""
    kinds = link_kinds(ctx)
    ts, done = turns(p, LINKS)
    ts = [t for t in ts if True]
    k = 0
    ctx.ob(tag + ":from-links", vec is not None and (contains(vec, lambda y: adt_field(y) == LINKS) or bool(ts)), "%s: the list of links handed out is not "
           "taken from the session's links" % w)
    for t in ts:
        got = [e for e in t.evs if (e.kind == "collect" or e.kind == "call" and short(e.name) == "Vec::push") and within(e.args[1], t.v)]
        sh = shapes(ctx, p, t, kinds)
        est = {s for s, v in sh if v == "Established"}
        if est and not got:
            ctx.bad(tag + ":all", "%s: an attached link is not reported when its session ends" % w)
        elif est and len(sh) > 1:
            ctx.bad(tag + ":only", "%s: a link is reported whether it is attached or not when its session ends" % w)
        elif est:
            k += 1
            ctx.ob(tag + ":all", len(got) == 1 and got[0].args[1].k == "A" and got[0].args[1].a[1] == next(iter(est)),
                   "%s: an attached link is not reported when its session ends" % w)
        elif not est:
            ctx.ob(tag + ":only", not got, "%s: a link that is not attached is reported when its session ends" % w)
    return k


def session_of(p, want=None):
    """state of the session a frame was routed to"""
    for t, x in p.state.facts.items():
        n = names_of(x)
        if n and n <= {"Established", "Opening", "Closing"} and within_fieldm(t, SESSIONS):
            return x
    return None


def sess_state(p, v):
    """is the session in state v: True / False / None"""
    r = None
    for t, x in p.state.facts.items():
        n = names_of(x)
        if n and n <= {"Established", "Opening", "Closing"} and in_sessions(t):
            if x[0] == "is":
                return x[1] == v
            if v in n:
                r = False
    return r


def in_sessions(t):
    """the state of an entry of the session table (not something inside of it)"""
    steps = 0
    while t.k in ("F", "W"):
        if t.k == "F":
            if t.a[1][1] in ("Established", "Opening", "Closing"):
                return False
            if adt_field(t) == SESSIONS:
                return True
        t = t.a[0]
    return t.k == "X" and bool(t.a[1]) and (isq(t, SESSIONS) or isq(t.a[1][0], SESSIONS))


def end_frame(ctx):
    """End frame of the peer: the session is ended with its reason; links are reported exactly when the peer began it"""
    f = ctx.fn("ConnectionRef::handle_frame")
    w = where(f)
    se = ctx.fn("SessionInner::set_error")
    E, ps = runp(ctx, f, endspec([short(se.path)]), pin=[SESSIONS, LINKS], max_paths=200000, opaque=lambda g: g.id == se.id or not_end(g))
    n = {"ended by the peer": 0, "end confirmed": 0, "links reported": 0}
    for p in ps:
        if p.out != "ret" or frame_kind(p) != "End":
            continue
        sc = [e for e in calls(p.events, short(se.path)) if e.args[0] is not None]
        r = p.ret
        unknown = r is not None and is_err(r)
        if sess_state(p, "Opening") is True or unknown and not sc or present(p, CERR) is True:
            continue
        ctx.ob("end:once", len(sc) == 1 and r is not None and is_ok(r), "%s: an End frame does not end its session" % w)
        for e in sc:
            err = e.args[1]
            ctx.ob("end:reason", err.k == "A" and err.a[1] == "SessionEnded" and contains(err, lambda y: adt_field(y) == ("End", "error")),
                   "%s: the session does not end with the peer's reason" % w)
        act = dict(r.a[2]).get("0") if r is not None and r.k == "A" else None
        if sess_state(p, "Established") is True:
            n["ended by the peer"] += 1
            ok = act is not None and act.k == "A" and act.a[1] == "SessionEnded"
            ctx.ob("end:reported", ok and not posted(p), "%s: the application is not told exactly once that the peer ended a session" % w)
            if ok:
                n["links reported"] += collected(ctx, "end", w, p, act.a[2][0][1])
                first = [p.events.index(e) for e in sc[:1]]
                lt = [i for i, e in enumerate(p.events) if e.kind in ("next", "collect") and (isq(e.args[0], LINKS) or contains(e.args[0], lambda y: adt_field(y) == LINKS))]
                ctx.ob("end:collected-before", not first or not lt or max(lt) < first[0], "%s: the links to report are collected after the session "
                       "has dropped them" % w)
        elif sess_state(p, "Closing") is True:
            n["end confirmed"] += 1
            ctx.ob("end:not-reported-again", act is not None and act.k == "A" and act.a[1] == "None" and not posted(p), "%s: the end of a session is reported a "
                   "second time" % w)
        else:
            ctx.bad("end:state", "%s: an End frame is handled without looking at the state of the session" % w)
    for k, v in n.items():
        ctx.floor("End frames: " + k, v, 1)


def not_end(g):
    return g.path.endswith(("SessionInner::handle_frame", "SessionInner::handle_attach", "SessionInner::new_remote_sender",
                            "SessionInner::attach_remote_receiver_link", "ConnectionInner::register_remote_session",
                            "ConnectionInner::complete_session_creation", "ConnectionInner::set_error"))


def session_end(ctx):
    f = ctx.fn("Session::end")
    w = where(f)
    E, ps = runp(ctx, f, endspec(), pin=PINL, max_paths=100000, live=False)
    n = {"first end": 0, "end again": 0, "after the end": 0, "links reported": 0}
    for p in ps:
        if p.out != "ret":
            continue
        fl = {}
        for t, x in p.state.facts.items():
            k = flag_known(t, x, SFLAGS)
            if k and (k[1] == "none" or len(k[0]) == 1):
                for y in k[0]:
                    fl[y] = k[1] != "none"
        po = posted(p)
        if present(p, SERR) is True:
            fl["ENDED"] = True
        if fl.get("ENDED") is True or fl.get("ENDING") is True:
            n["after the end" if fl.get("ENDED") else "end again"] += 1
            ctx.ob("local:once", not po, "%s: the end of a session is reported a second time" % w)
            continue
        if fl.get("ENDING") is None:
            ctx.bad("local:unknown", "%s: a session is ended without looking whether it is ending already" % w)
            continue
        n["first end"] += 1
        ctx.ob("local:reported", [k for k, _, _ in po] == ["LocalSessionEnded"], "%s: the application is not told exactly once that a session is ended" % w)
        ctx.ob("local:marked", any(adds_flag(e, "ENDING") for e in flag_writes(p.events)), "%s: a session is ended and not marked as ending" % w)
        for k, v, e in po:
            if k == "LocalSessionEnded" and v:
                n["links reported"] += collected(ctx, "local", w, p, v[0])
    for k, v in n.items():
        ctx.floor("local end: " + k, v, 1)
    # whoever called waits for the notification
    for g in sorted(ctx.F.fns.values(), key=lambda g: g.path):
        if g.path.startswith(f.path + "::") and g.coroutine:
            E, ps = runp(ctx, g, Spec((), (), ("await",)), live=False)
            k = 0
            for p in ps:
                aw = [e for e in p.events if e.kind == "await"]
                k += 1
                ctx.ob("local:waits", len(aw) == 1 and contains(aw[0].args[0], lambda y: y.k == "X" and short(y.a[0]) == "Condition::wait" and
                                                                 any(adt_field(a) == SCLOSED for a in y.a[1])),
                       "%s: the returned future does not wait for the end of this session" % where(g))
            ctx.floor("paths of the future of Session::end", k, 1)


def ignored(ctx):
    """an ended session processes no frames"""
    f = ctx.fn("SessionInner::handle_frame")
    w = where(f)
    E, ps = runp(ctx, f, Spec(CALLS + ENC, WRITES | {dot((SI, "next_incoming_id")), dot((SI, "remote_incoming_window"))}, ()), live=False,
                 pin=[SERR], max_paths=200000)
    n = 0
    for p in ps:
        if p.out != "ret" or before_present(p, SERR) is not True:
            continue
        n += 1
        ctx.ob("ignored", not p.events and p.ret is not None and contains(p.ret, lambda y: y.k == "A" and y.a[0].endswith("::Action") and y.a[1] == "None"),
               "%s: an ended session processes a frame" % w)
    ctx.floor("frames for an ended session", n, 1)
    unguarded = [p for p in ps if p.out == "ret" and before_present(p, SERR) is None]
    ctx.ob("ignored:looked", not unguarded, "%s: a frame is processed without looking whether the session has ended" % w)


def before_present(p, af):
    """was the field set when the function was entered"""
    for t, x in p.state.facts.items():
        if t.k == "F" and adt_field(t) == af and (t.a[2] == 0 or t.a[2] == (0, 0)):
            if x in (("is", "None"), ("not", frozenset({"Some"}))):
                return False
            if x in (("is", "Some"), ("not", frozenset({"None"}))):
                return True
    return None


# ---- E01 ------------------------------------------------------------------------------------------------------
def nested(t, src):
    """t carries the value src (as itself, wrapped, cloned)"""
    return contains(t, lambda y: y is src)


def e01(ctx):
    for x in (SESSIONS, SMAP, CERR, CCLOSE, LINKS, SERR):
        need(ctx, *x)
    f = ctx.fn("ConnectionInner::set_error")
    se = ctx.fn("SessionInner::set_error")
    w = where(f)
    kinds = {"": variants(ctx, "SessionState")}
    n = dict.fromkeys(kinds[""], 0)
    E, ps = runp(ctx, f, endspec([short(se.path)]), live=False, pin=[SESSIONS], opaque=lambda g: g.id == se.id, max_paths=100000)
    k = 0
    for p in ps:
        if p.out != "ret":
            continue
        k += 1
        ts, done = turns(p, SESSIONS)
        ctx.ob("sessions-all", done, "%s: not every session of the connection is looked at" % w)
        for t in ts:
            for _, v in shapes(ctx, p, t, kinds):
                n[v] += 1
                if v in ("Established", "Closing"):
                    c = [e for e in calls(t.evs, short(se.path)) if t.has(e.args[0])]
                    ctx.ob("session-ended:" + v, len(c) >= 1, "%s: a session that is %s is not ended with its connection" % (w, v.lower()))
                for e in calls(t.evs, "Sender::send"):
                    ctx.ob("answer:" + v, not is_ok(e.args[1]), "%s: a task waiting for a session is told success when the connection ends" % w)
        for af, what in ((SESSIONS, "sessions"), (SMAP, "channels")):
            ctx.ob("cleared:" + af[1], emptied(p, p.events, af), "%s: the %s of an ended connection are kept (and so are the tasks waiting in them)" % (w, what))
        er = [e for e in p.events if wr(e, dot(CERR))]
        ctx.ob("error-set", er and some(er[-1].args[1]) is not None or not er and before_present(p, CERR) is True, "%s: the connection ends and has no error" % w)
        ctx.ob("notified", any(adt_field(e.args[0]) == CCLOSE for e in calls(p.events, LOCK)), "%s: the connection ends and whoever waits for it is not "
               "notified for good" % w)
    ctx.floor("paths of ending a connection", k, 3)
    for v, c in n.items():
        ctx.floor("ended connections with a session %s" % v, c, 1)
    for g, _ in writers(ctx.F, *CERR):
        ctx.ob("ends-elsewhere:" + g.path, g.id in ctx.fns or g.path.endswith("Connection::new"), "%s sets the error of a connection without ending it" % where(g))
    routes(ctx, f)
    refused(ctx)
    cut_off(ctx)


def handles(fn):
    return lambda g: g.id == fn.id


def routes(ctx, ender):
    """everything that is the end of a connection goes through its ender"""
    nm = short(ender.path)

    def ended(tag, f, sel, what, floor=1, **kw):
        E, ps = runp(ctx, f, Spec((nm, short("ConnectionInner::handle_frame")) + tuple(kw.pop("calls", ())), (), ("await",) + tuple(kw.pop("kinds", ()))),
                     live=False, opaque=lambda g: g.id == ender.id or g.path.endswith(("::into_parts",)), max_paths=100000, **kw)
        c = 0
        for p in ps:
            if p.out != "ret":
                continue
            x = sel(p)
            if x is None:
                continue
            c += 1
            ctx.ob("route:" + tag, bool([e for e in calls(p.events, nm)]) == x, "%s: %s" % (where(f), what))
        ctx.floor("route " + tag, c, floor)

    ended("force_close", ctx.fn("ConnectionRef::force_close"), lambda p: True, "a connection is cut off and what waits on it is not completed")
    d = [g for g in ctx.F.fns.values() if g.name == "drop" and g.path.endswith("::connection::Connection as core::ops::drop::Drop>::drop")]
    if not d:
        raise __import__("check").Missing("Drop of Connection")
    ended("drop", d[0], lambda p: True, "a connection is dropped and what waits on it is not completed")
    pf = ctx.fn("ConnectionRef::post_frame")
    ended("encode", pf, lambda p: any(t.k == "X" and is_enc_name(t.a[0]) and names_of(x) == {"Err"} and x[0] == "is" for t, x in p.state.facts.items()) or None,
          "a frame cannot be written and the connection goes on", tune=lambda E: setattr(E, "encode_err", True))
    sh = co(ctx, "Dispatcher", "shutdown")
    E, ps = runp(ctx, sh, Spec((nm,), (), ("await",)), live=False, opaque=lambda g: g.id == ender.id)
    c = 0
    for p in ps:
        ev = [e.kind for e in p.events]
        c += 1
        ctx.ob("route:shutdown", bool(ev) and ev[0] == "call", "%s: the dispatcher stops and what waits on the connection is not completed (before anything "
               "else is waited for)" % where(sh))
    ctx.floor("route shutdown", c, 1)
    hc = by_tail(ctx, "handle_control_frame", "Dispatcher")
    E, ps = runp(ctx, hc, Spec((nm,), (), ()), live=False, opaque=lambda g: g.id == ender.id or "SessionInner::" in g.path or
                 g.path.endswith(("Link::close_with_error", "notify_service")), max_paths=100000, pin=[("FrameInner", "kind")])
    n = {}
    for p in ps:
        if p.out != "ret":
            continue
        for v in ctl_kinds(ctx, p):
            if v not in ("ProtocolError", "Closed", "Disconnected"):
                continue
            n[v] = n.get(v, 0) + 1
            ctx.ob("route:control:" + v, calls(p.events, nm), "%s: the control frame %s is handled and the connection is not ended" % (where(hc), v))
            if v == "ProtocolError":
                ctx.ob("route:control:stops", p.ret is not None and is_err(p.ret), "%s: a protocol error does not stop the dispatcher" % where(hc))
    for v in ("ProtocolError", "Closed", "Disconnected"):
        ctx.floor("control frame " + v, n.get(v, 0), 2)
    # Close frame of the peer
    hf = ctx.fn("ConnectionRef::handle_frame")
    E, ps = runp(ctx, hf, Spec((nm,), (), ()), live=False, opaque=lambda g: g.id == ender.id or not_end(g) or g.path.endswith("SessionInner::set_error"),
                 max_paths=200000)
    c = 0
    for p in ps:
        if p.out == "ret" and frame_kind(p) == "Close":
            c += 1
            ctx.ob("route:close", calls(p.events, nm), "%s: a Close frame does not end the connection" % where(hf))
    ctx.floor("route Close frame", c, 2)


def by_tail(ctx, name, adt):
    """method of a generic type"""
    l = [g for g in ctx.F.fns.values() if g.path.endswith("::" + name) and adt in g.path]
    if not l:
        raise __import__("check").Missing("%s::%s" % (adt, name))
    return sorted(l, key=lambda g: len(g.path))[0]


def is_enc_name(s):
    return short(s) in ENC or s.split("::")[-1] == "encode"


def co(ctx, adt, name):
    """body of the async trait method `name` of `adt`"""
    l = [g for g in ctx.F.fns.values() if g.coroutine and "::" + name + "::" in g.path and adt in g.path]
    if not l:
        raise __import__("check").Missing("async %s::%s" % (adt, name))
    return sorted(l, key=lambda g: len(g.path))[0]


def ctl_kinds(ctx, p):
    """which control frame kinds the path is about"""
    al = set(variants(ctx, "ControlFrameKind"))
    for t, x in p.state.facts.items():
        n = names_of(x)
        if n and n <= al and t.k in ("F", "W"):
            u = t.a[0] if t.k == "W" else t
            if u.k == "F" and u.a[1][2] == "kind":
                al = al & n if x[0] == "is" else al - n
    return al if len(al) < 5 else set()


def refused(ctx):
    """an ended connection opens no session, an ended session attaches no link"""
    def one(tag, f, af, ins, what, sides=()):
        E, ps = runp(ctx, f, Spec(("Slab::insert", "VacantEntry::insert", "HashMap::insert") + ENC, (), ("await",)), live=False, max_paths=100000, pin=[af])
        n = 0
        for p in ps:
            did = [e for e in p.events if e.kind in ("call", "await")]
            was = ended_before(p, af)
            if was is True:
                n += 1
                ctx.ob(tag + ":refused", not did and (p.out != "ret" or refusal(p.ret)), "%s: %s" % (where(f), what))
            elif was is None and did:
                ctx.bad(tag + ":looked", "%s: %s (it is not looked at)" % (where(f), what))
        ctx.floor(tag + " refused", n, 1)
    os = [g for g in ctx.F.fns.values() if g.coroutine and "::open_session::" in g.path and "ConnectionRef" not in g.path]
    if not os:
        raise __import__("check").Missing("open_session")
    one("open-session", sorted(os, key=lambda g: len(g.path))[0], CERR, (), "a session is opened on a connection that has ended")
    for nme in ("SessionInner::attach_local_sender_link", "SessionInner::attach_local_receiver_link"):
        one(nme.split("_")[2], ctx.fn(nme), SERR, (), "a link is attached in a session that has ended")


def refusal(r):
    """an answer that is an error or a channel whose other end is gone"""
    if r is None:
        return False
    return contains(r, lambda y: is_err(y)) or contains(r, lambda y: y.k == "X" and y.a[0].split("::")[-1] == "channel")


def ended_before(p, af):
    r = before_present(p, af)
    if af == SERR and r is not True:
        for t, x in p.state.facts.items():
            k = flag_known(t, x, SFLAGS)
            if k and "ENDED" in k[0] and k[1] in ("any", "all", True):
                return True
            if k and k[0] == {"ENDED"} or k and "ENDED" in k[0] and k[1] == "none":
                r = False
    return r


def cut_off(ctx):
    """whatever waits for an answer gets an error when the other end of its channel is dropped"""
    fs = [g for g in ctx.F.fns.values() if g.coroutine and any(g.path.startswith(CR + m + "::") for m in ("session", "connection", "sndlink", "rcvlink", "delivery"))]
    n = 0
    for g in sorted(fs, key=lambda g: g.path):
        E, ps = runp(ctx, g, Spec((), (), ("await",)), live=False, max_paths=50000, pin=[("await", "")])
        for p in ps:
            if p.out != "ret":
                continue
            lost = [t for t, x in p.state.facts.items() if x == ("is", "Err") and answer(t)]
            for t in lost:
                n += 1
                r = p.ret
                r = dict(r.a[2]).get("0") if r is not None and r.k == "A" and r.a[1] == "Ready" else r
                ctx.ob("cut-off:" + g.path.split("::{")[0], r is not None and (is_err(r) or known(p, r) == ("is", "Err")), "%s: waits for an answer that will never come, "
                       "or is an error, and reports success" % where(g))
    ctx.floor("waits that can be cut off", n, 5)


def answer(t):
    """the result of a wait, or the answer in it"""
    while t.k == "F" and t.a[1][1] == "Ok":
        t = t.a[0]
    return t.k == "X" and t.a[0] == "await"


# ---- E03 ------------------------------------------------------------------------------------------------------
def compare(t, x, entry):
    """a path condition that compares a value with an entry's field: (other side, equal?)"""
    if t.k == "B" and t.a[0] in ("Eq", "Ne") and x[0] == "eq":
        eq = bool(x[1]) == (t.a[0] == "Eq")
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if entry(uncast(a)):
                return uncast(b), eq
    return None


def link_id(root, idx):
    """the local handle of the link: its slot, or the id kept in it"""
    ids = {uncast(strip(i)) for i in idx}

    def go(t):
        t = uncast(t)
        return strip(t) in ids or adt_field(t) in ((SL, "id"), (RL, "handle"), (RL, "id")) and root is not None and within(t, root)
    return go


def at_end(p, q, i):
    """is index i known to be past the end of the queue: True / False / None"""
    for t, x in p.state.facts.items():
        if t.k == "X" and t.a[0] == "len" and t.a[1][0] is q:
            if x[0] == "eq":
                return i >= x[1]
        if t.k != "B" or x[0] != "eq":
            continue
        op, a, b = t.a
        isl = lambda y: y.k == "X" and y.a[0] == "len" and y.a[1][0] is q
        c = lambda y: y.k == "C" and y.a[0] == i
        v = bool(x[1])
        if op == "Lt" and c(a) and isl(b) or op == "Gt" and isl(a) and c(b):
            return not v
        if op == "Ge" and c(a) and isl(b) or op == "Le" and isl(a) and c(b):
            return v
        if op in ("Eq", "Ne") and (c(a) and isl(b) or isl(a) and c(b)):
            return v == (op == "Eq")
    return None


def swept(ctx, tag, w, p, is_id):
    """of the sends waiting for the session window exactly those of the link are failed"""
    fld = lambda e: (lambda y: y.k == "F" and y.a[1][2] == "link_handle" and within(y, e))
    cmps = []
    for t, x in p.state.facts.items():
        r = compare(t, x, lambda y: y.k == "F" and adt_field(y) == ("PendingTransfer", "link_handle"))
        if r:
            cmps.append((t, r))
            ctx.ob(tag + ":which", is_id(r[0]), "%s: sends waiting for the session window are told apart by something that is not the link's handle" % w)

    def verdict(e):
        for t, (o, eq) in cmps:
            if contains(t, fld(e)):
                return eq
        return None
    snd = calls(p.events, "Sender::send")
    rem = [e for e in calls(p.events, "VecDeque::remove", "VecDeque::swap_remove_back") if isq(e.args[0], PENDING)]

    def failed(item):
        s = [e for e in snd if within(e.args[0], item)]
        return len(s) == 1 and is_err(s[0].args[1])
    nx = [e for e in p.events if e.kind == "next" and isq(e.args[0], PENDING)]
    if nx:
        # the queue is taken apart and put together again
        for e in nx:
            if known(p, e.args[1]) == ("is", "None"):
                continue
            it = mk("F", e.args[1], (OPT, "Some", "0"), 0)
            v = verdict(it)
            back = [c for c in calls(p.events, "VecDeque::push_back") if c.args[1] is it]
            mine = [s for s in snd if within(s.args[0], it)]
            ctx.ob(tag + ":looked", v is not None, "%s: a waiting send is not looked at" % w)
            if v is True:
                ctx.ob(tag + ":failed", failed(it) and not back, "%s: a send of the link that waits for the session window is not failed" % w)
            elif v is False:
                ctx.ob(tag + ":kept", not mine and len(back) == 1, "%s: a send of another link is taken from the queue" % w)
        ctx.ob(tag + ":complete", any(known(p, e.args[1]) == ("is", "None") for e in nx), "%s: not every waiting send is looked at" % w)
        return
    q0 = [t.a[1][0] for t, x in p.state.facts.items() if t.k == "X" and t.a[0] == "len" and adt_field(t.a[1][0]) == PENDING and t.a[1][0].k == "F"]
    q = q0[0] if q0 else None
    i, seen, bad = 0, 0, None
    while q is not None and seen < 12:
        seen += 1
        if at_end(p, q, i) is True:
            break
        ent = mk("X", "?", (), 0)
        v = None
        for t, (o, eq) in cmps:
            if contains(t, lambda y: y.k == "F" and y.a[1][2] == "link_handle" and at(y.a[0], q, i)):
                v = eq
                break
        r = [e for e in rem if e.args[0] is q or e.args[0] is not None and strip(e.args[0]) is strip(q)]
        here = [e for e in r if e.args[1] is C(i)]
        if v is True:
            if not here:
                bad = "a send of the link that waits for the session window is not failed"
                break
            it, nq = taken(p, q, i)
            if it is not None and known(p, it.a[0]) == ("is", "None"):
                return                              # the index is within the queue, there is an entry
            if it is None or not failed(it):
                bad = "a send of the link that waits for the session window is removed and not failed"
                break
            if nq is None:
                bad = "waiting sends after the first one of the link are not looked at"
                break
            q = nq
        elif v is False:
            if here:
                bad = "a send of another link is taken from the queue"
                break
            i += 1
        else:
            bad = "a waiting send is not looked at"
            break
    if q is None:
        bad = "sends waiting for the session window are not looked at"
    ctx.ob(tag + ":swept", bad is None, "%s: %s" % (w, bad))
    n = sum(1 for t, (o, eq) in cmps if eq)
    ctx.ob(tag + ":count", len(rem) == n, "%s: sends that are not the link's are taken from the queue" % w)


def at(t, q, i):
    """t is the i-th entry of the queue"""
    for y in walk(t):
        if y.k == "X" and short(y.a[0]).split("::")[-1] in ("index", "index_mut", "get", "get_mut", "front", "front_mut") and y.a[1] and y.a[1][0] is q:
            return len(y.a[1]) < 2 and i == 0 or len(y.a[1]) > 1 and y.a[1][1] is C(i)
    return False


def taken(p, q, i):
    """(the entry taken out of the queue, the queue left behind)"""
    item = left = None
    for t in p.state.facts:
        for y in walk(t):
            if y.k == "X" and len(y.a[1]) > 1 and y.a[1][0] is q and y.a[1][1] is C(i) and y.a[0].split("::")[-1] in ("remove", "swap_remove_back"):
                if y.a[0].startswith("mut:"):
                    left = y
                else:
                    item = y
    return (mk("F", item, (OPT, "Some", "0"), 0) if item is not None else None), left


def failed_deliveries(ctx, tag, w, p, af, is_id):
    """unsettled deliveries of the link, and only those, fail"""
    ts, done = turns(p, af)
    ctx.ob(tag + ":deliveries-all", done, "%s: not every unsettled delivery is looked at" % w)
    n = [0, 0]
    for t in ts:
        v = None
        for u, x in p.state.facts.items():
            r = compare(u, x, lambda y: y.k == "F" and adt_field(y) == (DI, "handle") and t.has(y))
            if r:
                v = r[1]
                ctx.ob(tag + ":deliveries-which", is_id(r[0]), "%s: unsettled deliveries are told apart by something that is not the link's handle" % w)
        we = [e for e in p.events if wr(e, DI + ".error") and t.has(e.args[0])]
        if v is True:
            n[0] += 1
            ctx.ob(tag + ":deliveries-failed", we and some(we[-1].args[1]) is not None, "%s: an unsettled delivery of the link does not fail" % w)
            woken(ctx, tag, w, p, t)
        elif v is False:
            n[1] += 1
            ctx.ob(tag + ":deliveries-kept", not we, "%s: a delivery of another link fails" % w)
        else:
            ctx.bad(tag + ":deliveries-looked", "%s: an unsettled delivery is not looked at" % w)
    return n


def let_go(ctx, tag, w, p, idx, root, handle):
    """slot, name and remote handle of the link are free again"""
    i = strip(idx)
    rm = [e for e in calls(p.events, "Slab::remove", "Slab::try_remove") if isq(e.args[0], LINKS)]
    absent = any(x == ("eq", 0) and t.k == "X" and t.a[0].split("::")[-1] == "contains" and isq(t.a[1][0], LINKS) for t, x in p.state.facts.items())
    ctx.ob(tag + ":slot", absent or len(rm) == 1 and strip(rm[0].args[1]) is i, "%s: the slot of a detached link is not released" % w)
    for af, what in ((NAMES, "name"), (HANDLES, "remote handle")):
        rt = [e for e in p.events if e.kind == "retain" and isq(e.args[0], af)]
        for e in rt:
            v = None
            for u, x in p.state.facts.items():
                r = compare(u, x, lambda y: contains(y, lambda z: z.k == "F" and z.a[1] == ("tuple", "", "1") and within(z, e.args[1])))
                if r and (strip(r[0]) is i or link_id(root, [idx])(r[0])):
                    v = r[1]
            ctx.ob("%s:%s:which" % (tag, what), v is not None and e.args[2] is C(0 if v else 1), "%s: the %s of the wrong link is released" % (w, what))
        rr = [e for e in calls(p.events, "HashMap::remove") if isq(e.args[0], af)]
        for e in rr:
            k = deref_key(e.args[1])
            ctx.ob("%s:%s:key" % (tag, what), strip(k) is strip(handle) if af == HANDLES else root is not None and within(k, root),
                   "%s: the wrong %s is released" % (w, what))
        ctx.ob("%s:%s" % (tag, what), bool(rr) or any(short(e.name) == "HashMap::retain" and isq(e.args[0], af) for e in p.events if e.kind == "call"),
               "%s: the %s of a detached link is not released" % (w, what))


def deref_key(t):
    return t


def slot_of(p):
    """(index term, slot term, element term) of the link a frame names"""
    for t, x in p.state.facts.items():
        if x == ("is", "Some") and t.k == "X" and t.a[1] and len(t.a[1]) > 1 and isq(t.a[1][0], LINKS) and t.a[0].split("::")[-1] in ("get_mut", "get"):
            return t.a[1][1], t, mk("F", t, (OPT, "Some", "0"), 0)
    return None


def slot_shape(ctx, p, el, kinds):
    t = Turn(el)
    return shapes(ctx, p, t, kinds)


def action_of(p):
    r = p.ret
    if r is not None and r.k == "A" and r.a[0] == RES and r.a[1] == "Ok":
        r = dict(r.a[2]).get("0")
    return r if r is not None and r.k == "A" and r.a[0].endswith("::Action") else None


def waiter_answered(ctx, tag, w, p, el, af_variant, ok):
    """the task that waits in the slot gets its answer; ok: None = never success, else fn(path) -> True/False/None"""
    tx = [(t, x) for t, x in p.state.facts.items() if within(t, el) and names_of(x) and names_of(x) <= {"Some", "None"} and
          t.k == "F" and t.a[1][1] == af_variant and t.a[1][2] == "0"]
    s = [e for e in calls(p.events, "Sender::send") if within(e.args[0], el)]
    none = any(x == ("is", "None") or x == ("not", frozenset({"Some"})) for t, x in tx)
    ctx.ob(tag + ":answered", none or len(s) == 1, "%s: the task that waits for the link is not answered" % w)
    for e in s:
        want = ok(p) if ok else False
        if want is True:
            ctx.ob(tag + ":answer", is_ok(e.args[1]), "%s: the peer confirmed the detach and the task waiting for it is told an error" % w)
        elif want is False:
            ctx.ob(tag + ":answer", is_err(e.args[1]), "%s: the task waiting for the link is told success, the peer has refused it" % w)
        else:
            ctx.ob(tag + ":answer", False, "%s: the peer's error is not looked at" % w)
    return 1 if s else 0


def no_error(p):
    """the Detach has no error: True / False / None"""
    for t, x in p.state.facts.items():
        if adt_field(t) == ("DetachInner", "error"):
            n = names_of(x)
            if x[0] == "is":
                return x[1] == "None"
            return "Some" in n
    return None


def detach_paths(ctx, live, **kw):
    adt = [k for k in ctx.F.adts if k.endswith("::Frame")]
    f = ctx.fn("SessionInner::handle_frame")
    kw.setdefault("tune", lambda E: (setattr(E, "exact_loops", True), setattr(E, "loop_visits", 3)))
    E, ps = runp(ctx, f, endspec((), (), ("retain",)), args=[P("self"), aggl(adt[0], "Detach", P("detach"))], live=live, pin=[LINKS, (SL, "id"), HANDLES, SERR],
                 max_paths=400000, **kw)
    return f, ps


def e03(ctx):
    for x in (LINKS, NAMES, HANDLES, PENDING, SNDMAP, RCVMAP, (DI, "handle"), (DI, "error"), ("PendingTransfer", "link_handle"), (SL, "closed"), (RL, "closed")):
        need(ctx, *x)
    f, ps = detach_paths(ctx, False)
    w = where(f)
    kinds = link_kinds(ctx)
    n = {}
    for p in ps:
        if p.out != "ret" or before_present(p, SERR) is not False and before_present(p, SERR) is not None:
            continue
        sl = slot_of(p)
        if sl is None:
            lost = any(x[0] in ("is", "not") and t.k == "X" and len(t.a[1]) > 1 and (isq(t.a[1][0], LINKS) or isq(t.a[1][0], HANDLES)) and t.a[0].split("::")[-1] in
                       ("get", "get_mut", "remove", "try_remove") for t, x in p.state.facts.items())
            ctx.ob("looked-up", lost or before_present(p, SERR) is True, "%s: a Detach frame is handled without looking up its link" % w)
            continue
        idx, _, el = sl
        hd = [y for y in walk(idx) if y.k == "F" and y.a[1][2] == "handle"]
        sh = slot_shape(ctx, p, el, kinds)
        ctx.ob("routed", any(isq(y, HANDLES) for y in walk(idx)) and bool(hd), "%s: a Detach frame is not routed by the peer's handle" % w)
        if len(sh) != 1:
            ctx.bad("state", "%s: a Detach frame is handled without looking at the state of the link" % w)
            continue
        side, v = next(iter(sh))
        is_id = link_id(el, [idx])
        c = n.setdefault((side, v), [0, 0, 0, 0])
        c[0] += 1
        let_go(ctx, "%s:%s" % (side, v), w, p, idx, el, hd[0] if hd else idx)
        act = action_of(p)
        tag = v if side == "Left" else "receiver:" + v
        told = act is not None and act.a[1] == ("DetachSender" if side == "Left" else "DetachReceiver") and within(act.a[2][0][1], el)
        if side == "Left" and v == "Established":
            sender_closed(ctx, tag, w, p, p.events, el)
            swept(ctx, tag, w, p, is_id)
            r = failed_deliveries(ctx, tag, w, p, SNDMAP, is_id)
            c[1] += r[0]
            c[2] += r[1]
            ctx.ob(tag + ":told", told, "%s: the application is not told that the peer detached a link" % w)
        elif side == "Left" and v == "OpeningRemote":
            sender_closed(ctx, tag, w, p, p.events, el)
            ctx.ob(tag + ":told", told, "%s: the application is not told that the peer detached a link" % w)
        elif v == "Opening" and side == "Left" or v == "OpeningLocal":
            c[1] += waiter_answered(ctx, tag, w, p, el, v, None)
        elif v == "Closing":
            c[1] += waiter_answered(ctx, tag, w, p, el, v, no_error)
            r = failed_deliveries(ctx, tag, w, p, SNDMAP if side == "Left" else RCVMAP, is_id)
            c[2] += r[0]
        elif v == "Opening":
            gone = any(names_of(x) == {"None"} and x[0] == "is" and within(t, el) for t, x in p.state.facts.items())
            if not gone:
                c[1] += 1
                receiver_closed(ctx, tag, w, p, p.events, el)
                ctx.ob(tag + ":told", told, "%s: the application is not told that the peer detached a link" % w)
        elif v == "Established":
            receiver_closed(ctx, tag, w, p, p.events, el)
            r = failed_deliveries(ctx, tag, w, p, RCVMAP, is_id)
            c[1] += r[0]
            c[2] += r[1]
            ctx.ob(tag + ":told", told, "%s: the application is not told that the peer detached a link" % w)
        # nothing that belongs to other links
        for e in p.events:
            if e.kind == "call" and short(e.name) in CLEAR and any(isq(e.args[0], a) for a in (LINKS, NAMES, HANDLES, SNDMAP, RCVMAP)):
                ctx.bad("others", "%s: a Detach frame empties a table of the whole session" % w)
            if e.kind == "write" and e.name.split("::")[-1] in (SL + ".closed", RL + ".closed", SL + ".error", RL + ".error"):
                ctx.ob("others:closed", within(e.args[0], el), "%s: a Detach frame closes another link" % w)
    for side, vs in kinds.items():
        for v in vs:
            ctx.floor("Detach frames for a link %s %s" % (side, v), n.get((side, v), [0])[0], 1)
    for k, i, what in ((("Left", "Established"), 1, "deliveries of a detached sender"), (("Left", "Established"), 2, "deliveries of other senders"),
                       (("Right", "Established"), 1, "deliveries of a detached receiver"), (("Left", "Opening"), 1, "waiting sender attaches"),
                       (("Right", "OpeningLocal"), 1, "waiting receiver attaches"), (("Left", "Closing"), 1, "waiting sender detaches"),
                       (("Right", "Closing"), 1, "waiting receiver detaches"), (("Left", "Closing"), 2, "deliveries of a closing sender"),
                       (("Right", "Opening"), 1, "unconfirmed receivers")):
        ctx.floor(what, n.get(k, [0] * 4)[i], 1)


# ---- E04 ------------------------------------------------------------------------------------------------------
SLOT = ("Left.0", "Right.0", "Some.0", "Either.0", "")


def slot_writes(p):
    """writes of a link's slot: (side or None, variant, value, event)"""
    out = []
    for e in p.events:
        if e.kind != "write":
            continue
        v, side = e.args[1], None
        if v.k == "A" and v.a[0].endswith("either::Either") and v.a[2]:
            side, v = v.a[1], v.a[2][0][1]
        if v.k == "A" and v.a[0].split("::")[-1] in ("SenderLinkState", "ReceiverLinkState"):
            out.append((side or ("Left" if v.a[0].endswith("SenderLinkState") else "Right"), v.a[1], v, e))
    return out


def quiet_frames(p):
    """is it known that frames of the session are dropped on this path (an End is on its way, or the connection is over)"""
    return any(closing(t, x) for t, x in p.state.facts.items())


def never_stuck(ctx, tag, w, p):
    """whoever closes a link does not wait for an answer that nobody was asked for"""
    for side, v, val, e in slot_writes(p):
        if v != "Closing":
            continue
        inner = dict(val.a[2]).get("0")
        if inner is not None and some(inner) is None:
            continue
        d = [x for x in p.events if is_enc(x) and frame(x)[1] == "Detach"]
        ctx.ob(tag + ":asked", len(d) == 1 or quiet_frames(p), "%s: waits for the peer to confirm a detach that was not sent" % w)


def e04(ctx):
    for x in (LINKS, PENDING, (SL, "closed"), (RL, "closed"), (SL, "pending_transfers"), (SL, "on_close"), (SL, "on_credit"), (RL, "reader_task"), (SL, "id")):
        need(ctx, *x)
    kinds = link_kinds(ctx)
    spec = lambda: endspec(ENC, SLOT, ("drop", "retain"))
    pins = [LINKS, (SL, "closed"), (RL, "closed"), (SL, "id"), SFLAGS, (CI, "state"), PENDING, ("PendingTransfer", "link_handle")]
    tune = lambda E: (setattr(E, "exact_loops", True), setattr(E, "loop_visits", 3))
    n = {}

    def inc(k):
        n[k] = n.get(k, 0) + 1

    def sender(name, root_of, **kw):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, spec(), pin=pins, tune=tune, max_paths=200000, live=False, **kw)
        for p in ps:
            if p.out != "ret":
                continue
            root = root_of(p)
            if root is None:
                inc(name + " nothing to close")
                continue
            if root is False:
                ctx.bad("sender:looked:" + name, "%s: a link is closed without looking whether it is closed already" % w)
                continue
            sender_closed(ctx, "sender", w, p, p.events, root, err=False)
            never_stuck(ctx, "sender", w, p)
            sl = slot_of(p)
            sh = slot_shape(ctx, p, sl[2], kinds) if sl else set()
            if sh == {("Left", "Established")}:
                inc(name + " established")
                lid = link_id(sl[2], [sl[0]])
                swept(ctx, "sender", w, p, lambda t: lid(t) or adt_field(uncast(t)) == (SL, "id") and within(t, root))
            else:
                inc(name + " other")
    own = P("self")

    def by_self(adt):
        def root(p):
            c = closed_first(p, (adt, "closed"))
            return None if c is True else False if c is None else own
        return root

    def by_slot(side, vs):
        def root(p):
            sl = slot_of(p)
            if sl is None:
                return None
            sh = slot_shape(ctx, p, sl[2], kinds)
            if all(s == side and v in vs for s, v in sh):
                c = [x for t, x in p.state.facts.items() if t.k == "F" and adt_field(t) == (SL, "closed") and within(t, sl[2])]
                return None if c and all(x == ("eq", 1) for x in c) else sl[2]
            return None
        return root
    sender("SenderLink::close", by_self(SL))
    sender("SenderLink::close_with_error", by_self(SL))
    sender("Session::detach_sender_link", by_slot("Left", ("Established", "OpeningRemote")))
    f = ctx.fn("SessionInner::detach_unconfirmed_sender_link")
    sender("SessionInner::detach_unconfirmed_sender_link", lambda p: (None if closed_first(p, (SL, "closed")) is True else P("link")))
    for k in ("SenderLink::close established", "SenderLink::close other", "SenderLink::close nothing to close", "SenderLink::close_with_error established",
              "Session::detach_sender_link established", "Session::detach_sender_link other", "SessionInner::detach_unconfirmed_sender_link other"):
        ctx.floor(k, n.get(k, 0), 1)

    def receiver(name, root_of):
        f = ctx.fn(name)
        w = where(f)
        E, ps = runp(ctx, f, spec(), pin=pins, tune=tune, max_paths=200000, live=False)
        for p in ps:
            if p.out != "ret":
                continue
            root = root_of(p)
            if root is None:
                inc(name + " nothing to close")
                continue
            if root is False:
                ctx.bad("receiver:looked:" + name, "%s: a link is closed without looking whether it is closed already" % w)
                continue
            inc(name)
            receiver_closed(ctx, "receiver", w, p, p.events, root)
            never_stuck(ctx, "receiver", w, p)

    def open_slot(p):
        r = by_slot("Right", ("Established", "Opening"))(p)
        if r is not None and any(names_of(x) == {"None"} and x[0] == "is" and within(t, r) and t is not r for t, x in p.state.facts.items()):
            return None
        return r
    receiver("ReceiverLink::close", by_self(RL))
    receiver("ReceiverLink::close_with_error", by_self(RL))
    receiver("Session::detach_receiver_link", open_slot)
    for k in ("ReceiverLink::close", "ReceiverLink::close_with_error", "Session::detach_receiver_link", "ReceiverLink::close nothing to close"):
        ctx.floor(k, n.get(k, 0), 1)
    waiting(ctx)


def closed_first(p, af):
    """was the link closed when the function was entered"""
    for t, x in p.state.facts.items():
        if t.k == "F" and adt_field(t) == af and t.a[2] in (0, (0, 0)) and x[0] in ("eq", "ne"):
            return bool(x[1]) if x[0] == "eq" else (True if 0 in x[1] else None)
    return None


def at_epoch(p, af, n):
    """value of a flag as read in the n-th uninterrupted step of the function"""
    from r_dlv import epoch
    for t, x in p.state.facts.items():
        if t.k == "F" and adt_field(t) == af and epoch(t) == n:
            if x[0] == "eq":
                return bool(x[1])
            if x[0] == "ne" and 0 in x[1]:
                return True
    return None


def waiting(ctx):
    """tasks that wait on a link look whether it is closed, in the same step in which they begin to wait or act"""
    from r_snd import send_paths, is_transfer, CREDIT
    from r_dlv import epoch
    need(ctx, *CREDIT)
    f, E, ps = send_paths(ctx, {dot(CREDIT)}, pin=[(SL, "closed"), (SL, "error")])
    w = where(f)
    n = 0
    for p in ps:
        for e in p.events:
            if wr(e, dot(CREDIT)):
                n += 1
                ctx.ob("send:closed", at_epoch(p, (SL, "closed"), epoch(e.args[2])) is False, "%s: credit of a link is used although it may have been closed while "
                       "the task was waiting" % w)
        if p.out == "ret" and closed_first(p, (SL, "closed")) is True:
            ctx.ob("send:refused", p.ret is not None and is_err(p.ret) and not any(is_transfer(e) for e in p.events), "%s: a message is sent on a closed link" % w)
    ctx.floor("sends that use credit", n, 2)
    # SenderLink::ready
    f = ctx.fn("SenderLink::ready")
    w = where(f)
    E, ps = runp(ctx, f, Spec(("Condition::wait",), (), ("await",)), pin=[(SL, "closed")])
    n = 0
    for p in ps:
        seen = sorted((epoch(t), bool(x[1]) if x[0] == "eq" else 0 in x[1]) for t, x in p.state.facts.items() if t.k == "F" and adt_field(t) == (SL, "closed") and
                      x[0] in ("eq", "ne"))
        aw = len([e for e in p.events if e.kind == "await"])
        if p.out == "ret":
            n += 1
            ctx.ob("ready:closed", len(seen) > aw and not any(c for _, c in seen[:aw]), "%s: waits for credit without looking whether the link is closed" % w)
            ctx.ob("ready:answer", seen and p.ret is (FALSE if seen[-1][1] else TRUE), "%s: a closed link is reported ready, or an open one closed" % w)
    ctx.floor("answers of SenderLink::ready", n, 2)
    # receivers
    f = ctx.fn("ReceiverLink::poll_recv")
    w = where(f)
    E, ps = runp(ctx, f, Spec(("LocalWaker::register",), (), ()), pin=[(RL, "closed")])
    n = [0, 0]
    for p in ps:
        if p.out != "ret":
            continue
        c = closed_first(p, (RL, "closed"))
        pend = p.ret is not None and p.ret.k == "A" and p.ret.a[1] == "Pending"
        reg = [e for e in calls(p.events, "LocalWaker::register") if adt_field(e.args[0]) == (RL, "reader_task")]
        if pend:
            n[0] += 1
            ctx.ob("recv:closed", c is False, "%s: a task waits for messages of a link that may be closed" % w)
            ctx.ob("recv:registered", bool(reg), "%s: a task waits for messages and is not registered for being woken" % w)
        elif c is True:
            n[1] += 1
    ctx.floor("waiting receivers", n[0], 1)
    ctx.floor("receivers of a closed link", n[1], 1)
