"""F01, F02, F05 (sending), F06: what a sender may put on the wire."""
from mainlib import *

CREDIT, COUNT = ("SenderLinkInner", "link_credit"), ("SenderLinkInner", "delivery_count")
WIN, OUTID = ("SessionInner", "remote_incoming_window"), ("SessionInner", "next_outgoing_id")
LQ, SQ = ("SenderLinkInner", "pending_transfers"), ("SessionInner", "pending_transfers")
UNS = ("SessionInner", "unsettled_snd_deliveries")
dot = lambda af: "%s.%s" % af
SEND_CALLS = ENC + QCALLS + ("HashMap::insert", "HashMap::entry", "Pool::channel")


def need(ctx, adt, field):
    a = [x for n, x in ctx.F.adts.items() if n.startswith(CR) and n.split("::")[-1] == adt]
    if not a or not any(f["name"] == field for v in a[0]["variants"] for f in v["fields"]):
        from check import Missing
        raise Missing("field %s.%s" % (adt, field))


def send_paths(ctx, writes, calls=SEND_CALLS, extra=(), pred=None, pin=()):
    f = ctx.fn("TransferBuilder::send")
    E, ps = runp(ctx, f, Spec(calls, writes, ("await",) + tuple(extra), pred), max_paths=100000, pin=frozenset(pin))
    return f, E, ps


def is_transfer(e):
    return is_enc(e) and frame(e)[1] == "Transfer"


def closed_world(ctx, adt, fields, what):
    for fld in fields:
        n = 0
        for g, line in writers(ctx.F, adt, fld):
            if not g.path.startswith(CR):
                continue
            n += 1
            ctx.ob("only-%s:%s:%s" % (what, fld, g.path), g.id in ctx.fns,
                   "%s:%d %s changes %s.%s, but is not part of sending or of applying a flow: %s is changed by "
                   "something else" % (g.file, line, g.path, adt, fld, fld))
        ctx.floor("writers of %s.%s" % (adt, fld), n, 1)


def one_use(ctx, p, i, old_af, new_ok, used, what):
    """index of the single write of the counter before event i"""
    ws = [k for k, e in enumerate(p.events) if wr(e, dot(old_af)) and k < i]
    return ws


def f01(ctx):
    for x in (CREDIT, COUNT, LQ):
        need(ctx, *x)
    f, E, ps = send_paths(ctx, {dot(CREDIT), dot(COUNT)})
    where = "%s:%d %s" % (f.file, f.line, f.path)
    nsend = 0
    for p in ps:
        tr = [k for k, e in enumerate(p.events) if is_transfer(e)]
        cw = [k for k, e in enumerate(p.events) if wr(e, dot(CREDIT))]
        dw = [k for k, e in enumerate(p.events) if wr(e, dot(COUNT))]
        # every change of the credit made while sending is the use of one unit that is known to be there
        for k in cw:
            e = p.events[k]
            old = e.args[2]
            ctx.ob("use-one", minus_one(e.args[1], old),
                   "%s line %s: sending changes the link credit from %s to %s, not by one" %
                   (where, e.line, show(old)[:80], show(e.args[1])[:120]))
            ctx.ob("use-checked", nonzero(p, old),
                   "%s line %s: a unit of link credit is used although the path does not establish, after the last "
                   "suspension, that credit is left (%s)" % (where, e.line, show(old)[:100]))
        for k in dw:
            e = p.events[k]
            ctx.ob("count-one", plus_one(e.args[1], e.args[2]),
                   "%s line %s: sending changes the delivery count from %s to %s" %
                   (where, e.line, show(e.args[2])[:80], show(e.args[1])[:120]))
        if tr:
            nsend += 1
            first = tr[0]
            ctx.ob("credit-per-message", len([k for k in cw if k < first]) == 1 and len(cw) == 1,
                   "%s line %s: a transfer is written on a path that uses %d unit(s) of link credit before it and %d in "
                   "all" % (where, p.events[first].line, len([k for k in cw if k < first]), len(cw)))
            ctx.ob("count-per-message", len(dw) == 1,
                   "%s line %s: a message is sent on a path that advances the delivery count %d time(s)" %
                   (where, p.events[first].line, len(dw)))
        elif not _fails(p):
            ctx.ob("sent", p.out != "ret", "%s: a path reports success without writing a transfer" % where)
        else:
            ctx.ob("credit-lost", len(cw) <= 1, "%s: a failing path uses %d units of credit" % (where, len(cw)))
        waits(ctx, p, where)
    ctx.floor("sending paths", nsend, 4)
    flow_rule(ctx, CREDIT, ("FlowInner", "link_credit"), ("FlowInner", "delivery_count"), COUNT, LQ, link=True)
    closed_world(ctx, CREDIT[0], (CREDIT[1],), "credit")
    closed_world(ctx, COUNT[0], (COUNT[1],), "count")
    # a new link has no credit
    n = 0
    for g in aggregates(ctx.F, "SenderLinkInner"):
        E2, ps2 = runp(ctx, g, Spec())
        for p in ps2:
            if p.out != "ret":
                continue
            for t in walk(p.ret):
                if t.k == "A" and t.a[0].endswith("::SenderLinkInner"):
                    n += 1
                    ctx.ob("new:" + g.path, dict(t.a[2]).get(CREDIT[1]) is C(0),
                           "%s:%d %s: a new sender link starts with credit %s" %
                           (g.file, g.line, g.path, show(dict(t.a[2]).get(CREDIT[1], UNIT))[:80]))
    ctx.floor("constructors of sender links", n, 1)
    ready_rule(ctx)
    transfers_only_here(ctx)


def _fails(p):
    return p.out != "ret" or (p.ret.k == "A" and p.ret.a[1] == "Err") or \
        (p.ret.k != "A" and p.state.facts.get(p.ret) == ("is", "Err"))


def waits(ctx, p, where):
    """a suspension for credit or window is preceded by joining the queue whose owner resumes it"""
    for k, e in enumerate(p.events):
        if e.kind != "await" or not e.args:
            continue
        fut = e.args[0]
        chans = [t for t in walk(fut) if t.k == "X" and short(t.a[0]) in ("Pool::channel", "oneshot::channel", "pool::channel")]
        if not chans:
            continue
        ch = chans[0]
        joined = None
        for q in p.events[:k]:
            if q.kind == "call" and short(q.name) in ("VecDeque::push_back", "VecDeque::push_front", "Vec::push", "VecDeque::insert") and \
                    any(within(a, ch) for a in q.args[1:]):
                joined = q
        ok = joined is not None and (isq(joined.args[0], LQ) or isq(joined.args[0], SQ))
        ctx.ob("wait-queued", ok, "%s line %s: the sender suspends on a channel that was not put into the queue of waiting "
               "transfers, so nothing resumes it" % (where, e.line))
        if ok:
            ctx.ob("wait-in-line", short(joined.name) in ("VecDeque::push_back", "Vec::push"),
                   "%s line %s: a waiting sender is queued ahead of those already waiting" % (where, joined.line))


def flow_rule(ctx, target, grant, peer, own, queue, link):
    """applying a flow: the counter becomes grant - (own - peer), bounded; and every waiting sender is resumed"""
    f = ctx.fn("SessionInner::handle_flow")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    calls = QCALLS + ("Condition::notify", "Condition::notify_and_lock_readiness")
    E, ps = runp(ctx, f, Spec(calls, {dot(target)}, ("next",)))
    args = [(f.locals[i], f.names.get(i)) for i in range(1, f.argc + 1)]
    flowp = next((n for ty, n in args if ty["s"].endswith("Flow") and n), None)
    linkp = next((n for ty, n in args if "SenderLink" in ty["s"] and n), None)
    if flowp is None:
        ctx.bad("anchor:flow", "%s: no flow parameter" % where)
        return
    nset = nproper = 0
    for p in ps:
        if p.out != "ret":
            continue
        ws = [e for e in p.events if wr(e, dot(target))]
        has_link = linkp is None or p.state.facts.get(P(linkp)) == ("is", "Some")
        g = None
        for t, x in p.state.facts.items():
            if adt_field(t) == grant and x[0] in ("is", "not"):
                g = x == ("is", "Some") or x == ("not", frozenset({"None"}))
        expect = has_link and g is not False if link else True
        if not expect:
            ctx.ob("flow-only:" + target[1], not ws,
                   "%s: %s changes although the flow is not about the link or grants nothing" % (where, target[1]))
            continue
        if not ws:
            ctx.bad("flow-sets:" + target[1], "%s: a path applies a flow without setting %s" % (where, target[1]))
            continue
        nset += 1
        e = ws[-1]
        v = e.args[1]
        sk = skeleton(v, p)
        if sk.const() is None:
            kinds = {}
            for t, c in sk.m.items():
                b = t
                while b.k == "F" and b.a[1][0] == OPT:
                    b = b.a[0]
                kinds[adt_field(b)] = kinds.get(adt_field(b), 0) + c
            want = {grant: 1, own: -1}
            pk = kinds.pop(peer, None)
            const = kinds.pop(None, 0)
            ok = {k: v for k, v in kinds.items() if v} == want and (pk == 1 or pk is None)
            ctx.ob("flow-value:" + target[1], ok and len(ws) == 1,
                   "%s line %s: a flow sets %s to %s; expected what the peer grants less what it has not seen yet" %
                   (where, e.line, target[1], sk))
            if pk is None:
                # without the peer's count its initial value stands in
                miss = any(adt_field(t) == peer and x in (("is", "None"), ("not", frozenset({"Some"})))
                           for t, x in p.state.facts.items())
                ctx.ob("flow-peer-count:" + target[1], miss,
                       "%s line %s: %s is set without regard to the peer's own count" % (where, e.line, target[1]))
            else:
                nproper += 1
            ctx.ob("flow-bounded:" + target[1], cannot_wrap(v, p),
                   "%s line %s: %s is set to %s, a difference that wraps around to a huge value when the peer reduces "
                   "its grant below what is in flight" % (where, e.line, target[1], show(v)[:160]))
        ctx.ob("resume:" + target[1], queue_emptied(p, queue),
               "%s: a path that sets %s leaves senders waiting in %s" % (where, target[1], dot(queue)))
        sent = sends(p)
        for it in queue_items(p, queue):
            ctx.ob("resume-each:" + target[1], any(within(s[0], it) and s[1].k == "A" and s[1].a[1] == "Ok" for s in sent),
                   "%s: a waiting sender is taken from %s but not resumed" % (where, dot(queue)))
        if link:
            z = p.state.facts.get(v)
            zero = v is C(0) or z == ("eq", 0) or any(
                c.k == "B" and v in c.a and C(0) in c.a and not nonzero(p, v) for c in p.state.facts)
            if not zero:
                ctx.ob("notify:" + target[1], any(
                    e2.kind == "call" and short(e2.name).startswith("Condition::notify") and
                    adt_field(e2.args[0]) == ("SenderLinkInner", "on_credit") for e2 in p.events),
                    "%s: credit arrives without waking those who wait for readiness" % where)
    ctx.floor("flow paths setting %s" % target[1], nset, 2)
    ctx.floor("flow paths using the peer's count for %s" % target[1], nproper, 1)


def ready_rule(ctx):
    f = ctx.fn("SenderLink::ready")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    E, ps = runp(ctx, f, Spec(("Condition::wait",), (), ("await",)))
    n = 0
    for p in ps:
        if p.out != "ret":
            continue
        aw = [e for e in p.events if e.kind == "await"]
        if p.ret is TRUE:
            n += 1
            cr = [t for t, x in p.state.facts.items() if adt_field(t) == CREDIT and nonzero(p, t)]
            top = max((v for t in p.state.facts for v in _vers(t)), default=None)
            ctx.ob("ready-true", bool(cr), "%s: reports readiness on a path without credit" % where)
            if cr and aw:
                ctx.ob("ready-recheck", any(_vers(t) and max(_vers(t)) >= top for t in cr),
                       "%s: reports readiness from a credit value read before the last suspension" % where)
        for e in aw:
            ctx.ob("ready-waits", any(t.k == "X" and short(t.a[0]) == "Condition::wait" and
                                      adt_field(t.a[1][0]) == ("SenderLinkInner", "on_credit") for t in walk(e.args[0])),
                   "%s line %s: waits for something else than new credit" % (where, e.line))
    ctx.floor("readiness answers", n, 1)


def _vers(t):
    return [x.a[2][0] for x in walk(t) if x.k == "F" and isinstance(x.a[2], tuple)]


def transfers_only_here(ctx):
    """no other function builds a transfer frame for sending"""
    n = 0
    for g in aggregates(ctx.F, "Transfer"):
        if g.path.startswith(CR) and not g.derived:
            n += 1
            ctx.ob("transfer-built:" + g.path, g.id in ctx.fns,
                   "%s:%d %s builds a transfer outside the sending path" % (g.file, g.line, g.path))
    ctx.floor("functions building transfers", n, 1)


def f02(ctx):
    for x in (WIN, OUTID, SQ):
        need(ctx, *x)
    f, E, ps = send_paths(ctx, {dot(WIN), dot(OUTID)})
    where = "%s:%d %s" % (f.file, f.line, f.path)
    n = 0
    for p in ps:
        open_ = 0           # units taken and not yet used by a frame
        ids = 0
        aws = 0
        first = True
        for e in p.events:
            if wr(e, dot(WIN)):
                ctx.ob("use-one", minus_one(e.args[1], e.args[2]),
                       "%s line %s: sending changes the session window from %s to %s, not by one" %
                       (where, e.line, show(e.args[2])[:80], show(e.args[1])[:120]))
                ctx.ob("use-checked", nonzero(p, e.args[2]),
                       "%s line %s: a unit of the session window is used although the path does not establish, after the "
                       "last suspension, that it is open" % (where, e.line))
                open_ += 1
            elif wr(e, dot(OUTID)):
                ctx.ob("id-one", plus_one(e.args[1], e.args[2]),
                       "%s line %s: sending changes the outgoing id from %s to %s" %
                       (where, e.line, show(e.args[2])[:80], show(e.args[1])[:120]))
                ids += 1
            elif e.kind == "await":
                ctx.ob("no-suspension", open_ == 0,
                       "%s line %s: suspends between taking a unit of the session window and writing the transfer" %
                       (where, e.line))
            elif is_transfer(e):
                n += 1
                key = "window" if first else "window:continuation"
                ctx.ob(key, open_ >= 1, "%s line %s: a %s is written without taking a unit of the session window" %
                       (where, e.line, "transfer" if first else "further transfer of the same message"), key)
                key = "id" if first else "id:continuation"
                ctx.ob(key, ids >= 1, "%s line %s: a %s is written without taking an outgoing id" %
                       (where, e.line, "transfer" if first else "further transfer of the same message"), key)
                open_, ids, first = max(0, open_ - 1), max(0, ids - 1), False
        if p.out == "ret":
            ctx.ob("window-leak", open_ == 0, "%s: a path takes more of the session window than it writes transfers" % where)
            ctx.ob("id-leak", ids == 0, "%s: a path takes more outgoing ids than it writes transfers" % where)
        waits(ctx, p, where)
    ctx.floor("transfers written", n, 6)
    flow_rule(ctx, WIN, ("FlowInner", "incoming_window"), ("FlowInner", "next_incoming_id"), OUTID, SQ, link=False)
    closed_world(ctx, WIN[0], (WIN[1],), "window")
    closed_world(ctx, OUTID[0], (OUTID[1],), "id")
    n = 0
    for g in aggregates(ctx.F, "SessionInner"):
        E2, ps2 = runp(ctx, g, Spec())
        for p in ps2:
            for t in walk(p.ret) if p.out == "ret" else ():
                if t.k == "A" and t.a[0].endswith("::SessionInner"):
                    n += 1
                    d = dict(t.a[2])
                    ctx.ob("new-window:" + g.path, adt_field(d.get(WIN[1], UNIT)) == ("BeginInner", "incoming_window"),
                           "%s:%d %s: a new session starts with window %s, not the one in the peer's begin" %
                           (g.file, g.line, g.path, show(d.get(WIN[1], UNIT))[:80]))
                    ctx.ob("new-id:" + g.path, d.get(OUTID[1]) is not None and d[OUTID[1]].k == "C",
                           "%s:%d %s: a new session starts with outgoing id %s" %
                           (g.file, g.line, g.path, show(d.get(OUTID[1], UNIT))[:80]))
    ctx.floor("constructors of sessions", n, 1)
    transfers_only_here(ctx)


# ---- F05 ------------------------------------------------------------------------------------------------
def f05(ctx):
    LIM = ("SenderLinkInner", "max_message_size")
    need(ctx, *LIM)
    f, E, ps = send_paths(ctx, {dot(CREDIT), dot(COUNT), dot(WIN), dot(OUTID)}, pin=[LIM])
    where = "%s:%d %s" % (f.file, f.line, f.path)
    n = nref = 0
    for p in ps:
        uses = [e for e in p.events if is_enc(e) or e.kind == "write"]
        v = size_verdict(p, LIM)
        refused = p.out == "ret" and contains(p.ret, lambda t: t.k == "A" and t.a[1] == "BodyTooLarge")
        if uses:
            n += 1
            ctx.ob("checked-before-send", v in ("none", "fits"),
                   "%s: a message is sent on a path that does not establish that its size is within the limit "
                   "announced by the peer (%s)" % (where, v))
        if refused:
            nref += 1
            ctx.ob("refused-rightly", v == "big", "%s: a message is refused as too large although the path does not "
                   "establish that it exceeds the limit (%s)" % (where, v))
            ctx.ob("refused-first", not uses, "%s: a message is refused after frames were written or credit was used" % where)
    ctx.floor("sending paths", n, 4)
    ctx.floor("refusing paths", nref, 1)
    # where the limit comes from
    n = 0
    for name in ("SessionInner::handle_attach", "ConnectionRef::handle_frame"):
        g = ctx.fn(name)
        E2, ps2 = runp(ctx, g, Spec((), (), ("alloc",), lambda E, s, e: True), max_paths=200000,
                       pin=[("AttachInner", "max_message_size")])
        for p in ps2:
            for e in p.events:
                for t in walk(e.args[1]) if len(e.args) > 1 else ():
                    if t.k == "A" and t.a[0].endswith("::SenderLinkInner"):
                        n += 1
                        limit_src(ctx, g, p, dict(t.a[2]).get(LIM[1]))
    ctx.floor("links created from the peer's attach", n, 2)
    recv_limit(ctx)


def size_verdict(p, lim):
    """what the path knows about the message size and the limit"""
    out = "unknown"
    for t, x in p.state.facts.items():
        if adt_field(t) == lim and x in (("is", "None"), ("not", frozenset({"Some"}))):
            return "none"
        if t.k == "B" and t.a[0] in ("Lt", "Le", "Gt", "Ge") and x[0] == "eq":
            op, a, b = t.a
            la, lb = islim(a, lim), islim(b, lim)
            if la == lb:
                continue
            other = b if la else a
            if not contains(other, lambda y: y.k == "X" and y.a[0].split("::")[-1] in ("encoded_size", "len")) or \
                    any(y.k == "B" for y in walk(other)):
                continue
            if lb:      # size OP limit  ->  limit OP' size
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
            # now: limit op size
            t_ = bool(x[1])
            if (op == "Lt") and t_ or (op == "Ge") and not t_:
                out = "big"
            elif (op == "Lt") and not t_ or (op == "Ge") and t_ or op == "Gt" and t_:
                out = "fits"
            elif op == "Le" and not t_:
                out = "fits"
            elif op == "Gt" and not t_ or op == "Le" and t_:
                out = "big-or-equal"
    return out


def islim(t, lim):
    while t.k == "cast" or t.k == "X" and t.a[0].split("::")[-1] in ("from", "into") or t.k == "F" and t.a[1][0] == OPT:
        t = t.a[1] if t.k == "cast" else t.a[1][0] if t.k == "X" else t.a[0]
        if not isinstance(t, Term):
            return False
    return adt_field(t) == lim


def limit_src(ctx, g, p, v):
    where = "%s:%d %s" % (g.file, g.line, g.path)
    src = ("AttachInner", "max_message_size")
    if v is None:
        return
    f = p.state.facts
    above = [bool(x[1]) == (t.a[0] in ("Lt", "Le")) for t, x in f.items() if t.k == "B" and x[0] == "eq" and
             t.a[0] in ("Lt", "Le", "Ge", "Gt") and t.a[1].k == "C" and within_field(t.a[2], src) and isbig(t.a[1].a[0])]
    above += [bool(x[1]) == (t.a[0] in ("Gt", "Ge")) for t, x in f.items() if t.k == "B" and x[0] == "eq" and
              t.a[0] in ("Lt", "Le", "Ge", "Gt") and t.a[2].k == "C" and within_field(t.a[1], src) and isbig(t.a[2].a[0])]
    if v.k == "A" and v.a[1] == "None":
        none = any(adt_field(t) == src and x in (("is", "None"), ("not", frozenset({"Some"}))) for t, x in f.items())
        zero = any(x == ("eq", 0) and t.k != "B" and within_field(t, src) for t, x in f.items())
        ctx.ob("limit-lost", none or zero or any(above),
               "%s: a sender link is created without limit although the peer's attach names one" % where)
        return
    own = contains(v, lambda t: adt_field(t) == src)
    big = v.k == "A" and v.a[2] and is_max(v.a[2][0][1]) and any(above)     # more than any message has
    ctx.ob("limit-from-attach", own or big, "%s: a sender link is created with the limit %s, not the one in the peer's "
           "attach" % (where, show(v)[:120]))
    for t in walk(v):
        if t.k == "cast" and t.a[0] in ("u32", "'u32'", "usize") and within_field(t.a[1], src) and t.a[0] != "usize":
            ctx.ob("limit-truncated", t.a[1].k == "X" and t.a[1].a[0].split("::")[-1] in ("min", "clamp") or False in above,
                   "%s: the peer's limit is truncated to 32 bits" % where)
    base = [t for t in walk(v) if t.k == "F" and t.a[1][0] == OPT and adt_field(t.a[0]) == src]
    ctx.ob("limit-zero", any(nonzero(p, t) for t in base) or not base,
           "%s: a limit of zero, which means no limit, is taken as a limit" % where)


def isbig(n):
    return isinstance(n, int) and n >= 2**32 - 1


def is_max(t):
    return t is C(2**32 - 1) or t is C("MAX") or t.k in ("C", "P", "X") and "MAX" in show(t)


def within_field(t, af):
    return contains(t, lambda x: adt_field(x) == af)


def recv_limit(ctx):
    """the receiving side: no path stores more than the limit"""
    LIM = ("ReceiverLinkInner", "max_message_size")
    need(ctx, *LIM)
    f = ctx.fn("ReceiverLinkInner::handle_transfer")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    calls = ENC + ("Encode::encode", "TransferBody::encode", "BytesMut::copy_from_slice", "VecDeque::push_back",
                   "BytesMut::extend_from_slice", "BytesMut::put_slice", "BufMut::put_slice", "SessionInner::detach_receiver_link")
    E, ps = runp(ctx, f, Spec(calls, {"ReceiverLinkInner.partial_body"}), max_paths=100000, pin=frozenset([LIM, ("ReceiverLinkInner", "partial_body"), ("TransferInner", "body")]))
    n = ndet = 0
    PB, BODY = ("ReceiverLinkInner", "partial_body"), ("TransferInner", "body")
    for p in ps:
        if p.out != "ret":
            continue
        unlimited = limit_zero(p, LIM)
        stores = [e for e in p.events if stores_body(e, BODY, PB)]
        verdicts = [size_cmp(p, t, x, LIM, PB, BODY) for t, x in p.state.facts.items()]
        verdicts = [v for v in verdicts if v]
        fits = {frozenset(v[1]) for v in verdicts if v[0] == "fits"}
        closes = contains_close(p, "MessageSizeExceeded")
        if stores:
            n += 1
            had = p.state.facts
            have_body = present(p, BODY)
            have_part = present(p, PB)
            need_ = set()
            if have_body is not False:
                need_.add("body")
            if have_part is not False:
                need_.add("part")
            ok = unlimited or not need_ or any(need_ <= s for s in fits) or have_body is False
            ctx.ob("received-within-limit", ok,
                   "%s: received payload is stored on a path that does not establish that %s fits the limit" %
                   (where, " plus ".join(sorted(need_))))
            ctx.ob("stored-not-refused", not closes, "%s: excess payload is stored although the link is closed" % where)
        if closes:
            ndet += 1
            ctx.ob("refused-rightly-recv", not unlimited and any(v[0] == "big" for v in verdicts),
                   "%s: the link is closed for a message size that is not above the limit" % where)
    ctx.floor("receiving paths storing payload", n, 3)
    ctx.floor("receiving paths refusing", ndet, 1)
    # the limit announced by a locally opened receiver is the one enforced
    g = ctx.fn("SessionInner::attach_local_receiver_link")
    nann = 0
    E2, ps2 = runp(ctx, g, Spec(ENC, {dot(LIM)}))
    for p in ps2:
        if p.out != "ret" or not any(is_enc(e) and frame(e)[1] == "Attach" for e in p.events):
            continue
        nann += 1
        ws = [e for e in p.events if wr(e, dot(LIM))]
        ctx.ob("announced", any(within_field(e.args[1], ("AttachInner", "max_message_size")) or e.args[1] is C(0) for e in ws) or
               any(within_field(x, ("AttachInner", "max_message_size")) for x in attr_values(p, "max_message_size")),
               "%s:%d %s: the limit announced to the peer is not the one the link enforces" % (g.file, g.line, g.path))
    ctx.floor("attaches of local receivers", nann, 1)


def attr_values(p, name):
    for (root, _), in ():
        yield None
    for root, items in p.state.store.items():
        for path, v in items.items():
            if path and path[-1][2] == name:
                yield v
            for t in walk(v):
                if t.k == "A":
                    for n, x in t.a[2]:
                        if n == name and t.a[0].endswith("ReceiverLinkInner"):
                            yield x


def present(p, af):
    for t, x in p.state.facts.items():
        if adt_field(t) == af:
            if x in (("is", "None"), ("not", frozenset({"Some"}))):
                return False
            if x in (("is", "Some"), ("not", frozenset({"None"}))):
                return True
    return None


def limit_zero(p, lim):
    for t, x in p.state.facts.items():
        if adt_field(t) == lim and x == ("eq", 0):
            return True
    return False


def stores_body(e, body, part):
    if e.kind == "call":
        n = short(e.name).split("::")[-1]
        if n in ("encode", "copy_from_slice", "extend_from_slice", "put_slice"):
            return not is_enc(e)
        return n == "push_back" and isq(e.args[0], ("ReceiverLinkInner", "queue"))
    return e.kind == "write" and e.args[1].k == "A" and e.args[1].a[1] == "Some"


def size_cmp(p, t, x, lim, part, body):
    """('fits'|'big', which sizes) from one path condition"""
    if t.k != "B" or t.a[0] not in ("Lt", "Le", "Gt", "Ge") or x[0] != "eq":
        return None
    op, a, b = t.a
    la, lb = islim(a, lim), islim(b, lim)
    if la == lb:
        return None
    other = b if la else a
    what = set()
    for y in walk(other):
        if y.k == "X" and y.a[0].split("::")[-1] in ("len", "encoded_size"):
            if within_field(y, part):
                what.add("part")
            if within_field(y, body):
                what.add("body")
    if lb:
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
    v = bool(x[1])
    if op == "Lt" and v or op == "Ge" and not v:
        return ("big", what)
    if op in ("Lt",) and not v or op == "Ge" and v or op == "Gt" and v or op == "Le" and not v:
        return ("fits", what)
    return None


def contains_close(p, cond):
    """the path closes the link with the given error"""
    for e in p.events:
        if is_enc(e) and frame(e)[1] == "Detach":
            if contains(e.args[1], lambda t: t.k == "A" and t.a[1] == cond):
                return True
    return False


# ---- F06: one message, whole, in frames the peer accepts --------------------------------------------------
MF = ("ConnectionInner", "max_frame_size")
# frame header, described list header, and every field of a transfer with a tag of 32 bytes at its largest
OVERHEAD = 8 + 3 + 9 + 5 + 5 + 34 + 5 + 1 + 1 + 1 + 13 + 1 + 1 + 1


def truth(t, p):
    """value of a condition under the path condition, or None"""
    f = p.state.facts
    if t.k == "C":
        return bool(t.a[0]) if isinstance(t.a[0], int) else None
    if t.k == "N":
        v = truth(t.a[0], p)
        return None if v is None else not v
    x = f.get(t)
    if x is not None:
        return bool(x[1]) if x[0] == "eq" else True if x[0] == "ne" and 0 in x[1] else None
    if t.k == "B" and t.a[0] in ("Eq", "Ne") and t.a[2].k == "C":
        x = f.get(t.a[1])
        if x is not None and x[0] == "eq":
            return (x[1] == t.a[2].a[0]) == (t.a[0] == "Eq")
        if x is not None and x[0] == "ne" and t.a[2].a[0] in x[1]:
            return t.a[0] == "Ne"
    if t.k == "B" and t.a[0] in ("Gt", "Lt") and C(0) in t.a[1:]:
        o = t.a[1] if t.a[2] is C(0) else t.a[2]
        if (t.a[0] == "Gt") == (t.a[2] is C(0)):
            return truth(mk("B", "Ne", o, C(0)), p)
    return None


def cmp_facts(p):
    """(a, b, strict) for every known a < b or a <= b"""
    for t, x in p.state.facts.items():
        if t.k == "B" and t.a[0] in ("Lt", "Le", "Gt", "Ge") and x[0] == "eq":
            op, a, b = t.a
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            if x[1]:
                yield a, b, op == "Lt"
            else:
                yield b, a, op == "Le"


def uncast(t):
    while t.k == "cast":
        t = t.a[1]
    return t


def is_mf(t):
    return adt_field(uncast(t)) == MF and uncast(t).k == "F"


def limit_ok(L, p):
    """a chunk of L bytes leaves room for the rest of the frame"""
    L = uncast(L)
    for t, x in p.state.facts.items():
        if is_mf(t) and x == ("eq", 0):
            return True         # no limit
    if L.k == "C":
        return isinstance(L.a[0], int) and L.a[0] <= 512 - OVERHEAD
    if L.k == "B" and L.a[0] in ("Div", "Shr") and is_mf(L.a[1]) and L.a[2].k == "C":
        return L.a[2].a[0] >= (2 if L.a[0] == "Div" else 1)
    if L.k == "B" and L.a[0] == "Mul":
        return False
    if L.k == "B" and L.a[0] == "Sub" and is_mf(L.a[1]) and L.a[2].k == "C":
        c = L.a[2].a[0]
        return c >= OVERHEAD and any(uncast(a).k == "C" and is_mf(b) and uncast(a).a[0] >= c for a, b, s in cmp_facts(p))
    if L.k == "X":
        n = L.a[0].split("::")[-1]
        if n == "max" and any(uncast(a).k == "C" and uncast(a).a[0] <= 512 - OVERHEAD for a in L.a[1]):
            o = [a for a in L.a[1] if uncast(a).k != "C"]
            return len(o) == 1 and limit_ok(o[0], p)
        if n == "min":
            return any(limit_ok(a, p) for a in L.a[1])
        if n == "saturating_sub" and is_mf(L.a[1][0]) and L.a[1][1].k == "C":
            return L.a[1][1].a[0] >= OVERHEAD
    if L.k == "F" and L.a[0].k == "X" and L.a[0].a[0].endswith("checked_sub") and is_mf(L.a[0].a[1][0]):
        return L.a[0].a[1][1].k == "C" and L.a[0].a[1][1].a[0] >= OVERHEAD
    return False


def positive(L, p):
    """a chunk of L bytes is not empty: otherwise the loop never ends"""
    L = uncast(L)
    if L.k == "C":
        return bool(L.a[0])
    if L.k == "X" and L.a[0].split("::")[-1] == "max":
        return any(positive(a, p) for a in L.a[1])
    if L.k == "X" and L.a[0].split("::")[-1] == "min":
        return all(positive(a, p) for a in L.a[1])
    if L.k == "B" and L.a[0] == "Sub" and L.a[2].k == "C":
        return any(uncast(a) is L.a[2] and b is L.a[1] and s or uncast(a).k == "C" and b is L.a[1] and uncast(a).a[0] > L.a[2].a[0]
                   for a, b, s in cmp_facts(p))
    if L.k == "X" and L.a[0] == "len":
        return nonzero(p, L)
    return nonzero(p, L)


def cut_of(t):
    """(payload it was cut from, number of bytes) for a chunk"""
    if t.k == "X" and not t.a[0].startswith("mut:") and t.a[0].split("::")[-1] in ("split_to", "copy_to_bytes"):
        return t.a[1][0], t.a[1][1]
    return None


def rest_of(t):
    """(payload, bytes) a remainder was left from"""
    if t.k == "X" and t.a[0].startswith("mut:") and t.a[0].split("::")[-1] in ("split_to", "copy_to_bytes", "advance"):
        return t.a[1][0], t.a[1][1]
    return None


def data_of(t):
    """the bytes of Some(TransferBody::Data(..))"""
    if t is not None and t.k == "A" and t.a[1] == "Some":
        t = t.a[2][0][1]
        if t.k == "A" and t.a[1] == "Data":
            return t.a[2][0][1]
    return None


def caps(n, R, p):
    """limits the chunk length n is known not to exceed, if it does not exceed the payload either"""
    if n.k == "X" and n.a[0].split("::")[-1] == "min":
        lens = [a for a in n.a[1] if is_len(a, R)]
        if lens:
            return [a for a in n.a[1] if a not in lens] + [a for a in n.a[1] if a in lens and len(lens) == 2]
        return []
    out = []
    if is_len(n, R):
        out = [b for a, b, s in cmp_facts(p) if a is n]
    elif any(a is n and is_len(b, R) for a, b, s in cmp_facts(p)):
        out = [n]
    return out


def is_len(a, R):
    return a.k == "X" and a.a[0].split("::")[-1] in ("len", "remaining") and a.a[1] and (a.a[1][0] is R)


def same_payload(R):
    while True:
        r = rest_of(R)
        if r is None:
            return R
        R = r[0]


def f06(ctx):
    need(ctx, *MF)
    need(ctx, *UNS)
    f = ctx.fn("TransferBuilder::send")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    calls = ENC + ("HashMap::insert", "HashMap::entry", "Entry::insert", "Entry::or_insert", "Entry::or_insert_with")
    nf = {"whole": 0, "first": 0, "later": 0}
    for exact in (True, False):
        def tune(E):
            E.exact_loops = exact
            E.loop_visits = 3 if exact else 2
        E, ps = runp(ctx, f, Spec(calls, (), ("await",)), tune=tune, max_paths=200000, pin=[MF])
        for p in ps:
            if p.out != "ret":
                continue
            tr = [k for k, e in enumerate(p.events) if is_transfer(e)]
            if not tr:
                continue
            bodies = [frame(p.events[k])[2] for k in tr]
            loop_part = not exact
            first = True
            for i, b in enumerate(bodies):
                cont = part(b, "delivery_id") is None or part(b, "delivery_id").k == "A" and part(b, "delivery_id").a[1] == "None"
                piece(ctx, where, p, b, nf, i == 0)
                if i and not loop_part:
                    ctx.ob("continuation-same-link", strip(part(b, "handle") or C(0)) is strip(part(bodies[0], "handle") or C(0)),
                           "%s: a later frame of a message goes to another link" % where)
                    did = part(b, "delivery_id")
                    ctx.ob("continuation-id", cont or did is part(bodies[0], "delivery_id"),
                           "%s: a later frame of a message carries another delivery id" % where)
            if loop_part:
                continue
            ctx.ob("contiguous", not any(p.events[k].kind == "await" for k in range(tr[0], tr[-1])),
                   "%s: the sender is suspended between two frames of one message: frames of another message on the link "
                   "can come between" % where)
            chain(ctx, where, p, bodies)
            bookkeeping(ctx, where, p, tr, bodies)
    for k, v in nf.items():
        ctx.floor("frames examined (%s)" % k, v, 4)
    transfers_only_here(ctx)
    frame_limit_source(ctx)


def piece(ctx, where, p, b, nf, first):
    """one frame is no larger than the peer allows"""
    body = part(b, "body")
    d = data_of(body)
    c = cut_of(d) if d is not None else None
    if c is None:
        # not cut: the whole payload, known to fit
        nf["whole"] += 1
        ok = False
        for a, lim, s in cmp_facts(p):
            if a.k == "X" and a.a[0].split("::")[-1] in ("encoded_size", "len") and uncast(lim).k != "X" or \
                    a.k == "X" and a.a[0].split("::")[-1] in ("encoded_size", "len"):
                if limit_ok(lim, p) and not contains(a, lambda t: rest_of(t) is not None) and \
                        contains(a, lambda t: adt_field(t) == ("TransferBuilder", "data")):
                    ok = True
        if any(is_mf(t) and x == ("eq", 0) for t, x in p.state.facts.items()):
            ok = True
        rest = d is not None and rest_of(d) is not None
        if rest:
            # the remainder as the last frame
            ok = any(a.k == "X" and is_len(a, d) and limit_ok(lim, p) for a, lim, s in cmp_facts(p)) or ok
        ctx.ob("fits-frame:whole", ok, "%s: a transfer carries the payload %s although it is not known to fit the peer's "
               "frame size" % (where, show(body)[:80] if body is not None else "(none)"))
        return
    R, n = c
    nf["first" if first else "later"] += 1
    lim = caps(n, R, p)
    ctx.ob("fits-frame:chunk", any(limit_ok(l, p) for l in lim),
           "%s: a transfer carries %s bytes of payload: together with the rest of the frame that can exceed the frame size "
           "announced by the peer, or the length of the payload" % (where, show(n)[:120]))
    ctx.ob("progress", any(positive(l, p) for l in lim) or positive(n, p), "%s: a chunk can be empty, the message is never finished" % where)


def chain(ctx, where, p, bodies):
    """the frames carry the payload in order, nothing lost, nothing repeated, and the last one says so"""
    R = None
    for i, b in enumerate(bodies):
        body = part(b, "body")
        d = data_of(body)
        c = cut_of(d) if d is not None else None
        more = part(b, "more")
        mv = False if more is None else truth(more, p)
        lastf = i == len(bodies) - 1
        if c is None:
            src = body if d is None or rest_of(d) is None else d
            if i == 0:
                ctx.ob("whole-payload", src is not None and contains(src, lambda t: adt_field(t) == ("TransferBuilder", "data")),
                       "%s: the transfer does not carry the message given to the sender" % where)
            else:
                ctx.ob("order", d is R, "%s: the last frame does not carry what is left of the payload" % where)
            R = None
            left = False
        else:
            if i == 0:
                ctx.ob("whole-payload", same_payload(c[0]) is c[0] and contains(c[0], lambda t: adt_field(t) == ("TransferBuilder", "data")),
                       "%s: the first frame does not start with the first byte of the message" % where)
            else:
                ctx.ob("order", R is not None and c[0] is R, "%s: a frame does not continue where the one before it ended" % where)
            R = mk_rest(p, c, bodies, i)
            left = True
            if R is not None:
                e = truth(mk("B", "Eq", mk_len(p, R), C(0)), p)
                left = None if e is None else not e
        if not lastf:
            ctx.ob("more-set", mv is True, "%s: a frame which is not the last of the message does not announce more" % where)
            continue
        impossible = len(bodies) == 1 and c is not None and any(
            uncast(a) is uncast(l) and s and b.k == "X" and b.a[0].split("::")[-1] in ("encoded_size", "len")
            for a, b, s in cmp_facts(p) for l in caps(c[1], c[0], p))
        if impossible:
            continue        # the payload is longer than the chunk: something is left
        ctx.ob("complete", left is False, "%s: the sender stops before the whole payload is sent" % where)
        ctx.ob("more-clear", mv is False, "%s: the last frame of a message announces more" % where)


def mk_rest(p, c, bodies, i):
    """the term for what is left after chunk i, as the path has it"""
    want = c
    for t in list(p.state.facts) + [x for b in bodies[i:] for x in (b,)]:
        for y in walk(t):
            r = rest_of(y)
            if r is not None and r[0] is want[0] and r[1] is want[1]:
                return y
    return None


def mk_len(p, R):
    for t in p.state.facts:
        for y in walk(t):
            if is_len(y, R):
                return y
    return C("unknown")


def bookkeeping(ctx, where, p, tr, bodies):
    """settled means settled; unsettled is remembered before the peer can answer"""
    b = bodies[0]
    did = part(b, "delivery_id")
    ctx.ob("first-id", did is not None and did.k == "A" and did.a[1] == "Some", "%s: the first frame has no delivery id" % where)
    tag = part(b, "delivery_tag")
    ctx.ob("first-tag", tag is not None and tag.k == "A" and tag.a[1] == "Some", "%s: the first frame has no delivery tag" % where)
    if did is None or not did.a[2]:
        return
    did = did.a[2][0][1]
    st = part(b, "settled")
    sent = None
    if st is None or st.k == "A" and st.a[1] == "None":
        sent = False
    elif st.k == "A":
        sent = truth(st.a[2][0][1], p)
    ins = [k for k, e in enumerate(p.events) if e.kind == "call" and not is_enc(e) and isq2(e.args[0], UNS)]
    if sent is True:
        ctx.ob("settled-not-kept", not ins, "%s: a settled transfer is kept as unsettled" % where)
    elif sent is False:
        ok = [k for k in ins if contains(p.events[k].args[1], lambda t: t is did) or strip(p.events[k].args[1]) is strip(did)]
        ctx.ob("unsettled-kept", len(ok) >= 1 and ok[0] < tr[0] and len(ins) == len(ok),
               "%s: an unsettled transfer is written before its delivery id is recorded, or without" % where)
        ctx.ob("unsettled-same-step", not any(p.events[k].kind == "await" for k in range(min(ok[0], tr[0]), tr[-1])) if ok else True,
               "%s: the sender is suspended between recording and writing a transfer" % where)
    else:
        ctx.bad("settled-unknown", "%s: cannot tell whether the transfer is settled: %s" % (where, show(st)[:80]))
    want = [x for t, x in p.state.facts.items() if adt_field(t) == ("TransferBuilder", "settled") and x[0] == "eq"]
    if want and sent is not None:
        ctx.ob("settled-as-asked", bool(want[0][1]) == sent, "%s: the transfer's settled flag is not what the caller asked for" % where)
    r = p.ret
    if r is not None and r.k == "A" and r.a[1] == "Ok":
        rid = part(r.a[2][0][1], "id") if r.a[2] else None
        ctx.ob("returned-id", rid is did, "%s: the delivery handed to the caller has another id than the transfer" % where)
        rt = part(r.a[2][0][1], "tag")
        ctx.ob("returned-tag", tag is not None and tag.a[2] and rt is tag.a[2][0][1],
               "%s: the delivery handed to the caller has another tag than the transfer" % where)


def isq2(t, af):
    return contains(t, lambda x: adt_field(x) == af)


def frame_limit_source(ctx):
    """the limit is the one the peer announced in its open"""
    n = 0
    for adt, fld, src in (("ConnectionInner", "max_frame_size", ("RemoteServiceConfig", "max_frame_size")),
                          ("RemoteServiceConfig", "max_frame_size", ("OpenInner", "max_frame_size"))):
        for g, line in writers(ctx.F, adt, fld):
            ctx.bad("limit-written:%s:%s" % (adt, g.path), "%s:%d %s changes the peer's frame size" % (g.file, line, g.path))
        for g in aggregates(ctx.F, adt):
            if g.derived or g.isasync:
                continue
            E, ps = runp(ctx, g, Spec((), (), ("alloc",), lambda E, s, e: False))
            for p in ps:
                v = None
                for t in walk(p.ret) if p.ret is not None else ():
                    if t.k == "A" and t.a[0].split("::")[-1] == adt:
                        v = dict(t.a[2]).get(fld)
                if v is None:
                    for root, items in p.state.store.items():
                        for path, x in items.items():
                            for t in walk(x):
                                if t.k == "A" and t.a[0].split("::")[-1] == adt:
                                    v = dict(t.a[2]).get(fld)
                if v is None:
                    continue
                n += 1
                ctx.ob("frame-limit:" + adt, adt_field(v) == src, "%s:%d %s: the frame size limit for sending is %s, not the "
                       "one the peer announced" % (g.file, g.line, g.path, show(v)[:80]))
    ctx.floor("places that set the frame size limit", n, 2)
