"""F03, F04, F07: what a receiver accepts, shows to the application and reports to the peer."""
from mainlib import *
from r_snd import need, dot, truth, cmp_facts, uncast, within_field, present

CREDIT, COUNT = ("ReceiverLinkInner", "credit"), ("ReceiverLinkInner", "delivery_count")
PB, QUEUE = ("ReceiverLinkInner", "partial_body"), ("ReceiverLinkInner", "queue")
CLOSED = ("ReceiverLinkInner", "closed")
TR = lambda x: ("TransferInner", x)
CALLS = ENC + ("VecDeque::push_back", "VecDeque::push_front", "VecDeque::insert", "VecDeque::pop_back", "VecDeque::pop_front",
               "VecDeque::back_mut", "VecDeque::clear", "Encode::encode", "TransferBody::encode", "BytesMut::copy_from_slice",
               "BytesMut::extend_from_slice", "BytesMut::put_slice", "BufMut::put_slice", "LocalWaker::wake")
WRITES = {dot(PB), dot(CREDIT), dot(COUNT), "TransferInner.body"}


def transfer_paths(ctx):
    for x in (CREDIT, COUNT, PB, QUEUE, CLOSED):
        need(ctx, *x)
    f = ctx.fn("ReceiverLinkInner::handle_transfer")
    pin = [PB, CREDIT, QUEUE, CLOSED, ("SessionInner", "links")] + [TR(x) for x in ("more", "aborted", "delivery_id", "body")]
    E, ps = runp(ctx, f, Spec(CALLS, WRITES), max_paths=200000, pin=pin)
    return f, "%s:%d %s" % (f.file, f.line, f.path), ps


def field_truth(p, af):
    for t, x in p.state.facts.items():
        if t.k == "F" and adt_field(t) == af and x[0] == "eq":
            return bool(x[1])
        if t.k == "F" and adt_field(t) == af and x[0] == "ne" and 0 in x[1]:
            return True
    return None


def accepted(p):
    return p.out == "ret" and p.ret is not None and contains(p.ret, lambda t: t.k == "A" and t.a[0].endswith("::Action") and t.a[1] == "Transfer")


def pushes(p):
    return [e for e in p.events if e.kind == "call" and short(e.name).split("::")[-1] in ("push_back", "push_front", "insert") and
            isq(e.args[0], QUEUE)]


def parts(p):
    return [e for e in p.events if wr(e, dot(PB))]


def merges(p):
    """payload appended to what is stored"""
    return [e for e in p.events if e.kind == "call" and short(e.name).split("::")[-1] in ("encode", "extend_from_slice", "put_slice") and
            not is_enc(e) and any(within_field(a, PB) for a in e.args[1:] + e.args[:1]) and any(within_field(a, TR("body")) for a in e.args)]


def closes(p, cond=None):
    """detach frames carrying an error (of the given condition)"""
    out = []
    for e in p.events:
        if is_enc(e) and frame(e)[1] == "Detach":
            err = part(frame(e)[2], "error")
            if err is not None and not (err.k == "A" and err.a[1] == "None"):
                if cond is None or contains(err, lambda t: t.k == "A" and t.a[1] == cond):
                    out.append(e)
    return out


def link_gone(p):
    """the link is known to be closed already, or not to be an established link of the session"""
    if field_truth(p, CLOSED):
        return True
    for t, x in p.state.facts.items():
        if x[0] in ("is", "not") and within_field(t, ("SessionInner", "links")):
            v = x[1] if x[0] == "is" else None
            if v in ("None", "Left", "Closing", "Opening", "OpeningLocal"):
                return True
            if x[0] == "not" and (x[1] & {"Some", "Right", "Established"}):
                return True
    return False


def f03(ctx):
    f, where, ps = transfer_paths(ctx)
    n = {"accepting": 0, "without credit": 0, "refusing without credit": 0}
    for p in ps:
        if p.out != "ret":
            continue
        credit = [t for t in p.state.facts if t.k == "F" and adt_field(t) == CREDIT]
        have = any(nonzero(p, t) for t in credit)
        zero = any(p.state.facts.get(t) == ("eq", 0) for t in credit)
        cw = [e for e in p.events if wr(e, dot(CREDIT))]
        dw = [e for e in p.events if wr(e, dot(COUNT))]
        stores = pushes(p) + [e for e in parts(p) if e.args[1].k == "A" and e.args[1].a[1] == "Some"] + merges(p)
        more, aborted = field_truth(p, TR("more")), field_truth(p, TR("aborted"))
        if stores or accepted(p):
            ctx.ob("credit-before-store", have, "%s: a transfer is stored or delivered on a path that does not establish that the "
                   "receiver has credit left" % where)
        if zero:
            n["without credit"] += 1
            c = closes(p, "TransferLimitExceeded")
            ctx.ob("no-credit-no-change", not cw and not dw, "%s: counters change although the receiver has no credit" % where)
            if not link_gone(p):
                n["refusing without credit"] += 1
                ctx.ob("no-credit-detach", len(c) == 1, "%s: a transfer without credit does not detach the link with a transfer-limit "
                       "error" % where)
        if accepted(p):
            n["accepting"] += 1
            ctx.ob("one-credit", len(cw) == 1 and minus_one(cw[0].args[1], cw[0].args[2]), "%s: a complete message is delivered and "
                   "does not use exactly one credit" % where)
            ctx.ob("one-count", len(dw) == 1 and plus_one(dw[0].args[1], dw[0].args[2]) and not (
                dw[0].args[1].k == "B"), "%s: a complete message is delivered and the delivery count is not advanced by "
                   "one (modulo 2^32)" % where)
        elif more is True and aborted is not True and not closes(p) and not link_gone(p):
            ctx.ob("partial-no-credit", not cw and not dw, "%s: a transfer that is not the last of its message uses credit" % where)
        for e in cw:
            ctx.ob("credit-only-down", minus_one(e.args[1], e.args[2]) and nonzero(p, e.args[2]),
                   "%s: handling a transfer changes the credit to %s" % (where, show(e.args[1])[:80]))
    for k, v in n.items():
        ctx.floor("transfer paths " + k, v, 1)
    # the grant
    g = ctx.fn("ReceiverLink::set_link_credit")
    where = "%s:%d %s" % (g.file, g.line, g.path)
    E, ps = runp(ctx, g, Spec(ENC, {dot(CREDIT)}))
    grant = mk("P", "credit")
    ng = 0
    for p in ps:
        if p.out != "ret":
            continue
        if link_gone(p) and not any(e.kind in ("call", "write") for e in p.events):
            continue        # nothing is granted on a closed link
        fl = [e for e in p.events if is_enc(e) and frame(e)[1] == "Flow"]
        cw = [e for e in p.events if wr(e, dot(CREDIT))]
        ctx.ob("grant-announced", len(fl) == 1, "%s: granting credit does not send exactly one flow frame" % where)
        if len(fl) != 1:
            continue
        ng += 1
        b = frame(fl[0])[2]
        lc = some(part(b, "link_credit"))
        dc = some(part(b, "delivery_count"))
        h = some(part(b, "handle"))
        ctx.ob("grant-count", dc is not None and adt_field(uncast(dc)) == COUNT, "%s: the grant is not announced with the link's "
               "delivery count" % where)
        ctx.ob("grant-handle", h is not None and adt_field(uncast(h)) == ("ReceiverLinkInner", "handle"), "%s: the grant is not "
               "announced for the link's own handle" % where)
        ctx.ob("grant-value", lc is not None, "%s: the flow frame carries no credit" % where)
        if lc is None:
            continue
        new = cw[-1].args[1] if cw else None
        if new is None:
            ok = any(adt_field(b_) == CREDIT and a is lc for a, b_, s in cmp_facts(p)) or any(
                t.k == "B" and t.a[0] == "Eq" and x == ("eq", 1) and lc in t.a for t, x in p.state.facts.items())
        else:
            ok = new is lc or strip(new) is strip(lc) or new.k == "X" and new.a[0].split("::")[-1] == "max" and \
                all(a is lc or a is cw[-1].args[2] for a in new.a[1])
            # max spelt out
        ctx.ob("grant-enforced", ok and len(cw) <= 1, "%s: the credit enforced (%s) can exceed the credit announced to the peer (%s)" %
               (where, show(new)[:60] if new is not None else "unchanged", show(lc)[:60]))
    ctx.floor("granting paths", ng, 1)
    for fld in (CREDIT, COUNT):
        for w, line in writers(ctx.F, *fld):
            ok = w.id in ctx.fns or fld == COUNT and attach_only(ctx, w)
            ctx.ob("only:%s:%s" % (fld[1], w.path), ok, "%s:%d %s changes the receiver's %s outside of handling a transfer or "
                   "granting credit" % (w.file, line, w.path, fld[1]))
    # start values
    n = 0
    for g in aggregates(ctx.F, "ReceiverLinkInner"):
        E, ps = runp(ctx, g, Spec((), (), ("alloc",), lambda E, s, e: False))
        for p in ps:
            for t in values_of(p, "ReceiverLinkInner"):
                d = dict(t.a[2])
                n += 1
                ctx.ob("start-credit", d.get("credit") is C(0), "%s:%d %s: a receiver link starts with credit %s that was never "
                       "announced" % (g.file, g.line, g.path, show(d.get("credit"))[:60]))
    ctx.floor("constructors of receiver links", n, 1)
    # a link opened by us counts from where the peer starts
    g = ctx.fn("SessionInner::handle_attach")
    E, ps = runp(ctx, g, Spec(("Sender::send",), {dot(COUNT)}), max_paths=100000)
    n = 0
    for p in ps:
        for k, e in enumerate(p.events):
            if e.kind == "call" and contains(e.args[1], lambda t: t.k == "A" and t.a[0].endswith("::ReceiverLink")):
                n += 1
                ctx.ob("start-count", any(wr(x, dot(COUNT)) and (within_field(x.args[1], ("AttachInner", "initial_delivery_count")) or
                                                                 x.args[1] is C(0)) for x in p.events[:k]),
                       "%s:%d %s: a receiver link opened locally is handed out without the delivery count of the peer's attach" %
                       (g.file, g.line, g.path))
    ctx.floor("local receiver links completed", n, 1)


def attach_only(ctx, w):
    """the function takes the count from an attach frame on every path"""
    E, ps = runp(ctx, w, Spec((), {dot(COUNT)}))
    ok = True
    for p in ps:
        for e in p.events:
            if not (within_field(e.args[1], ("AttachInner", "initial_delivery_count")) or e.args[1] is C(0)):
                ok = False
    return ok


def some(t):
    if t is not None and t.k == "A" and t.a[1] == "Some":
        return t.a[2][0][1]
    return None


def values_of(p, adt):
    seen = []
    for root in [p.ret] + [x for d in p.state.store.values() for x in d.values()]:
        if root is None:
            continue
        for t in walk(root):
            if t.k == "A" and t.a[0].split("::")[-1] == adt and t not in seen:
                seen.append(t)
    return seen


# ---- F04 -------------------------------------------------------------------------------------------------
def f04(ctx):
    f, where, ps = transfer_paths(ctx)
    n = {"complete in one frame": 0, "first frame": 0, "later frame": 0, "last frame": 0, "aborted": 0, "refused": 0}
    for p in ps:
        if p.out != "ret":
            continue
        has = present(p, PB)
        more, aborted = field_truth(p, TR("more")), field_truth(p, TR("aborted"))
        hasid = present(p, TR("delivery_id"))
        body = present(p, TR("body"))
        pu, pw, mg, acc = pushes(p), parts(p), merges(p), accepted(p)
        pops = [e for e in p.events if e.kind == "call" and short(e.name).split("::")[-1] in ("pop_back", "pop_front", "clear") and isq(e.args[0], QUEUE)]
        wakes = [e for e in p.events if e.kind == "call" and short(e.name) == "LocalWaker::wake"]
        refused = bool(closes(p)) or not acc and not pu and not pw and not mg and not pops
        if refused:
            n["refused"] += 1
            if has and broken(p):
                continue        # payload without entry: cannot happen, they are made and dropped together
            empty = has and more is True and body is False
            ctx.ob("no-silent-loss", bool(closes(p)) or link_gone(p) or aborted is True or empty, "%s: a transfer is neither stored nor delivered, "
                   "and the link is not detached" % where)
            ctx.ob("refused-invisible", not acc and not pu and not mg, "%s: a transfer that detaches the link is also stored or "
                   "delivered" % where)
            continue
        if aborted is True:
            n["aborted"] += 1
            gone = not has or any(e.args[1].k == "A" and e.args[1].a[1] == "None" for e in pw) and \
                any(short(e.name) == "VecDeque::pop_back" for e in pops)
            ctx.ob("aborted-dropped", gone and not acc and not pu, "%s: the frames of an aborted delivery stay visible" % where)
            continue
        if has is True:
            # a delivery is under way
            if hasid is True:
                ctx.ob("same-id", any(ids_equal(t, x) for t, x in p.state.facts.items()), "%s: a frame with a delivery id continues a "
                       "delivery without the ids being found equal" % where)
            ctx.ob("no-new-entry", not pu, "%s: a continuation frame makes a new entry in the queue" % where)
            if body is True:
                ctx.ob("payload-appended", len(mg) == 1 and appended_whole(mg[0]), "%s: the payload of a continuation frame is not appended, "
                       "once and completely" % where)
            else:
                ctx.ob("payload-appended", not mg or body is None, "%s: payload is appended although the frame has none" % where)
            if more is True:
                n["later frame"] += 1
                ctx.ob("still-hidden", not acc and not any(e.args[1].k == "A" and e.args[1].a[1] == "None" for e in pw),
                       "%s: a message is shown to the application before its last frame" % where)
            elif acc:
                n["last frame"] += 1
                ctx.ob("shown", len(pw) >= 1 and pw[-1].args[1].k == "A" and pw[-1].args[1].a[1] == "None", "%s: the stored payload stays behind "
                       "after the last frame: the message is not visible and the next one is taken as its continuation" % where)
                bw = [e for e in p.events if wr(e, "TransferInner.body") and e.args[1].k == "A" and e.args[1].a[1] == "Some"]
                ok = len(bw) == 1 and any(contains(e.args[0], lambda t: t.k == "X" and short(t.a[0]) in ("VecDeque::back_mut", "VecDeque::back") or
                                                   adt_field(t) == QUEUE) for e in bw)
                ctx.ob("shown-whole", ok and within_field(bw[0].args[1], PB), "%s: the message delivered does not carry the payload "
                       "collected from its frames" % where)
                if body is True and mg and ok:
                    ctx.ob("shown-last-part", contains(bw[0].args[1], lambda t: within_field(t, TR("body"))), "%s: the message delivered lacks the "
                           "payload of its last frame" % where)
                wake_ok(ctx, where, p, wakes)
            else:
                n["last frame"] += 1
                ctx.bad("last-not-shown", "%s: a message is complete and is not delivered" % where) if more is False and not broken(p) else None
        elif has is False:
            if pu or acc or pw:
                ctx.ob("id-required", hasid is True or any(x == ("is", "Some") and within_field(t, TR("delivery_id")) for t, x in p.state.facts.items()),
                       "%s: a first frame without delivery id is stored" % where)
                ctx.ob("one-entry", len(pu) == 1 and short(pu[0].name) == "VecDeque::push_back", "%s: a new message does not make exactly one entry at the "
                       "end of the queue" % where)
                if len(pu) == 1:
                    item = pu[0].args[1]
                    did = [t for t in walk(item) if t.k == "A" and t.a[0].endswith("::Delivery")]
                    ctx.ob("entry-id", bool(did) and within_field(dict(did[0].a[2]).get("id", C(0)), TR("delivery_id")), "%s: the delivery handed to the "
                           "application has another id than the transfer" % where)
            if more is True:
                n["first frame"] += 1
                ctx.ob("first-hidden", not acc and len(pw) == 1 and pw[0].args[1].k == "A" and pw[0].args[1].a[1] == "Some",
                       "%s: the first frame of a longer message is shown to the application, or its payload is not kept" % where)
                if body is True and pw:
                    ctx.ob("first-payload", within_field(pw[0].args[1], TR("body")), "%s: the payload of the first frame is not kept" % where)
            else:
                n["complete in one frame"] += 1
                ctx.ob("shown-at-once", acc and not pw, "%s: a message in one frame is not delivered at once" % where)
                bw = [e for e in p.events if wr(e, "TransferInner.body")]
                ctx.ob("whole", not bw, "%s: the payload of a message in one frame is changed" % where)
                wake_ok(ctx, where, p, wakes)
        else:
            ctx.bad("partial-unknown", "%s: a transfer is stored without looking whether a delivery is under way" % where)
    for k, v in n.items():
        ctx.floor("transfer paths: " + k, v, 1)
    readers(ctx)


def broken(p):
    """queue found empty although a delivery is under way"""
    return any(within_field(t, QUEUE) and (x == ("eq", 0) and t.k == "X" or x == ("is", "None")) for t, x in p.state.facts.items())


def appended_whole(e):
    return any(t.k == "F" and adt_field(t.a[0]) == TR("body") or t.k == "F" and adt_field(t) == TR("body")
               for a in e.args for t in walk(a)) and not any(t.k == "X" and t.a[0].split("::")[-1] in ("split_to", "slice", "split_off", "advance")
                                                             for a in e.args for t in walk(a))


def ids_equal(t, x):
    if x[0] not in ("eq", "is", "not", "ne"):
        return False
    inq = lambda y: within_field(y, QUEUE) or within_field(y, ("Delivery", "id"))
    inid = lambda y: within_field(y, TR("delivery_id"))
    if t.k == "B" and t.a[0] in ("Eq", "Ne") and x[0] == "eq" and (bool(x[1]) == (t.a[0] == "Eq")):
        return (inq(t.a[1]) and inid(t.a[2])) or (inq(t.a[2]) and inid(t.a[1]))
    if t.k == "X" and t.a[0].split("::")[-1] in ("eq", "ne") and x[0] == "eq" and bool(x[1]) == (t.a[0].split("::")[-1] == "eq"):
        return any(inq(a) for a in t.a[1]) and any(inid(a) for a in t.a[1])
    if t.k == "X" and t.a[0].split("::")[-1] in ("is_none_or", "is_some_and"):
        return any(inq(a) for a in t.a[1])
    return False


def wake_ok(ctx, where, p, wakes):
    """somebody waiting for the message hears of it"""
    pushed = bool(pushes(p))
    more_than_one = beyond_one(p, pushed)
    ctx.ob("reader-woken", bool(wakes) or more_than_one, "%s: a message becomes visible and the reader is not woken" % where)


def readers(ctx):
    """no receiving call shows the entry whose frames are still arriving"""
    n = 0
    pops = ("VecDeque::pop_front", "VecDeque::pop_back", "VecDeque::drain", "VecDeque::remove", "VecDeque::iter", "VecDeque::front",
            "VecDeque::front_mut", "VecDeque::back", "VecDeque::get", "mem::take", "mem::replace")
    fns = set()
    for g in ctx.F.fns.values():
        if g.path.startswith(CR) and g.eff_pub and g.impl_self and "ReceiverLink" in g.impl_self["s"] and not g.derived:
            fns.add(g)
    class P:
        pass
    for g in sorted(fns, key=lambda g: g.path):
        seen = []

        def pred(E, st, e):
            if e.kind == "call" and short(e.name) in pops and isq(e.args[0], QUEUE):
                p = P()
                p.state = st
                seen.append(now_absent(st) or beyond_one(p))
                return True
            return False
        E, ps = runp(ctx, g, Spec(pops, (), (), pred), pin=[PB, QUEUE])
        for ok in seen:
            n += 1
            ctx.ob("hidden:%s" % g.path, ok, "%s:%d %s: the entry of a message whose frames are still arriving can be shown to the "
                   "application" % (g.file, g.line, g.path))
        if g.name == "has_deliveries":
            for p in ps:
                if p.ret is not None and truth(p.ret, p) is not False:
                    n += 1
                    ctx.ob("hidden:%s" % g.path, now_absent(p.state) or beyond_one(p) or tail_hidden(p.ret, p), "%s:%d %s: a message whose frames are "
                           "still arriving is announced to the application" % (g.file, g.line, g.path))
    ctx.floor("paths of receiving calls that take a message", n, 3)
    for w, line in writers(ctx.F, *QUEUE):
        ctx.ob("queue-only:" + w.path, w.id in ctx.fns or only_clears(ctx, w), "%s:%d %s changes the queue of received messages outside of "
               "the functions examined" % (w.file, line, w.path))


def now_absent(st):
    """nothing is under way, by the latest look"""
    best = None
    for t, x in st.facts.items():
        if adt_field(t) == PB and t.k == "F" and x[0] in ("is", "not"):
            if best is None or vkey(t) > vkey(best[0]):
                best = (t, x)
    return best is not None and (best[1] == ("is", "None") or best[1][0] == "not" and "Some" in best[1][1])


def vkey(t):
    v = t.a[2]
    return tuple(v) if isinstance(v, tuple) else (v, 0)


def only_clears(ctx, w):
    E, ps = runp(ctx, w, Spec(QCALLS, {dot(QUEUE)}))
    return all(short(e.name) == "VecDeque::clear" for p in ps for e in p.events if e.kind == "call" and isq(e.args[0], QUEUE)) and \
        not any(e.kind == "write" for p in ps for e in p.events)


def qlen(t):
    return t.k == "X" and t.a[0] == "len" and within_field(t, QUEUE)


def beyond_one(p, pushed=False):
    """the queue is known to have an entry besides the newest one; pushed: an entry has been added on the way, so a
    length taken before that counts one less"""
    for t, x in p.state.facts.items():
        late = contains(t, lambda y: y.k == "X" and y.a[0].split("::")[-1].startswith("push"))
        lo = 1 if pushed and not late else 2
        if t.k == "X" and qlen(t) and x[0] == "ne" and set(range(lo)) <= set(x[1]):
            return True
        if t.k == "B" and x[0] == "eq":
            op, a, b = t.a
            v = bool(x[1])
            if op in ("Eq", "Ne") and qlen(a) and b is C(lo - 1) and v == (op == "Ne"):
                return True     # popping succeeds: not empty, not one
            if qlen(b) and not qlen(a):
                op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a
            if not qlen(a) or op not in ("Lt", "Le", "Gt", "Ge"):
                continue
            if not v:
                op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
            k = const_of(b, p)
            if k is not None and (op == "Ge" and k >= lo or op == "Gt" and k >= lo - 1):
                return True
    return False


def const_of(t, p):
    """value of a number that is made from a truth value known on the path"""
    if t.k == "C" and isinstance(t.a[0], int):
        return int(t.a[0])
    u = uncast(t)
    while u.k == "X" and u.a[0].split("::")[-1] == "from" and len(u.a[1]) == 1:
        u = uncast(u.a[1][0])
    if u is not t:
        return const_of(u, p)
    v = truth(u, p)
    if v is None and u.k == "is" and adt_field(u.a[0]) == PB:
        return int(u.a[1] == "Some")        # asked for the case that a delivery is under way
    return None if v is None else int(v)


def tail_hidden(ret, p):
    """the answer itself is 'more than one entry'"""
    if ret.k == "B":
        op, a, b = ret.a
        if qlen(b):
            op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a
        k = const_of(b, p) if qlen(a) else None
        return k is not None and (op == "Gt" and k >= 1 or op == "Ge" and k >= 2)
    return False


# ---- F07: the session state reported in flow frames -------------------------------------------------------
NIN, NOUT = ("SessionInner", "next_incoming_id"), ("SessionInner", "next_outgoing_id")


def f07(ctx):
    for x in (NIN, NOUT):
        need(ctx, *x)
    # every flow frame built
    builders = [g for g in aggregates(ctx.F, "FlowInner") if g.path.startswith(CR) and not g.derived]
    n = 0
    for g in builders:
        E, ps = runp(ctx, g, Spec(ENC, {dot(NIN), dot(NOUT)}, ()))
        where = "%s:%d %s" % (g.file, g.line, g.path)
        for p in ps:
            now = {}
            for e in p.events:
                if e.kind == "write":
                    now[e.name.split("::")[-1]] = e.args[1]
                if not is_enc(e) or frame(e)[1] != "Flow":
                    continue
                n += 1
                b = frame(e)[2]
                same = lambda t, af: now[dot(af)] is t if dot(af) in now else adt_field(uncast(t)) == af and uncast(t).k == "F"
                nin, nout = part(b, "next_incoming_id"), part(b, "next_outgoing_id")
                ctx.ob("next-out", nout is not None and same(nout, NOUT), "%s: a flow frame reports %s as next "
                       "outgoing id" % (where, show(nout)[:60] if nout is not None else "nothing"))
                v = some(nin)
                ctx.ob("next-in", nin is None or nin.k == "A" and nin.a[1] == "None" or v is not None and same(v, NIN),
                       "%s: a flow frame reports %s as next incoming id" % (where, show(nin)[:60] if nin is not None else "nothing"))
    ctx.floor("flow frames sent", n, 2)
    # every transfer received is counted, once, and nothing else is
    f = ctx.fn("SessionInner::handle_frame")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    E, ps = runp(ctx, f, Spec(("ReceiverLinkInner::handle_transfer",), {dot(NIN)}, (), None), max_paths=100000,
                 pin=[("SessionInner", "error")], opaque=lambda g: g.path.endswith("ReceiverLinkInner::handle_transfer"))
    nt = no = 0
    for p in ps:
        if p.out != "ret":
            continue
        kind = frame_kind(p)
        w = [e for e in p.events if wr(e, dot(NIN))]
        if kind == "Transfer":
            if present(p, ("SessionInner", "error")) is True:
                continue
            nt += 1
            deliv = any(e.kind == "call" and e.name.endswith("handle_transfer") for e in p.events)
            failed = p.ret is not None and p.ret.k == "A" and p.ret.a[1] == "Err"
            if failed and not deliv:
                continue        # ends the session or the connection
            ctx.ob("counted", len(w) == 1 and plus_one(w[0].args[1], w[0].args[2]) and w[0].args[1].k == "X", "%s: a transfer is received and the "
                   "next incoming id is not advanced by one" % where)
        elif kind == "Flow":
            for e in w:
                ctx.ob("from-flow", adt_field(e.args[1]) == ("FlowInner", "next_outgoing_id"), "%s: a flow sets the next incoming id to %s" %
                       (where, show(e.args[1])[:60]))
        elif kind is not None:
            no += 1
            ctx.ob("not-counted", not w, "%s: a %s frame changes the next incoming id" % (where, kind))
    ctx.floor("transfers followed", nt, 1)
    ctx.floor("other frames followed", no, 1)
    n = 0
    for g in aggregates(ctx.F, "SessionInner"):
        E, ps = runp(ctx, g, Spec((), (), ("alloc",), lambda E, s, e: False))
        for p in ps:
            for t in values_of(p, "SessionInner"):
                n += 1
                v = dict(t.a[2]).get(NIN[1])
                ctx.ob("start", v is not None and adt_field(v) == ("BeginInner", "next_outgoing_id"), "%s:%d %s: a session starts counting at %s, not at "
                       "the id in the peer's begin" % (g.file, g.line, g.path, show(v)[:60]))
    ctx.floor("constructors of sessions", n, 1)
    for w, line in writers(ctx.F, *NIN):
        ctx.ob("only:%s" % w.path, w.id in ctx.fns, "%s:%d %s changes the next incoming id" % (w.file, line, w.path))


def frame_kind(p):
    for t, x in p.state.facts.items():
        if x[0] == "is" and x[1] in FRAMES and not within_field(t, ("SessionInner", "links")):
            return x[1]
    return None
