"""D01, D02: settlement of deliveries and routing of the peer's dispositions."""
from absint import Term
from mainlib import *
from r_snd import need, dot, truth, uncast, within_field, present
from r_rcv import field_truth, frame_kind, values_of, some

FLAGS = ("Delivery", "flags")
SETTLED, STATE, ERROR, TX = [("DeliveryInner", x) for x in ("settled", "state", "error", "tx")]
SNDMAP, RCVMAP = ("SessionInner", "unsettled_snd_deliveries"), ("SessionInner", "unsettled_rcv_deliveries")
DISP = lambda x: ("DispositionInner", x)
REMOVES = ("HashMap::remove", "HashMap::remove_entry", "HashMap::insert", "HashMap::drain", "HashMap::clear", "HashMap::retain")


def masks(t):
    """names of flag constants a term is made of, or None if it has anything else in it"""
    out = set()
    ok = [True]

    def go(x):
        if x.k == "B" and x.a[0] in ("BitOr", "BitAnd", "BitXor"):
            go(x.a[1]), go(x.a[2])
        elif x.k in ("F", "P", "D", "U"):
            n = root_name(x)
            if n is None:
                ok[0] = False
            else:
                out.add(n)
        elif x.k == "A":
            for _, y in x.a[2]:
                go(y)
        else:
            n = root_name(x)
            if n is None:
                ok[0] = False
            else:
                out.add(n)
    go(t)
    return out if ok[0] else None


NAMES = ("SENDER", "LOCAL_SETTLED", "REMOTE_SETTLED")


def root_name(t):
    if contains(t, lambda y: adt_field(y) == FLAGS):
        return None
    s = show(t)
    for n in NAMES:
        if s == n or s.startswith(n + ".") or s.endswith("::" + n) or s.startswith(n + "'"):
            return n
    return None


def flag_facts(p):
    """what the path knows about the flags: name -> bool.  The direction never changes (checked: no function adds or
    removes SENDER), so a path that finds both is impossible."""
    out = {}
    for t, x in p.state.facts.items():
        if t.k != "B" or t.a[0] not in ("Eq", "Ne") or x[0] != "eq":
            continue
        v = bool(x[1]) == (t.a[0] == "Eq")

        def put(n, val):
            if n == "SENDER" and out.get(n, val) != val:
                out["impossible"] = True
            out.setdefault(n, val)
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if b.k == "B" and b.a[0] == "BitAnd":
                for u, m in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                    if not within_field(u, FLAGS):
                        continue
                    ms = masks(m)
                    if not ms:
                        continue
                    if a is m or masks(a) == ms:        # contains(mask)
                        if v:
                            for n in ms:
                                put(n, True)
                        elif len(ms) == 1:
                            put(next(iter(ms)), False)
                    elif a is C(0) or show(a) in ("EMPTY", "0"):
                        if v:
                            for n in ms:
                                put(n, False)
                        elif len(ms) == 1:
                            put(next(iter(ms)), True)
                        elif ms <= {"LOCAL_SETTLED", "REMOTE_SETTLED"}:
                            out["EITHER"] = True
    return out


def added(e):
    """flags a write to Delivery.flags adds; None if it may take flags away"""
    new = e.args[1]
    ors = [t for t in walk(new) if t.k == "B" and t.a[0] == "BitOr" and contains(t, lambda y: adt_field(y) == FLAGS)]
    if not ors or any(t.k == "B" and t.a[0] in ("BitAnd", "BitXor") for t in walk(new)) or contains(new, lambda t: t.k == "N"):
        return None
    out = set()
    for t in ors:
        for a in t.a[1:]:
            ms = masks(a) if not contains(a, lambda y: adt_field(y) == FLAGS) else None
            out |= ms or set()
    return out


def lookups(p):
    """(term, map field, key, present) of every entry looked up"""
    out = []
    for t, x in p.state.facts.items():
        if t.k == "X" and t.a[0].split("::")[-1] in ("get_mut", "get", "remove", "contains_key", "get_key_value") and t.a[1]:
            for af in (SNDMAP, RCVMAP):
                if within_field(t.a[1][0], af):
                    here = x == ("is", "Some") or x[0] == "not" and "None" in x[1] or x[0] == "eq" and bool(x[1]) or x[0] == "ne" and 0 in x[1]
                    gone = x == ("is", "None") or x[0] == "not" and "Some" in x[1] or x == ("eq", 0)
                    out.append((t, af, t.a[1][1], True if here else False if gone else None))
    return out


def dispositions(p):
    return [e for e in p.events if is_enc(e) and frame(e)[1] == "Disposition"]


def variant_of(t):
    return t.a[1] if t is not None and t.k == "A" else None


def own_id(t):
    return adt_field(uncast(t)) == ("Delivery", "id")


def delivery_fns(ctx):
    out = []
    for g in sorted(ctx.F.fns.values(), key=lambda g: g.path):
        if g.path.startswith((CR, "<" + CR)) and g.impl_self and g.impl_self["s"].split("<")[0].endswith("::Delivery") and not g.derived and \
                g.kind != "closure" and "{closure" not in g.path and (g.eff_pub or g.impl_trait):
            out.append(g)
    return out


PIN = [FLAGS, SETTLED, STATE, ERROR, SNDMAP, RCVMAP]


def d01(ctx):
    for x in PIN:
        need(ctx, *x)
    fns = delivery_fns(ctx)
    n = {"sent": 0, "held back": 0, "dropped": 0, "flag writes": 0}
    for g in fns:
        E, ps = runp(ctx, g, Spec(ENC + REMOVES, {dot(FLAGS)}), pin=PIN, max_paths=50000)
        where = "%s:%d %s" % (g.file, g.line, g.path)
        isdrop = bool(g.impl_trait) and g.impl_trait.endswith("Drop")
        for p in ps:
            if p.out != "ret":
                continue
            ds, ff = dispositions(p), flag_facts(p)
            if "impossible" in ff:
                continue
            fw = [e for e in p.events if wr(e, dot(FLAGS))]
            for e in fw:
                n["flag writes"] += 1
                a = added(e)
                ctx.ob("flags-only-set:" + g.path, a is not None, "%s: a settlement flag of a delivery is taken back" % where)
                if a is None:
                    continue
                if "LOCAL_SETTLED" in a:
                    ctx.ob("local-flag:" + g.path, any(part(frame(d)[2], "settled") is C(1) for d in ds), "%s: a delivery counts as settled locally "
                           "although no settlement is sent" % where)
                if "REMOTE_SETTLED" in a:
                    ctx.ob("remote-flag:" + g.path, latest_truth(p, SETTLED) is True, "%s: a delivery counts as settled by the peer although it "
                           "is not" % where)
                ctx.ob("sender-flag:" + g.path, "SENDER" not in a, "%s: a delivery changes its direction" % where)
            mine = entry_settled(p)
            excused = ff.get("LOCAL_SETTLED") is True or ff.get("REMOTE_SETTLED") is True or mine is True or "EITHER" in ff
            lk = lookups(p)
            for t, af, key, here in lk:
                ctx.ob("own-entry:" + g.path, own_id(key), "%s: looks up another delivery than its own" % where)
            if ds:
                n["sent"] += 1
                ctx.ob("once:" + g.path, len(ds) == 1, "%s: more than one disposition is sent for a delivery" % where)
                ctx.ob("not-after-local:" + g.path, ff.get("LOCAL_SETTLED") is False, "%s: a disposition is sent without having excluded that "
                       "the delivery is settled already" % where)
                ctx.ob("not-after-remote:" + g.path, ff.get("REMOTE_SETTLED") is False and (mine is False or any(h is False for _, _, _, h in lk)),
                       "%s: a disposition is sent without having excluded that the peer has settled the delivery" % where)
                for d in ds:
                    b = frame(d)[2]
                    first, last_, st, role, settled = [part(b, x) for x in ("first", "last", "state", "role", "settled")]
                    ctx.ob("names-itself:" + g.path, first is not None and own_id(first) and variant_of(last_) in ("None", None),
                           "%s: a disposition names other deliveries than this one" % where)
                    want = {True: "Sender", False: "Receiver"}.get(ff.get("SENDER"))
                    ctx.ob("role:" + g.path, want is not None and variant_of(role) == want, "%s: a disposition is sent with the wrong role" % where)
                    if settled is C(1) and not isdrop:
                        ctx.ob("then-settled:" + g.path, any("LOCAL_SETTLED" in (added(e) or ()) for e in fw), "%s: a settlement is sent and the delivery is "
                               "not marked, it can be settled again" % where)
                    if g.name in ("settle", "update_state"):
                        ctx.ob("outcome:" + g.path, st is not None and some(st) is not None and some(st).k == "P", "%s: the disposition "
                               "does not carry the state the application gave" % where)
                        ctx.ob("settles:" + g.path, settled is C(int(g.name == "settle")), "%s: the disposition has the wrong settled "
                               "mark" % where)
                    if isdrop:
                        v = some(st) if st is not None else None
                        ctx.ob("drop-rejects", variant_of(v) == "Rejected" and settled is C(1), "%s: a dropped delivery is not rejected" % where)
            elif isdrop:
                n["held back"] += 1
                ctx.ob("dropped-unsettled", excused or any(h is False for _, _, _, h in lk), "%s: an unsettled delivery can be dropped "
                       "without telling the peer" % where)
            elif g.name in ("settle", "update_state"):
                n["held back"] += 1
                ctx.ob("lost:" + g.path, excused, "%s: the outcome is not sent although neither side has settled" % where)
            if isdrop:
                n["dropped"] += 1
                gone = any(h is False for _, _, _, h in lk) or any(e.kind == "call" and short(e.name).split("::")[-1] in ("remove", "remove_entry") and
                                                                     own_id(e.args[1]) for e in p.events)
                ctx.ob("forgotten", gone, "%s: a dropped delivery stays in the table of unsettled deliveries" % where)
                sender = ff.get("SENDER")
                for t, af, key, here in lk:
                    ctx.ob("right-table:" + g.path, sender is not None and (af == SNDMAP) == sender, "%s: a delivery is looked up in the table of the "
                           "other direction" % where)
            else:
                for t, af, key, here in lk:
                    ctx.ob("right-table:" + g.path, ff.get("SENDER") is not None and (af == SNDMAP) == ff["SENDER"], "%s: a delivery is looked "
                           "up in the table of the other direction" % where)
    ctx.floor("paths of a delivery's functions that send a disposition", n["sent"], 3)
    ctx.floor("paths that must not send one", n["held back"], 3)
    ctx.floor("paths of the drop handler", n["dropped"], 2)
    # deliveries are made with the right flags
    made = 0
    for g in aggregates(ctx.F, "Delivery"):
        if g.derived or not g.path.startswith((CR, "<" + CR)):
            continue
        top = g
        while "{closure" in top.path and top.parent in ctx.F.fns:
            top = ctx.F.fns[top.parent]
        E, ps = runp(ctx, top, Spec(("HashMap::insert", "SenderLinkInner::send"), (), ("alloc", "await")), pin=PIN + [("TransferBuilder", "settled")],
                     max_paths=50000, opaque=lambda h: h.path.endswith("SenderLinkInner::send"))
        where = "%s:%d %s" % (top.file, top.line, top.path)
        for p in ps:
            for v in values_of(p, "Delivery"):
                made += 1
                fl = {n for n in NAMES if contains(dict(v.a[2])["flags"], lambda y: root_name(y) == n)}
                ins = [e for e in p.events if e.kind == "call" and short(e.name) == "HashMap::insert" and
                       (isq(e.args[0], RCVMAP) or isq(e.args[0], SNDMAP))]
                if "SENDER" in fl:
                    s = field_truth(p, ("TransferBuilder", "settled"))
                    ctx.ob("made-sent", s is not None and (("LOCAL_SETTLED" in fl) == s), "%s: a sent delivery starts with settled = %s although its "
                           "transfer was %ssettled" % (where, "LOCAL_SETTLED" in fl, "" if s else "not "))
                else:
                    ctx.ob("made-received", bool(ins) != ("LOCAL_SETTLED" in fl), "%s: a received delivery is both settled and registered, or "
                           "neither" % where)
                    for e in ins:
                        ctx.ob("made-registered", isq(e.args[0], RCVMAP) and e.args[1] is dict(v.a[2])["id"], "%s: a received delivery is registered "
                               "under another id, or in the sending table" % where)
                ctx.ob("made-open", "REMOTE_SETTLED" not in fl, "%s: a new delivery counts as settled by the peer" % where)
    ctx.floor("deliveries made", made, 2)
    # a received one follows the transfer's own mark
    from r_rcv import transfer_paths, pushes, TR
    f, where, ps = transfer_paths(ctx)
    k = 0
    for p in ps:
        for e in pushes(p):
            did = [t for t in walk(e.args[1]) if t.k == "A" and t.a[0].endswith("::Delivery")]
            if not did:
                continue
            k += 1
            fl = contains(dict(did[0].a[2])["flags"], lambda y: root_name(y) == "LOCAL_SETTLED")
            s = present(p, TR("settled"))
            v = None
            for t, x in p.state.facts.items():
                if within_field(t, TR("settled")) and x[0] in ("eq", "ne") and t.k in ("F", "V", "D", "X"):
                    v = bool(x[1]) if x[0] == "eq" else True if 0 in x[1] else v
            ctx.ob("as-received", fl == (s is True and v is True), "%s: a delivery is taken as %ssettled and the transfer says otherwise" %
                   (where, "" if fl else "not "))
    ctx.floor("received transfers that make a delivery", k, 2)
    for w, line in writers(ctx.F, *FLAGS):
        ctx.ob("flags-here:" + w.path, w.id in ctx.fns, "%s:%d %s changes the flags of a delivery" % (w.file, line, w.path))


def entry_settled(p):
    """has the peer settled, by the entry of this delivery"""
    return latest_truth(p, SETTLED)


# ---- D02 --------------------------------------------------------------------------------------------------


def d02(ctx):
    for x in PIN + [TX]:
        need(ctx, *x)
    routing(ctx)
    waiting(ctx)


def entry_of(t):
    """(map field, key term, looked up or walked) of the entry an access path starts from"""
    for x in walk(t):
        if x.k == "X" and x.a[0].split("::")[-1] in ("get_mut", "get", "remove") and len(x.a[1]) > 1:
            for af in (SNDMAP, RCVMAP):
                if within_field(x.a[1][0], af):
                    return x, af, "key", x.a[1][1]
        if x.k == "X" and x.a[0].split("::")[-1] == "next":
            for af in (SNDMAP, RCVMAP):
                if within_field(x, af):
                    return x, af, "walk", x
    return None


def disp_field(t, name):
    """is this the field of the disposition (or the value inside, if it is optional)"""
    u = uncast(t)
    return any(adt_field(y) == DISP(name) for y in (u, u.a[0] if u.k == "F" and isinstance(u.a[0], Term) else u))


def in_range(p, key_test):
    """what the path knows about key being within [first, last]: True / False / None"""
    is_off = lambda t: t.k == "X" and t.a[0].split("::")[-1] == "wrapping_sub" and key_test(t.a[1][0]) and disp_field(t.a[1][1], "first")
    for t, x in p.state.facts.items():
        if t.k != "B" or x[0] != "eq" or t.a[0] not in ("Lt", "Le", "Gt", "Ge"):
            continue
        op, a, b = t.a
        if is_len(a) and is_off(b):
            op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op], b, a
        if not (is_off(a) and is_len(b)):
            continue
        v = bool(x[1])
        if op == "Le" and v or op == "Gt" and not v:
            return True
        if op == "Gt" and v or op == "Le" and not v:
            return False
    return None


def is_len(t):
    return t.k == "X" and t.a[0].split("::")[-1] == "wrapping_sub" and disp_field(t.a[1][0], "last") and disp_field(t.a[1][1], "first")


def reversed_range(p):
    """last is before first, so the range is empty: only a difference of at least half the number space says so"""
    for t, x in p.state.facts.items():
        if t.k == "B" and x[0] == "eq" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            op, a, b = t.a
            if is_len(b):
                op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op], b, a
            if is_len(a) and b.k == "C" and isinstance(b.a[0], int):
                v = bool(x[1])
                if not v:
                    op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
                if op == "Gt" and b.a[0] >= 2 ** 31 - 1 or op == "Ge" and b.a[0] >= 2 ** 31:
                    return True
    return False


def routing(ctx):
    f = ctx.fn("SessionInner::handle_frame")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    pin = [DISP(x) for x in ("role", "first", "last", "settled", "state")] + [SETTLED, STATE, TX, SNDMAP, RCVMAP, ("SessionInner", "error")]
    E, ps = runp(ctx, f, Spec(("Sender::send", "Option::take"), {dot(SETTLED), dot(STATE), dot(TX)}, ("next",)), max_paths=100000, pin=pin)
    n = {"one": 0, "range": 0, "nothing to do": 0, "entries": 0}
    for p in ps:
        if p.out != "ret":
            continue
        kind = frame_kind(p)
        touched = [e for e in p.events if e.kind == "write" and entry_of(e.args[0]) is not None and not wr(e, dot(TX))]
        if kind != "Disposition":
            ctx.ob("only-dispositions", not touched, "%s: a %s frame changes the outcome of a delivery" % (where, kind))
            continue
        if present(p, ("SessionInner", "error")) is True:
            ctx.ob("not-after-end", not touched, "%s: a disposition is applied after the session ended" % where)
            continue
        role = None
        for t, x in p.state.facts.items():
            if adt_field(t) == DISP("role"):
                if x[0] == "is":
                    role = x[1]
                elif x[0] == "not" and len(x[1]) == 1:
                    role = {"Receiver": "Sender", "Sender": "Receiver"}[next(iter(x[1]))]
                elif x[0] == "eq":
                    role = None
        lastp = present(p, DISP("last"))
        want = {"Receiver": SNDMAP, "Sender": RCVMAP}.get(role)
        if want is None:
            want = by_eq(p)
        # accesses: by key and by walking
        keyed = [l for l in lookups(p)]
        walks = [e for e in p.events if e.kind == "next" and any(within_field(e.args[0], af) for af in (SNDMAP, RCVMAP))]
        for t, af, key, here in keyed:
            ctx.ob("direction", want == af, "%s: a disposition from a %s reaches the deliveries of the wrong direction" % (where, role))
        for e in walks:
            ctx.ob("direction", want is not None and within_field(e.args[0], want), "%s: a disposition from a %s reaches the deliveries of the wrong "
                   "direction" % (where, role))
        if lastp is None:
            ctx.bad("range-ignored", "%s: a disposition is handled without looking whether it names a range" % where)
            continue
        if lastp is False:
            n["one"] += 1
            hit = [k for k in keyed if disp_field(k[2], "first")]
            ctx.ob("one-delivery", len(hit) == 1 and not [k for k in keyed if k not in hit] and not walks or one_by_walk(p, walks),
                   "%s: a disposition for one delivery does not reach exactly that one" % where)
            for t, af, key, here in hit:
                if here:
                    n["entries"] += 1
                    applied(ctx, where, p, t)
            if not hit or hit[0][3] is False:
                ctx.ob("others-untouched", not touched, "%s: a disposition changes a delivery it does not name" % where)
            continue
        if reversed_range(p):
            n["nothing to do"] += 1
            ctx.ob("others-untouched", not touched, "%s: a disposition changes a delivery it does not name" % where)
            continue
        n["range"] += 1
        ctx.ob("range-walked", bool(walks) and not keyed, "%s: a disposition for a range of deliveries does not look through all unsettled "
               "deliveries (walking the ids of the range misses one that wraps around, and takes as long as the peer likes)" % where)
        ctx.ob("range-complete", bool(walks) and ended(p, walks[-1]), "%s: not all unsettled deliveries are considered for a range" % where)
        # the turns of the walk: between one `next` and the following
        cur, groups = None, []
        for e in p.events:
            if e.kind == "next" and any(within_field(e.args[0], af) for af in (SNDMAP, RCVMAP)):
                cur = []
                groups.append((e, cur))
            elif cur is not None:
                cur.append(e)
        for e, evs in groups[:-1]:
            n["entries"] += 1
            r = in_range(p, lambda t, e=e: contains(t, lambda y: y is e.args[1]))
            changed = [x for x in evs if x.kind in ("write", "call")]
            if r is True:
                applied(ctx, where, p, None, evs)
            else:
                ctx.ob("others-untouched", not [x for x in changed if x.kind == "write"], "%s: a delivery outside of the range of a disposition is "
                       "changed" % where)
                ctx.ob("in-range-reached", r is False, "%s: a delivery is passed over without having been found outside of the range" % where)
    for k, v in n.items():
        ctx.floor("disposition paths: " + k, v, 1)


def by_eq(p):
    for t, x in p.state.facts.items():
        if t.k in ("B", "X") and x[0] == "eq" and contains(t, lambda y: adt_field(y) == DISP("role")):
            neg = t.k == "B" and t.a[0] == "Ne" or t.k == "X" and t.a[0].split("::")[-1] == "ne"
            for v in ("Sender", "Receiver"):
                if contains(t, lambda y: y.k == "A" and y.a[0].endswith("::Role") and y.a[1] == v):
                    same = bool(x[1]) != neg
                    r = v if same else {"Sender": "Receiver", "Receiver": "Sender"}[v]
                    return {"Receiver": SNDMAP, "Sender": RCVMAP}[r]
    return None


def one_by_walk(p, walks):
    return False


def ended(p, e):
    x = p.state.facts.get(e.args[1])
    return x == ("is", "None")


def applied(ctx, where, p, entry, evs=None):
    """the disposition's content is recorded in the entry and whoever waits is woken"""
    evs = [e for e in (evs if evs is not None else p.events)]
    mine = lambda e: entry is None or within(e.args[0], entry)
    ws = [e for e in evs if wr(e, dot(SETTLED)) and mine(e)]
    wt = [e for e in evs if wr(e, dot(STATE)) and mine(e)]
    sett, st = None, present(p, DISP("state"))
    for t, x in p.state.facts.items():
        if adt_field(t) == DISP("settled") and t.k == "F":
            sett = bool(x[1]) if x[0] == "eq" else True if 0 in x[1] else None
    or_in = lambda v: v.k == "B" and v.a[0] == "BitOr" and any(disp_field(a, "settled") for a in v.a[1:]) and any(adt_field(a) == SETTLED for a in v.a[1:])
    if sett is True:
        ctx.ob("settled-recorded", len(ws) >= 1 and (ws[-1].args[1] is C(1) or or_in(ws[-1].args[1]) or disp_field(ws[-1].args[1], "settled")),
               "%s: the peer's settlement of a delivery is not recorded" % where)
    else:
        ctx.ob("settled-kept", all(or_in(e.args[1]) or e.args[1] is e.args[2] for e in ws) and (sett is False or bool(ws)), "%s: a delivery counts as "
               "settled, or no longer so, by a disposition that does not settle it" % where)
    if st is True:
        ctx.ob("state-recorded", len(wt) == 1 and disp_field(some(wt[0].args[1]) or wt[0].args[1], "state"), "%s: the state in a disposition is not "
               "recorded for the delivery" % where)
    else:
        ctx.ob("state-kept", all(e.args[1] is e.args[2] for e in wt) and (st is False or not wt), "%s: a disposition without state erases the "
               "state of the delivery" % where)
    txs = {t: x for t, x in p.state.facts.items() if t.k == "F" and adt_field(t) == TX and (entry is None or within(t, entry))}
    known = any(x == ("is", "None") or x[0] == "not" and "Some" in x[1] for x in txs.values())
    sends = [e for e in evs if e.kind == "call" and short(e.name) == "Sender::send" and within_field(e.args[0], TX)]
    ctx.ob("waiter-woken", bool(sends) or known, "%s: a disposition is recorded and the task waiting for it is not woken" % where)


def waiting(ctx):
    f = ctx.fn("Delivery::wait")
    where = "%s:%d %s" % (f.file, f.line, f.path)
    E, ps = runp(ctx, f, Spec((), {dot(TX), dot(STATE)}, ("await",)), pin=PIN, max_paths=50000)
    n = {"suspended": 0, "answered at once": 0, "answered after": 0}
    for p in ps:
        if p.out != "ret":
            continue
        aw = [e for e in p.events if e.kind == "await"]
        ff = flag_facts(p)
        if "impossible" in ff:
            continue
        if aw:
            n["suspended"] += 1
            i = p.events.index(aw[0])
            reg = [e for e in p.events[:i] if wr(e, dot(TX))]
            chan = lambda t: [y for y in walk(t) if y.k == "X" and y.a[0].split("::")[-1] in ("channel", "new")]
            ctx.ob("waits-for-own", len(aw) == 1 and len(reg) == 1 and bool(chan(reg[0].args[1])) and chan(reg[0].args[1])[:1] == chan(aw[0].args[0])[:1],
                   "%s: suspends on something else than the notification registered for this delivery" % where)
            ok = before(p, STATE) is False and before(p, ERROR) is False and before_truth(p, SETTLED) is False and ff.get("LOCAL_SETTLED") is False
            ctx.ob("no-lost-outcome", ok, "%s: suspends without having found that no outcome, settlement or error has arrived yet" % where)
            for e in reg:
                r = entry_of(e.args[0])
                ctx.ob("registered-for-own", r is not None and r[2] == "key" and own_id(r[3]) and ((r[1] == SNDMAP) == ff.get("SENDER")),
                       "%s: the notification is registered with another delivery" % where)
        else:
            n["answered at once"] += 1
        for e in p.events:
            if wr(e, dot(STATE)):
                modified = any(within_field(t, STATE) and x == ("is", "Modified") for t, x in p.state.facts.items())
                ctx.ob("outcome-kept", modified, "%s: a final outcome is taken out by the first wait, a later one finds none" % where)
        r = p.ret
        if r is None or r.k != "A":
            ctx.bad("answer", "%s: answer of a wait not understood: %s" % (where, show(r)[:80] if r is not None else "none"))
            continue
        v = dict(r.a[2]).get("0")
        st, er, se = latest(p, STATE), latest(p, ERROR), latest_truth(p, SETTLED)
        lk = lookups(p)
        gone = any(h is False for _, _, _, h in lk)
        if aw:
            n["answered after"] += 1
        if r.a[1] == "Err":
            cut_off = any(x == ("is", "Err") or x[0] == "not" and "Ok" in x[1] for t, x in p.state.facts.items() if contains(t, lambda y: y.k == "X" and y.a[0] == "await"))
            ctx.ob("error-reason", er is True and st is not True or gone or cut_off or bool(aw) and er is None and v is not None and variant_of(v) is not None,
                   "%s: a wait fails although the delivery has neither failed nor vanished" % where)
        elif some(v) is not None:
            ctx.ob("outcome-own", within_field(some(v), STATE), "%s: a wait returns %s, not the outcome recorded for the delivery" % (where, show(v)[:60]))
        else:
            ctx.ob("none-means-none", ff.get("LOCAL_SETTLED") is True or st is False and er is False and (bool(aw) or se is True), "%s: a wait answers that there is no "
                   "outcome although one may be recorded or still come" % where)
    for k, v in n.items():
        ctx.floor("paths of a wait: " + k, v, 1)


def epoch(t):
    v = t.a[2] if len(t.a) > 2 else 0
    return v[0] if isinstance(v, tuple) else (v or 0)


def field_terms(p, af):
    return [(t, x) for t, x in p.state.facts.items() if t.k == "F" and adt_field(t) == af]


def opt(x):
    return True if x == ("is", "Some") or x[0] == "not" and "None" in x[1] else False if x == ("is", "None") or x[0] == "not" and "Some" in x[1] else None


def before(p, af):
    l = [opt(x) for t, x in field_terms(p, af) if epoch(t) == 0]
    return l[0] if l else None


def before_truth(p, af):
    l = [(bool(x[1]) if x[0] == "eq" else 0 in x[1]) for t, x in field_terms(p, af) if epoch(t) == 0 and x[0] in ("eq", "ne")]
    return l[0] if l else None


def latest(p, af):
    l = sorted(((epoch(t), opt(x)) for t, x in field_terms(p, af) if x[0] in ("is", "not")), key=lambda y: y[0])
    return l[-1][1] if l else None


def latest_truth(p, af):
    l = sorted(((epoch(t), bool(x[1]) if x[0] == "eq" else 0 in x[1]) for t, x in field_terms(p, af) if x[0] in ("eq", "ne")), key=lambda y: y[0])
    return l[-1][1] if l else None
