"""Number spaces: which integers are channels and handles of ours, and which are the peer's.

A flow-insensitive, interprocedural dataflow over the MIR of the main crate.  Nodes are locals (composites from outside the
crate are one node each) and fields of the crate's own types.  Declared fields, table keys and values, and incoming frame
fields are sources; declared fields, table keys and values, and fields of frames that are built are sinks.  A declared field
never passes on what is stored in it: what is read from it belongs to the declared space.
"""
import collections

OURS_H, PEER_H, OURS_C, PEER_C = "our handle", "the peer's handle", "our channel", "the peer's channel"

# (type, field): the space of what it keeps
FIELDS = {
    ("SenderLinkInner", "id"): OURS_H, ("SenderLinkInner", "remote_handle"): PEER_H,
    ("ReceiverLinkInner", "handle"): OURS_H, ("ReceiverLinkInner", "remote_handle"): PEER_H,
    ("PendingTransfer", "link_handle"): OURS_H, ("DeliveryInner", "handle"): OURS_H,
    ("SessionInner", "id"): OURS_C, ("SessionInner", "remote_channel_id"): PEER_C,
}
# (type, field): (read from a frame that arrived, written to a frame that is sent)
WIRE = {
    ("AttachInner", "handle"): (PEER_H, OURS_H), ("DetachInner", "handle"): (PEER_H, OURS_H), ("Flow", "handle"): (PEER_H, OURS_H), ("FlowInner", "handle"): (PEER_H, OURS_H),
    ("Transfer", "handle"): (PEER_H, OURS_H), ("TransferInner", "handle"): (PEER_H, OURS_H),
    ("BeginInner", "remote_channel"): (OURS_C, PEER_C), ("AmqpFrame", "channel_id"): (PEER_C, OURS_C),
}
# method of the crate -> space of its result
RESULTS = {
    "Session::local_channel_id": OURS_C, "Session::remote_channel_id": PEER_C, "SenderLink::id": OURS_H, "SenderLink::remote_handle": PEER_H,
    "ReceiverLink::handle": OURS_H, "ReceiverLink::remote_handle": PEER_H, "SessionInner::id": OURS_C, "SenderLinkInner::id": OURS_H,
}
MAPS = {"u32": (PEER_H, OURS_H), "u16": (PEER_C, OURS_C), "ntex_bytes::string::ByteString": (None, OURS_H)}
CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}
# the result comes from the closure alone
MAPPED = {"map", "and_then", "then", "map_or", "map_or_else", "filter_map", "flat_map", "find_map", "fold", "any", "all", "for_each", "is_some_and", "is_none_or", "position"}
INTS = ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize")


def tail(s):
    return s.split("<")[0].split("::")[-1]


class Flow:
    def __init__(self, F, crate="ntex_amqp"):
        self.F = F
        self.edges = collections.defaultdict(list)      # node -> [(node, place of the flow)]
        self.taint = {}                                 # (node, space) -> (pred node or None, why)
        self.sinks = []                                 # (node, space, what, fn, line)
        self.compared = []                              # (node, node, fn, line)
        self.alias = collections.defaultdict(set)       # node -> wire fields it is a mutable reference to
        self.stores = []                                # (node written through, node stored, fn, line)
        self.nsrc = collections.Counter()
        self.fns = [f for f in F.fns.values() if f.crate == crate or f.path.startswith(crate + "::") or f.path.startswith("<" + crate + "::") or
                    f.path.startswith(crate + "_codec::") or f.path.startswith("<" + crate + "_codec::")]
        self.fns = [f for f in self.fns if not f.derived and not (f.impl_trait or "").endswith("clone::Clone")]
        self.byid = {f.id: f for f in self.fns}
        self.rets = {}
        for f in self.fns:
            self.scan(f)
        self.run()

    # ---- nodes -----------------------------------------------------------------------------------------
    def declared(self, adt, name):
        k = (tail(adt), name)
        return k if k in FIELDS or k in WIRE else None

    def place(self, f, pl):
        """(node, declared field or None)"""
        last = None
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == "f":
                adt = e[1]
                if adt.startswith("clo:"):
                    last = ("F", adt, "", e[3])
                elif adt.startswith("ntex_amqp"):
                    last = ("F", adt, e[2], e[3])
        if last is None:
            return ("L", f.id, pl[0]), None
        return last, self.declared(last[1], last[3])

    def operand(self, f, o):
        """node that is read, None for constants"""
        pl = o.get("c") or o.get("m")
        if pl is None:
            return None
        n, d = self.place(f, pl)
        if d is None:
            return n
        r = ("R",) + d
        self.source(r, FIELDS[d] if d in FIELDS else WIRE[d][0], "%s.%s" % d)
        return r

    def source(self, n, sp, why):
        if (n, sp) not in self.taint:
            self.taint[n, sp] = (None, why)
            self.nsrc[sp] += 1

    def edge(self, a, b, at):
        if a is not None and b is not None and a != b:
            self.edges[a].append((b, at))

    def sink(self, n, sp, what, f, line):
        if n is not None:
            self.sinks.append((n, sp, what, f, line))

    def store(self, f, pl, n, line):
        """the value of node n is written to a place"""
        m, d = self.place(f, pl)
        if d is not None:
            self.sink(n, FIELDS[d] if d in FIELDS else WIRE[d][1], "%s.%s" % d, f, line)
            return
        self.edge(n, m, (f, line))
        if len(pl) == 2 and pl[1] == "*":
            self.stores.append((m, n, f, line))

    # ---- bodies ----------------------------------------------------------------------------------------
    def scan(self, f):
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    self.assign(f, s[1], s[2], s[3] if len(s) > 3 else f.line)
            t = b["t"]
            if t and t[0] == "call":
                self.call(f, t)
        nm = self.name(f)
        if nm in RESULTS and f.path.startswith("ntex_amqp::"):
            self.sink(("L", f.id, 0), RESULTS[nm], "result of " + nm, f, f.line)
        if f.argc >= 2 and f.path.startswith("ntex_amqp::"):
            for suffix, sp in (("_by_local_handle", OURS_H), ("_by_remote_handle", PEER_H)):
                if (f.name or "").endswith(suffix):
                    self.source(("L", f.id, 2), sp, "argument of " + nm)

    def name(self, f):
        p = f.path.split("::")
        return "::".join(tail(x) if "<" in x else x for x in p[-2:])

    def assign(self, f, pl, rv, line):
        k = rv[0]
        if k == "use":
            self.store(f, pl, self.operand(f, rv[1]), line)
        elif k == "cast":
            self.store(f, pl, self.operand(f, rv[2]), line)
        elif k == "ref":
            n, d = self.place(f, rv[1])
            m, _ = self.place(f, pl)
            if d is not None:
                if rv[2]:
                    self.alias[m].add(d)
                r = ("R",) + d
                self.source(r, FIELDS[d] if d in FIELDS else WIRE[d][0], "%s.%s" % d)
                self.edge(r, m, (f, line))
            else:
                self.edge(n, m, (f, line))
                if rv[2]:
                    self.edge(m, n, (f, line))
        elif k == "agg":
            kind, adt = rv[1], rv[2]
            for nm, o in rv[4]:
                n = self.operand(f, o)
                if kind in ("clo", "coro"):
                    self.edge(n, ("F", "clo:" + adt, "", nm), (f, line))
                elif adt and isinstance(adt, str) and adt.startswith("ntex_amqp"):
                    self.store(f, [0, ["f", adt, rv[3], nm]], n, line)
                else:
                    self.store(f, pl, n, line)
            if kind in ("clo", "coro"):
                m, _ = self.place(f, pl)
                self.alias[m].add(("closure", adt))
        elif k == "bin":
            a, b = self.operand(f, rv[2]), self.operand(f, rv[3])
            if rv[1] in CMP and a is not None and b is not None:
                self.compared.append((a, b, f, line))

    def call(self, f, t):
        fn = (t[1].get("k") or {}).get("fn") if isinstance(t[1], dict) else None
        line = t[5]
        args = [self.operand(f, o) for o in t[2]]
        dest, dd = self.place(f, t[3])
        if fn is None:
            return
        g = self.byid.get(fn.get("rid")) or self.byid.get(fn.get("id"))
        if g is not None and (g.crate == f.crate or g.path.startswith(("ntex_amqp", "<ntex_amqp"))):
            for i, a in enumerate(args):
                self.edge(a, ("L", g.id, i + 1), (f, line))
                self.edge(("L", g.id, i + 1), a, (f, line)) if False else None
            self.store(f, t[3], ("L", g.id, 0), line)
            return
        path = fn.get("rpath") or fn["path"]
        ta = [x.get("s", "") for x in (fn.get("rtargs") or fn.get("targs") or [])]
        head, meth = path.rsplit("::", 1)
        base = tail(head.rstrip(":"))
        base = head.split("::<")[0].split("::")[-1]
        if base == "HashMap" and len(ta) >= 2 and ta[1] == "usize" and ta[0] in MAPS:
            ks, vs = MAPS[ta[0]]
            what = {"u32": "table of the peer's handles", "u16": "table of the peer's channels"}.get(ta[0], "table of names")
            if meth in ("get", "get_mut", "remove", "contains_key", "entry", "remove_entry", "insert") and len(args) > 1:
                if ks:
                    self.sink(args[1], ks, "key of the " + what, f, line)
                if meth == "insert":
                    self.sink(args[2], vs, "value in the " + what, f, line)
                elif meth != "contains_key":
                    self.source(("V", ta[0]), vs, "value in the " + what)
                    self.edge(("V", ta[0]), dest, (f, line))
            elif meth in ("keys", "into_keys") and ks:
                self.source(("KK", ta[0]), ks, "key of the " + what)
                self.edge(("KK", ta[0]), dest, (f, line))
            elif meth == "retain":
                for x in t[7] if len(t) > 7 else []:
                    c = self.byid.get(x.get("h")) if x.get("k") == "clo" else None
                    if c is not None:
                        if ks:
                            self.source(("KK", ta[0]), ks, "key of the " + what)
                            self.edge(("KK", ta[0]), ("L", c.id, 2), (f, line))
                        self.source(("V", ta[0]), vs, "value in the " + what)
                        self.edge(("V", ta[0]), ("L", c.id, 3), (f, line))
            elif meth in ("values", "values_mut", "into_values"):
                self.source(("V", ta[0]), vs, "value in the " + what)
                self.edge(("V", ta[0]), dest, (f, line))
            return
        el = ta[0] if ta else ""
        sp = OURS_H if "SenderLinkState" in el else OURS_C if "SessionState" in el else None
        if sp and base in ("Slab", "VacantEntry") or sp and "Slab" in head:
            what = "slot of a " + ("link" if sp == OURS_H else "session")
            if meth in ("get", "get_mut", "remove", "try_remove", "contains", "index", "index_mut") and len(args) > 1:
                self.sink(args[1], sp, what, f, line)
            elif meth in ("key", "vacant_key", "insert", "iter", "iter_mut"):
                if not (meth == "insert" and base == "VacantEntry"):
                    self.source(("K", sp), sp, what)
                    self.edge(("K", sp), dest, (f, line))
            return
        for i, ty in enumerate(t[7] if len(t) > 7 else []):
            # Slab as Index/IndexMut
            if meth in ("index", "index_mut") and i == 0 and "slab::Slab<" in ty.get("s", ""):
                s2 = OURS_H if "SenderLinkState" in ty["s"] else OURS_C if "SessionState" in ty["s"] else None
                if s2:
                    self.sink(args[1], s2, "slot", f, line)
                    return
        if meth in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp") and len(args) == 2:
            if args[0] is not None and args[1] is not None:
                self.compared.append((args[0], args[1], f, line))
            return
        # everything from outside: what goes in may come out, and is passed to closures
        tys = t[7] if len(t) > 7 else []
        clos = [x["h"] for x in tys if x.get("k") == "clo" and x.get("h") in self.byid]
        for i, a in enumerate(args):
            if i < len(tys) and tys[i].get("k") == "clo":
                continue
            if not (i == 0 and clos and meth in MAPPED):
                self.edge(a, dest, (f, line))
            if a is not None and i < len(tys) and "&mut" in tys[i].get("s", ""):
                for j, b in enumerate(args):
                    if j != i:
                        self.edge(b, a, (f, line))
            for c in clos:
                g = self.byid[c]
                for p in range(2, g.argc + 1):
                    self.edge(a, ("L", g.id, p), (f, line))
        for c in clos:
            self.edge(("L", c, 0), dest, (f, line))

    # ---- fixpoint --------------------------------------------------------------------------------------
    def run(self):
        # references to wire fields travel along the same edges
        work = list(self.alias)
        while work:
            n = work.pop()
            for m, _ in self.edges.get(n, ()):
                if not self.alias[n] <= self.alias[m]:
                    self.alias[m] |= self.alias[n]
                    work.append(m)
        for m, n, f, line in self.stores:
            for d in self.alias.get(m, ()):
                if d in WIRE or d in FIELDS:
                    self.sink(n, WIRE[d][1] if d in WIRE else FIELDS[d], "%s.%s" % d, f, line)
        work = list(self.taint)
        while work:
            n, sp = work.pop()
            for m, at in self.edges.get(n, ()):
                if (m, sp) not in self.taint:
                    self.taint[m, sp] = (n, at)
                    work.append((m, sp))

    def of(self, n):
        return {sp for sp in (OURS_H, PEER_H, OURS_C, PEER_C) if (n, sp) in self.taint}

    def trail(self, n, sp):
        out = []
        while n is not None and len(out) < 12:
            p, at = self.taint[n, sp]
            if p is None:
                out.append(at)
                break
            g, line = at
            nm = self.name(g)
            if not out or out[-1] != nm:
                out.append(nm)
            n = p
        return " <- ".join(out)
