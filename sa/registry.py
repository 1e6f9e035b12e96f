"""Which rule decides which property (source of MANIFEST.json, see tools/mkmanifest.py)."""

CHECKS = {}


def reg(pid, module, func, technique, explain, note, assume=()):
    CHECKS[pid] = {"module": module, "func": func, "technique": technique, "explain": explain, "note": note,
                   "assume": list(assume)}


LIB = "standard library, ntex-bytes and ntex-io behave as documented; paths are over-approximated"

reg("C08", "r_message", "c08", "path-sensitive effect analysis over MIR",
    "Every public method of Message that can change a field read by its encoder, or that hands out mutable access to "
    "one, is followed path by path; on each path the cached size must be reset (set to 0) or left never computed.",
    "Decides the whole property for Message's methods; assumes content is only changed through methods (not by "
    "assigning the public inner fields directly).", [LIB])

reg("C05", "r_size", "c05", "byte-accounting dataflow over MIR (symbolic linear forms per path)",
    "For every Encode/ArrayEncode implementation the size function and the writer are followed path by path with loops "
    "unrolled over 0, 1 and 2 elements; the announced size must equal the sum of the bytes appended, and every size, "
    "length and count field written must equal what follows it.",
    "Element encoders are treated modularly (size atom per element), so the result composes to any nesting; assumes "
    "loop bodies treat all elements alike and lengths below 2^32.", [LIB])

reg("C01", "r_decode", "c01", "buffer-length abstract interpretation over MIR (linear offsets per path)",
    "From every decoder entry (Decode/DecodeFormatted/Decoder implementations, manual Hash/PartialEq/TryFrom/Drop of "
    "decoded types) all paths are followed; every index, slice, advance, split, fixed-width read, unwrap, explicit "
    "panic and checked arithmetic operation is an obligation that the path condition must discharge.",
    "Holds for every input for the listed panic sources; loop bodies are analysed with loop-carried locals havocked; "
    "assumes external calls outside the listed panicking ones do not panic and 64-bit usize.", [LIB])
reg("C02", "r_decode", "c02", "capacity/progress/recursion-guard analysis over MIR",
    "Every reservation made while decoding must be bounded by the bytes present, every turn of a loop counted by the "
    "wire or of an open loop must pass a consuming read, and every recursion cycle of decoders must pass a bounded "
    "depth counter first.",
    "Bounds reservations, loop turns and recursion; does not measure time. Two known findings (zero-width arrays).",
    [LIB])
reg("C03", "r_decode", "c03", "buffer-offset dataflow over MIR",
    "On every successful path that consumed a compound format code the input must have advanced by exactly the "
    "announced size, element decoders must read inside it, header readers must return the announced size and count, "
    "and a transfer's payload must be exactly what follows its performative.",
    "Exact linear equality of offsets, for all sizes.", [LIB])

reg("C06", "r_tables", "c06", "table extraction from MIR paths, compared with the AMQP 1.0 type-code table",
    "For every primitive type the format codes written and the bytes that follow (width, order, sign, value range of the "
    "short forms) and the format codes accepted with the bytes read and the value built are extracted from all encoder "
    "and decoder paths and compared with the specification's table and with each other; the same for array constructors "
    "and for every arm of Variant and MessageId.",
    "Decides widths, byte order, signedness and the mapping code <-> type for all values; timestamp arithmetic itself is "
    "not evaluated (N05).", [LIB])

reg("C07", "r_perf", "c07", "path-wise extraction of list layouts from MIR, compared with embedded AMQP 1.0 tables",
    "For every composite type all decoder paths are followed: the number of elements decoded must follow from the list's "
    "count, every field must be the element at its position in the specification, an absent or null element must give the "
    "specified default and a missing mandatory one must not decode; every encoder path must write the specified descriptor, "
    "the count and the fields in order. The same for the descriptor tables of Frame, DeliveryState, Outcome, Section and "
    "SaslFrameBody, for restricted types, for the sections of a message and for the generated accessors.",
    "Values of the fields themselves are C06's concern.", [LIB])

reg("C04", "r_frame", "c04", "buffer-offset and state analysis over MIR paths",
    "Every path of the frame decoder, from each decode state, is classified by its result: waiting only when bytes are "
    "missing and with position and state agreeing, the limit compared as soon as the size is readable, a frame decoded "
    "from exactly its own bytes with nothing left over and the state reset, an error only for a short, oversized, "
    "malformed or overlong frame. Likewise the 8-byte frame header (type, data offset, channel) in both directions and "
    "the protocol headers.",
    "Exact linear equalities over all sizes and splits; transport calls (when decode is invoked) are outside.", [LIB])

reg("F01", "r_snd", "f01", "path-sensitive typestate and effect analysis over MIR (async state machines)",
    "Every path of a send, through every suspension, is followed: a transfer frame may only be written after link credit "
    "was found nonzero with no suspension in between and exactly one unit was taken and the delivery count advanced; the "
    "counters are changed elsewhere only by applying a flow, whose result must be the peer's grant less what is in flight "
    "and cannot wrap around; a sender without credit registers a waiter and the flow wakes waiters.",
    "Reads of counters carry the suspension they were made after, so a stale check is not accepted.", [LIB])
reg("F02", "r_snd", "f02", "path-sensitive typestate and effect analysis over MIR (async state machines)",
    "As F01 for the session window: every transfer written must be preceded, with no suspension in between, by a check "
    "that the window is open, one unit taken and one outgoing id used; only begin and flow frames set the window, to the "
    "peer's grant less what is in flight, without wrapping; closed-window senders wait and are woken by the flow.",
    "Two known findings: continuation frames of a chunked message take no window and no id.", [LIB])
reg("F05", "r_snd", "f05", "path-condition analysis over MIR",
    "Sending: every path that writes a frame, queues or takes credit must establish that the message fits the limit from "
    "the peer's attach (zero: no limit), and only larger ones are refused, before any effect. Receiving: every path that "
    "stores payload must establish that all payload stored for the message so far plus the new part fits the link's limit.",
    "Values of the limits and sizes are symbolic.", [LIB])
reg("F06", "r_snd", "f06", "path enumeration over MIR with symbolic payload chain",
    "Every path of a send is followed, the chunk loop both turn by turn (exact payload chain for up to three turns) and "
    "from an arbitrary state: each frame's payload must be cut from what the one before left, be no longer than the "
    "peer's frame size less room for the performative, announce more exactly when something is left, and the loop must "
    "end only when nothing is; delivery id, tag, settled flag and unsettled bookkeeping must agree.",
    "The chain is exact for messages of up to three frames, each further turn is covered from an arbitrary loop state.",
    [LIB, "delivery tags have at most 32 bytes, as the specification requires"])

reg("F03", "r_rcv", "f03", "path-sensitive typestate and effect analysis over MIR",
    "Every path of handling a transfer is followed: payload may only be stored or delivered when credit was found nonzero, a "
    "complete message takes exactly one credit and advances the delivery count by one, a partial one takes none, and without "
    "credit the link is detached with a transfer-limit error and nothing is kept. Granting sends one flow with our handle, the "
    "delivery count and the credit, and the credit enforced cannot exceed the one announced; nothing else writes the counters.",
    "A link's counters start at zero credit and the count in the peer's attach.", [LIB])
reg("F04", "r_rcv", "f04", "path-sensitive typestate analysis over MIR",
    "Paths of handling a transfer are classified by what they know of the delivery under way, the more, aborted and id fields; "
    "each class must keep, append, reveal or refuse exactly as stated. Every receiving method may take an entry only after "
    "establishing that nothing is under way or that another entry is in front.",
    "Payloads are symbolic; the concatenation order follows from appending each frame once to what is stored.", [LIB])
reg("F07", "r_rcv", "f07", "path-sensitive effect analysis over MIR",
    "Every flow frame that is built must report the session's own next-incoming and next-outgoing ids; the former must start "
    "at the peer's begin, advance by one (modulo 2^32) on every transfer received, be set by the peer's flow and by nothing "
    "else.", "Values are symbolic.", [LIB])
reg("D01", "r_dlv", "d01", "path-sensitive typestate analysis over MIR (flag algebra)",
    "Every path of every public function of a delivery and of its drop handler: a disposition may be sent only where neither the "
    "local flag, the peer flag nor the settled mark of its entry is set; a settlement sets the local flag on the same path; the "
    "frame names this delivery with the role of its direction; dropping sends exactly one rejection when nothing has settled and "
    "otherwise nothing, and removes the entry. Flags are only ever added, and only where the path proves them true.",
    "Histories are covered by induction over the calls: flags never go back.", [LIB])
reg("D02", "r_dlv", "d02", "path-sensitive routing and waiter analysis over MIR",
    "Every path of the disposition frame is followed: the table is chosen by the role, the entry by first, or by walking all "
    "unsettled deliveries with a serial comparison against first and last; state and settled mark are recorded exactly as sent and "
    "the registered waiter is taken and woken. Every path of a wait that suspends must have found, since the last suspension, "
    "neither outcome nor error nor settlement, and must wait for the notification it registered with its own entry.",
    "A range whose last id precedes its first (serially) is invalid and may be ignored.", [LIB])

reg("E01", "r_end", "e01", "path-sensitive cascade analysis over MIR (exhaustive walks, completion effects, routes)",
    "Every path of the routine that ends a connection walks the whole session table, ends each session that is established or "
    "closing, empties both tables, keeps the error and completes the close notification for good; every writer of the error is part "
    "of it. Every path of force_close, drop, a failed write, dispatcher shutdown, the ProtocolError/Closed/Disconnected control "
    "frames and the peer's Close runs it. On an ended connection or session nothing is opened or written and the caller gets an "
    "error; every await on an answer channel of the engine turns a dropped channel into an error.",
    "That the I/O layer stops the dispatcher (and so calls shutdown) on disconnect is assumed.", [LIB])

reg("E02", "r_end", "e02", "path-sensitive cascade analysis over MIR (exhaustive walks per link state)",
    "Every path of the routine that ends a session, for every state a link's slot can be in: window waiters and queued sends are "
    "taken out to the end and answered with an error, links are marked closed with their notifications and readers woken, delivery "
    "tables, link table, names and handles are emptied, error and ENDED mark are set, the close notification is completed. An End "
    "frame runs it once and reports exactly the attached links, a local end reports them once, frames for an ended session have no "
    "effect.", "", [LIB])

reg("E03", "r_end", "e03", "path-sensitive cascade analysis over MIR (per link state, selective queue sweep)",
    "Every path of a Detach frame, for every state of the slot it names: waiters are answered (success only for a confirmed detach "
    "without error), the link is closed with all its notifications, of the queue of window waiters exactly the entries with the "
    "link's handle are removed and failed (an index-precise simulation of the sweep), of the unsettled deliveries exactly the "
    "link's fail and wake, slot, name and remote handle are released by predicates that select this link only, and the matching "
    "action is reported.", "Queue sweeps are followed for up to two entries and the turn after; loop bodies treat all entries alike.", [LIB])

reg("E04", "r_end", "e04", "path-sensitive cascade analysis over MIR (closing entry points and waiting loops)",
    "Every path of every public call that closes or detaches a link (and of the refusal of an unconfirmed one): closed mark, close "
    "and credit notifications, queued sends, window waiters of this link, reader wake-up; an answer channel kept for the peer's "
    "confirmation implies a Detach frame. SenderLink::ready, sending and poll_recv look at the closed mark in the very step in which "
    "they begin to wait or act, and register their waker before returning Pending.", "", [LIB])

reg("R01", "r_conn", "r01", "path-sensitive request/answer accounting over MIR (per link state and outcome)",
    "Every path of an Attach frame, for every state of the name and slot it leads to: exactly one of completing our own request, "
    "handing the new link to the control service, or answering by itself; every path of the control-service result and of the "
    "link's confirm and drop: exactly one Attach answer per link, of the opposite role with our handle, followed by a Detach with "
    "the error when refused.", "", [LIB])

reg("R02", "r_conn", "r02", "path-sensitive request/answer accounting over MIR (per session and link state)",
    "Every path of Begin, End, Detach and Close frames for every state of the session, link or connection: exactly one answer of the "
    "matching kind when the peer initiated, none when the frame confirms ours; local end, detach and close send exactly one frame and "
    "mark the object as waiting.", "", [LIB])

reg("R03", "r_conn", "r03", "path-sensitive effect analysis over MIR under a path condition (connection already ended)",
    "Every path of every frame kind on an ended connection: no field of connection, session or link is written, no frame is sent and "
    "no action is reported; a second Close is not answered; the dispatcher hands nothing to a service when handling the frame failed.",
    "", [LIB])

reg("R04", "r_conn", "r04", "number-space taint analysis (whole-program flow, peer numbers vs our numbers)",
    "Flow of every channel and handle value from decoded frames and from slab keys through locals, fields, calls and returns to every "
    "table lookup, comparison and frame under construction; each sink is reached by one space only and by the one it is declared for.",
    "The only exception is the placeholder handle of a link that is not attached; that it is replaced on attach is an obligation.", [LIB])

reg("R05", "r_conn", "r05", "path-sensitive index-consistency analysis over MIR (slot, name and number tables)",
    "Every path on which a link or session slot is removed also removes the name and number entries selecting that slot; tables are "
    "emptied together; a slot that becomes attached or established is mapped under the peer's number. All removers are covered.",
    "", [LIB])

reg("R06", "r_conn", "r06", "path-sensitive guard analysis over MIR (limit check before insertion)",
    "Every path that inserts into the session table has compared the slot to be used with the channel limit first and fails with "
    "TooManyChannels leaving all tables as they were; the limit is the smaller of the two announced ones and never rewritten.",
    "", [LIB])

reg("R07", "r_conn", "r07", "call-graph gate plus path-sensitive channel provenance over MIR",
    "Every place that constructs a frame is part of an analysed way a frame is sent; on every path the channel of a session frame is "
    "that session's own id and of a connection frame zero; nothing writes to the connection past ConnectionInner, an encoding error "
    "there is returned or fails the connection, the dispatcher returns no frame.", "", [LIB])

reg("R08", "r_panic", "r08", "guard-dominance and interval analysis over MIR (every panicking construct reachable from an entry point) and RefCell borrow analysis",
    "Every path of the frame handlers for every frame kind and of every function and service implementation other code can call is "
    "enumerated; each overflow, division, index, slice, unwrap, expect, remove and split on it has to be excluded by what the path "
    "has established (lengths, lookups, comparisons) or by an invariant checked separately (control frames name their session, "
    "handed-over frames are taken once, an open link has its slot). No call made while a RefCell is borrowed reaches another borrow of it.",
    "Overflow is judged as in builds with overflow checks. Functions called while a connection is configured and an application's own misuse of a frame it holds are left out. "
    "That an open link has a slot rests on E03, E04 and R05.", [LIB])

reg("H01", "r_hs", "h01", "typestate analysis over MIR (sequence of awaited exchanges on every path)",
    "Every path of the client's entry points (negotiate, negotiate_sasl, call), of the server's handler and of every step of the "
    "server's handshake types: the awaited exchanges with the peer are the prescribed ones in order, each known to have succeeded "
    "with the expected content before the next, a deviation ends the path in an error, and a client or served connection exists "
    "only after all of them; the limits stored in the connection flow from the open frame just received; handshake states are built "
    "by their predecessors only.", "", [LIB])

reg("H02", "r_hs", "h02", "typestate analysis over MIR (sequence of awaited exchanges on every path)",
    "Same paths as H01: with credentials the SASL exchanges come first and the outcome's code is known to be Ok before the AMQP "
    "header is sent, any other code is returned; on the server a SaslSuccess is built only after an Ok outcome was sent, it leads to "
    "an opened handshake only through the AMQP header, a peer that asked for SASL is given the SASL handshake and nothing converts "
    "one into the plain one.", "", [LIB])

reg("H03", "r_hs", "h03", "scoped-effect analysis over MIR (waits inside the time limit, provenance of limits)",
    "Every wait for the peer (and for the handshake service) on every path of the entry points lies inside a future bounded by the "
    "configured handshake timeout, whose expiry is an error; no other function waits on the stream; the size limit of every codec "
    "that receives frames is the configured field; the peer's idle timeout reaches the dispatcher; what is announced is configured.",
    "", [LIB])

reg("S01", "r_svc", "s01", "path-sensitive effect analysis over MIR (exhaustive over event kinds)",
    "Every path of the dispatcher's call function, for every action the frame handlers can return and every reason for which the "
    "connection stops: which service is called, how often, with which link, frame or error (by provenance of the terms); the frame "
    "handlers return these actions for every flow, detach, end and close they have to; local detaches and session ends are queued "
    "once and the dispatcher woken; poll hands every queued frame to the control service and keeps its answer; shutdown.", "", [LIB])

reg("S02", "r_svc", "s02", "path-sensitive error-flow analysis over MIR (failures followed to the frame or result they become)",
    "Every path on which a service's outcome is an error: of a message to the Detach frame with that error on that link, of an "
    "attach to attach and detach, of a flow to the Detach frame, of protocol errors to the connection's error and the dispatcher's "
    "result, of an unavailable service to the close of the connection; errors that a poll finds are kept and found by ready.", "", [LIB])

reg("S03", "r_svc", "s03", "abstract interpretation (linear bounds of the interval over all timeouts) and path rules over MIR",
    "The interval is a term over the idle timeout the peer announced; linear upper and lower bounds of it are computed by "
    "abstract evaluation on a partition of all 2^32 timeouts into ranges and compared with the timeout. Every path of poll: elapsed "
    "timer -> one empty frame, timer restarted with the interval and polled again; not elapsed -> neither.",
    "Bounds are on terms, nothing is run; timer accuracy of the runtime is assumed.", [LIB])

reg("S04", "r_svc", "s04", "path-sensitive effect analysis over MIR (must-settle-once)",
    "Every path of the router's call function (callees followed): taking, handing over and settling a message by provenance of link, "
    "message and delivery terms, outcome by outcome; links without target or route are refused.", "", [LIB])

reg("S05", "r_svc", "s05", "path-sensitive effect analysis over MIR (handler table)",
    "Every path of the router's call function: inserts, removals and slot writes of the handler table, their keys and order relative "
    "to the creation of the handler, shutdown of what is removed; comparison and hash of links depend on identity only; the "
    "dispatcher reports a link that went away while it was attached.", "", [LIB])

DECLINED = {
    "N01": "round-trip equality of values quantifies over runtime values; the structural parts (code tables, field order, "
           "sizes) are decided by C05, C06 and C07",
    "N02": "exactness of 32-bit serial arithmetic is a numerical result over all counter values, not a shape of the code",
    "N03": "ordering of histories across tasks depends on runtime queue contents and scheduling",
    "N04": "timer behaviour depends on the executor and the clock",
    "N05": "numerical conversion over all timestamps",
}
