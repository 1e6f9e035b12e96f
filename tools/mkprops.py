#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CD, CE, CIO = "codec/src/codec/decode.rs", "codec/src/codec/encode.rs", "codec/src/io.rs"
DEF, MSG = "codec/src/protocol/definitions.rs", "codec/src/message/message.rs"
CON, SES, SND, RCV, DLV = "src/connection.rs", "src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/delivery.rs"
DSP, CTL, RTR = "src/dispatcher.rs", "src/control.rs", "src/router.rs"

# ---- codec -------------------------------------------------------------------------------------
p("C01", "Decoding arbitrary bytes never panics",
  "Whatever bytes a peer sends, decoding a frame, a SASL frame, a protocol header, a value or a message section ends with a result, a request for more input, or an error. It never panics: no out-of-bounds access, no reading past the end of the buffer, no arithmetic overflow and no failed assertion can be reached from input bytes.",
  ["inputs"], "every byte sequence offered to every public decoding entry point",
  "The unit tests decode a few dozen well-formed and two or three truncated samples; a malformed length or count that no sample contains reaches the unchecked access.",
  [CD, CIO, "codec/src/framing.rs", DEF, MSG, "codec/src/types/variant.rs"],
  [("length check before every read", CD), ("checked arithmetic on declared sizes", CD)],
  observe=["Decoder::decode of the frame codecs", "Decode::decode of every public type"])
p("C02", "Decoding effort is bounded by the bytes received",
  "A length, count or nesting depth written in the input can never by itself make the decoder allocate memory, loop or recurse beyond what the bytes actually received can account for. Every allocation sized from the input is bounded by the remaining input, every loop driven by a declared count consumes input (or is bounded by it) in each turn, and nested values have a bounded recursion depth.",
  ["inputs"], "every byte sequence offered to every public decoding entry point",
  "Tests use small honest counts; an adversarial 4-byte count or a few kilobytes of nested descriptors is outside every sample.",
  [CD, "codec/src/types/variant.rs", "codec/src/types/array.rs"],
  [("capacity and loop bounds taken from declared counts", CD), ("recursive value decoding", CD)])
p("C03", "A compound value is decoded only from its own declared bytes",
  "When a list, map, array or described performative declares its encoded size, its elements are read only from those bytes: a declared size larger than the available input is an error or a request for more, elements that do not fit in the declared size are an error, and whatever follows the compound in the stream is left for the next value. Optional trailing fields beyond the declared element count take their defaults without reading further bytes.",
  ["inputs"], "every compound encoding, including inconsistent size and count fields",
  "The samples' sizes and counts are always consistent, so reading past the declared end goes unnoticed.",
  [CD, DEF], [("compound header decoding and splitting of the body", CD), ("generated field decoders count down the declared fields", DEF)])
p("C04", "Frames are delimited and limited by the frame header",
  "A frame is accepted only if its declared size is at least the fixed header and not above the configured maximum, and is decoded only once all its bytes are there, from exactly those bytes: bytes left over inside the frame are an error, and bytes after it stay in the buffer. The maximum is applied as soon as the size is known, before waiting for the frame's body, and a frame whose type does not match the codec is rejected.",
  ["inputs", "histories"], "every byte stream and every way it is split into reads",
  "Tests feed whole well-formed frames; size-limit, short-frame and split-read combinations are a product no sample set covers.",
  [CIO, "codec/src/framing.rs", CD], [("header state then body state in the frame codec", CIO), ("frame header decoding", CD)],
  state=[("decode state", "waiting for a header or for a frame of known size", CIO)])
p("C05", "Encoded size always equals the bytes produced",
  "For every value of every encodable type, the announced encoded size is exactly the number of bytes that encoding appends. In particular the short and long form of variable-width values are chosen under the same condition when sizing and when writing, and every field counted is written and vice versa.",
  ["inputs"], "every value of every type that implements the encoding traits",
  "Round-trip tests compare a handful of values below the 256-byte threshold; size is used to fill in frame and list headers, so an error corrupts the stream only for particular lengths or field combinations.",
  [CE, DEF, MSG, "codec/src/framing.rs", "codec/src/message/body.rs"],
  [("paired size and write functions", CE), ("generated size and write functions", DEF)])
p("C06", "Every type code written by the encoder is understood by the decoder",
  "For each primitive type, each format code the encoder may emit is accepted by the decoder of the same type, which then reads a payload of the width the encoder wrote, with the same signedness and byte order. The generic value decoder accepts every format code the encoder can emit for any variant and maps it to the variant of the same type.",
  ["inputs"], "every primitive type and every format code",
  "Tests sample some types and one encoding form of each; a code or width mismatch in a rarely used type or form passes them.",
  [CD, CE, "codec/src/codec/mod.rs", "codec/src/types/variant.rs"], [("format code constants", "codec/src/codec/mod.rs"), ("per-type encode/decode implementations", CD)])
p("C07", "Performatives use the field order and descriptors of AMQP 1.0",
  "Each performative, delivery state, terminus, error and message section is written and read as a list with the descriptor code and the field order of the AMQP 1.0 specification, the writer and the reader agreeing on both for every field. An absent field decodes to its specified default, and an absent mandatory field is a decoding error.",
  ["inputs"], "every composite type and every subset of present fields",
  "Tests compare encode against decode of the same crate, so a swap made in both, or in a field left empty by the samples, is invisible.",
  [DEF, "codec/codegen/specification.json", "codec/codegen/definitions.rs"], [("generated composite codecs", DEF)])
p("C08", "A message edited after sizing is re-sized before it is sent",
  "Every public way of changing a message's content invalidates whatever encoded size was computed earlier, so that the size announced for the next encoding describes the current content.",
  ["histories"], "every sequence of size queries and modifications of a message",
  "The tests build a message once and encode it; the failure needs a size query followed by a particular mutator.",
  [MSG], [("cached size reset by mutators", MSG)], state=[("cached size", "encoded size remembered from the last query", MSG)])

# ---- engine: termination of waiters ---------------------------------------------------------------
p("E01", "Losing the connection ends every session and every waiter",
  "When a connection fails, is closed by the peer or is dropped, every operation waiting on it completes with an error: session opening, session ending, link attach and detach, sends waiting for credit or window, delivery outcomes, receivers, and close notifications. After that moment no session or link can be opened on it and every later operation reports the failure.",
  ["schedules", "histories", "fault_sequences"], "every state a connection's sessions and links can be in when the connection ends",
  "Tests drop the connection in one or two quiet states; each combination of pending operation and failure is a separate state.",
  [CON, SES, SND, RCV, DLV], [("error propagation connection -> session -> link -> delivery", CON)],
  observe=["futures returned by the public API"])
p("E02", "Ending a session completes everything that belongs to it",
  "When a session ends, by either side or because its connection failed, all its links become closed, all transfers waiting for its window and all its unsettled deliveries are completed with the error, its close notification fires, and the session's frames are no longer processed. The application's control service is told about the end exactly once, with the links that were attached.",
  ["schedules", "histories"], "every set of links, pending transfers and unsettled deliveries at the moment the session ends",
  "The tests end idle sessions with one link.",
  [SES, CON], [("session error broadcast", SES), ("session end control event", SES)])
p("E03", "A remote detach completes everything that waits on that link",
  "When the peer detaches a link, the waiting attach or detach call completes, sends queued for that link's credit or for the session window fail, its unsettled deliveries fail with the peer's error, receivers are woken, and the application is told. Other links of the session keep their pending sends and deliveries, and the link's identifiers are released for reuse.",
  ["schedules", "histories"], "every link state and every mix of pending operations on several links",
  "Tests detach one idle link; the interplay of several links with pending operations is not sampled.",
  [SES, SND, RCV], [("detach handling", SES)])
p("E04", "Closing a link locally wakes everything that waits on it",
  "After a link is closed or detached locally, by whichever public call, no task stays suspended on it forever: close notifications, credit waiters, readiness waiters, queued sends and receivers are completed, and new sends on it are refused.",
  ["schedules", "histories"], "every way of closing and every set of tasks waiting on the link",
  "Tests close links nobody is waiting on.",
  [SND, RCV, SES], [("close and drop handlers of links", SND), ("receiver close", RCV)])
# ---- deliveries --------------------------------------------------------------------------------
p("D01", "A delivery is settled at most once, and never silently lost",
  "For each delivery at most one settling outcome is sent to the peer, none after the peer has settled it, and no state update follows a settlement. A received delivery that the application drops without settling is rejected exactly once and forgotten; one that was settled by either side is dropped without any frame.",
  ["histories", "schedules"], "every sequence of settle, update, wait and drop on a delivery, interleaved with the peer's dispositions",
  "Tests settle once and drop; repeated or crossing settlement is not exercised.",
  [DLV], [("settlement flags", DLV), ("drop handler", DLV)])
p("D02", "The peer's dispositions reach exactly the deliveries they name",
  "A disposition updates precisely the deliveries in its range on the side its role names, records both the state and the settled flag, and wakes whoever waits on them. A waiter whose delivery is already decided is answered at once, and a settled delivery never leaves its waiter suspended.",
  ["histories", "schedules", "inputs"], "every disposition (role, range, state, settled) at every moment relative to the wait",
  "Tests answer one delivery after the wait has begun.",
  [SES, DLV], [("disposition routing", SES), ("delivery waiters", DLV)])
# ---- flow control --------------------------------------------------------------------------------
p("F01", "Senders never exceed the link credit granted by the peer",
  "A transfer is sent on a link only when, at that moment and after any suspension, the link has credit; each message uses exactly one credit and advances the delivery count by one, and credit is changed otherwise only by the peer's flow. A sender without credit waits in line and is resumed when credit arrives.",
  ["schedules", "histories"], "every interleaving of concurrent sends on one link with the peer's flow frames",
  "Tests grant ample credit; competition of several suspended sends for little credit is not scheduled.",
  [SND, DLV], [("credit check loop", SND)], state=[("link credit", "messages the peer still allows", SND)])
p("F02", "Senders respect the peer's session window",
  "A transfer is put on the wire only while the peer's incoming window is open, checked again after every suspension; each transfer takes one unit of the window and one outgoing id, and nothing but the peer's begin and flow frames enlarges the window. Sends that find it closed wait and are resumed when a flow arrives.",
  ["schedules", "histories"], "every interleaving of sends on all links of a session with flow frames",
  "The default window in the tests never closes.",
  [SES], [("window check loop in the transfer routine", SES)], state=[("remote incoming window", "transfers the peer can accept", SES)])
p("F03", "Receivers enforce the credit they granted",
  "A transfer arriving when the receiver has no credit is not delivered to the application and detaches the link with a transfer-limit error; every complete message accepted uses exactly one credit. Credit is replenished only by an explicit grant, which is announced to the peer with the link's current delivery count.",
  ["histories", "inputs"], "every sequence of transfers and credit grants",
  "Tests always grant enough credit.",
  [RCV, SES], [("credit check in transfer handling", RCV)], state=[("receiver credit", "messages the peer may still send", RCV)])
p("F04", "A multi-frame message is delivered once, whole, and in order",
  "The application sees a message sent in several frames only after its last frame, once, with the concatenation of the frames' payloads; until then it is invisible to every receiving call. A continuation whose delivery id differs, or a first frame without a delivery id, detaches the link instead of being delivered.",
  ["histories", "inputs", "schedules"], "every segmentation of messages into frames and every moment the application polls",
  "Tests send single-frame messages or one fixed segmentation.",
  [RCV], [("partial body accumulation and queue visibility", RCV)])
p("F05", "Messages above the negotiated size are refused in both directions",
  "A message larger than the peer's limit is refused to the sending application before any frame is written or credit is used. A received multi-frame message that grows beyond the link's limit detaches the link with a size-exceeded error before the excess is stored.",
  ["inputs", "configurations"], "every message size, limit and segmentation",
  "Tests use messages far below the limits.",
  [DLV, RCV, SES], [("limit check before sending", DLV), ("limit check while merging", RCV)])
p("F06", "Large messages are split into frames that fit and end properly",
  "A message longer than the peer's maximum frame size is sent as consecutive frames, each within the limit, the first carrying the delivery id and tag, all but the last marked as continued and the last not, covering the whole payload exactly once. An unsettled message is registered for its outcome before its first frame is sent, and a pre-settled one is marked settled and not registered.",
  ["inputs", "configurations"], "every payload length and frame size limit, settled and unsettled",
  "Tests use one oversize message.",
  [SES], [("chunking in the transfer routine", SES)])
p("F07", "Flow frames report the session's true state",
  "Every flow frame the session sends names the id of the next transfer it expects from the peer and the id of the next transfer it will send itself. The former starts at the id in the peer's begin, advances by one for every transfer received, whatever becomes of the transfer, and otherwise changes only when the peer's flow states it.",
  ["histories", "inputs"], "every sequence of transfers and flow frames, including wrap-around of the ids",
  "Tests exchange a few transfers and never look at the ids in flow frames.",
  [SES], [("next incoming id bookkeeping and flow construction", SES)], state=[("next incoming id", "transfers received so far", SES)])
# ---- protocol obligations ---------------------------------------------------------------------------
p("R01", "Every incoming attach is answered exactly once, correctly",
  "A link attach initiated by the peer is handed to the application and answered exactly once: with an attach of the opposite role carrying our handle if it is accepted, or with an attach followed by a detach carrying the error if it is refused. An attach that answers our own request completes that request and is not treated as a new link.",
  ["histories", "schedules"], "every attach and every outcome of the application's services",
  "Tests accept links; refusal, late failure and crossing attaches are not sampled.",
  [SES, CON, DSP], [("attach routing and confirmation", SES), ("control service result handling", DSP)])
p("R02", "Begin, End, Detach and Close are each answered exactly once",
  "A begin opened by the peer is answered by one begin naming the peer's channel; an end, detach or close initiated by the peer is answered by exactly one end, detach or close; and a frame that answers our own end, detach or close is not answered again. The answer goes out on our channel and handle for that session and link.",
  ["histories"], "every frame history of both peers",
  "Tests follow the one orderly shutdown path.",
  [CON, SES], [("frame handling by state", CON), ("detach handling by link state", SES)])
p("R03", "Nothing is processed after the connection has ended",
  "Once the connection has ended - the peer's close was received, it was dropped, or it failed - frames that still arrive change no session or link, invoke no application service with new work, and create no session. A second close from the peer is not answered.",
  ["histories", "fault_sequences"], "every frame arriving after close or failure",
  "No test sends frames after close.",
  [CON, SES, DSP], [("error guard in frame handling", CON)])
p("R04", "Local and peer-assigned identifiers are never confused",
  "Channels and handles assigned by the peer are used only to look up what the peer refers to, and frames we send always carry our own channel and handle; the reverse never happens. Lookups by the peer's numbers go through the table that maps them to our objects.",
  ["histories", "configurations"], "every assignment of channels and handles in which the two sides' numbers differ",
  "In the tests both sides number from zero, so the two number spaces coincide and a mix-up works.",
  [CON, SES, RCV, SND], [("maps from peer channel and handle to local slots", SES)])
p("R05", "Releasing a session or link releases every index that names it",
  "Whenever a link or session slot is released, the name and peer-number entries that lead to it are released with it, so no later frame or lookup by an old name or number reaches a slot that now belongs to something else. Whenever a link becomes attached, the peer's handle leads to it.",
  ["histories"], "every attach/detach/re-attach and begin/end history",
  "Tests attach a handful of links and rarely reuse a slot.",
  [SES, CON], [("removal of index entries with the slot", SES)])
p("R06", "Sessions stay within the negotiated channel limit",
  "No session is opened, locally or at the peer's request, on a channel number that the configured or negotiated channel limit forbids, and our channel numbers never wrap onto one another. An attempt beyond the limit is refused with an error and leaves no trace.",
  ["histories", "configurations"], "every number of concurrently open sessions and every limit",
  "Tests open a few sessions under the default limit.",
  [CON, "src/lib.rs"], [("limit check when a session is opened", CON)])
p("R07", "Every frame leaves through one gate on the right channel",
  "All frames of an established connection are written through the connection's single encoding gate, and frames belonging to a session carry that session's own channel number while connection-level frames use channel zero. A frame that cannot be encoded fails the connection rather than being dropped silently.",
  ["programs", "histories"], "every place in the library that sends a frame",
  "With one session everything is on channel zero, so a frame on a wrong channel is invisible.",
  [CON, SES, DSP], [("frame posting", CON)])
p("R08", "No peer behaviour can panic the protocol engine",
  "No sequence of well-formed frames from the peer, in any order and with any field values, and no timing of the application's answers relative to them, makes the connection, session, link or dispatcher code panic.",
  ["inputs", "histories", "schedules"], "every frame sequence and every interleaving with application calls",
  "Tests speak the protocol correctly; unexpected repeats, unknown handles and late confirmations are never sent.",
  [CON, SES, SND, RCV, DLV, DSP], [("panicking constructs reachable from frame handling", SES)])
# ---- handshake ------------------------------------------------------------------------------------
p("H01", "A connection is served only after a complete handshake",
  "The server starts serving frames only after it has exchanged protocol headers, received the peer's open and sent its own open, in that order; the client only after it sent its open and received the peer's. Anything else the peer sends at those points ends the handshake with an error, and the limits the peer announced in its open are the ones the connection uses.",
  ["histories", "inputs"], "every message the peer may send at each step of the handshake",
  "Tests run successful handshakes.",
  ["src/server/handshake.rs", "src/server/sasl.rs", "src/server/service.rs", "src/client/connector.rs"],
  [("typed handshake steps", "src/server/handshake.rs"), ("client negotiation", "src/client/connector.rs")])
p("H02", "SASL success is required where SASL is used",
  "A client using SASL opens the connection only after the server reported the authentication outcome as successful, and any other outcome or frame is returned as an error. A server that speaks SASL lets the connection proceed to the AMQP layer only after it sent a successful outcome and received the AMQP protocol header.",
  ["histories", "inputs"], "every outcome code and every frame the peer may send during authentication",
  "Tests authenticate successfully or with one failure code.",
  ["src/server/sasl.rs", "src/client/connector.rs"], [("outcome check", "src/client/connector.rs"), ("typed SASL steps", "src/server/sasl.rs")])
p("H03", "The handshake is bounded in time and size",
  "The configured handshake timeout covers every step in which the library waits for the peer before a connection is established, and after establishment the configured frame size limit, keep-alive and idle settings are the ones installed on the connection's codec and dispatcher.",
  ["configurations", "fault_sequences"], "every configuration and every point at which the peer may stall",
  "No test stalls a peer.",
  ["src/server/service.rs", "src/client/connector.rs"], [("timeout around the handshake", "src/server/service.rs")])
# ---- dispatcher / router ---------------------------------------------------------------------------------
p("S01", "Every protocol event reaches the service responsible for it",
  "While the connection is open every transfer reaches the publish service, and every attach, detach, sender flow, session end (the peer's or our own), close, codec error, keep-alive or read timeout and disconnect reaches the control service exactly once, with the links, frame or error it concerns; the publish service is told which of its links are gone; a protocol error found while handling a frame ends the dispatcher with that error; shutdown fails what is left and always ends with a final closed event. No event kind is dropped without a decision.",
  ["histories", "fault_sequences"], "every kind of incoming event and every reason for which the connection stops",
  "Tests check transfers and one or two control events.",
  [DSP, CTL, CON, SES], [("event routing", DSP)])
p("S02", "A failing service closes what it was serving, and says why",
  "When the publish service fails on a message or on attaching a link, that link is closed with the service's error; when the control service fails on an attach or a flow, that link is refused or closed with the error; a protocol error handed to the control service fails the connection and ends the dispatcher with it, whatever the service answers; when either service becomes unavailable, the connection is closed with the error. An error from a service is never dropped while the peer keeps waiting for an answer.",
  ["fault_sequences", "schedules"], "every event for which a service may fail",
  "Tests make a service fail in one or two places.",
  [DSP, "src/server/service.rs"], [("error handling of service results", DSP)])
p("S03", "An idle connection sends keep-alive frames as the peer requires",
  "If the peer announced an idle timeout, empty frames are sent on channel 0 periodically at an interval strictly below it (for every timeout of more than a millisecond) for as long as the connection is open, the timer being restarted and waited for again after each; if it announced none, no keep-alive frames are timed.",
  ["configurations", "schedules"], "every idle timeout announced by either side",
  "Tests finish before any timer fires.",
  [DSP, "src/lib.rs", "src/server/service.rs", "src/client/connector.rs"], [("idle timer", DSP)])
p("S04", "The router settles every message with its handler's outcome",
  "Each message taken from a routed link is handed to that link's handler once, after it is ready, and settled exactly once with its outcome: accepted, rejected, or rejected with the handler's error; a handler that is not ready any more closes its link. A message for a link without a target or a route is not swallowed: the link attach is refused.",
  ["histories", "fault_sequences"], "every message, handler result and link",
  "Tests cover the accepting handler.",
  [RTR, "src/types.rs"], [("service call and settlement", RTR)])
p("S05", "The router forgets a link's handler when the link goes away",
  "A handler created for a link is registered under that link only, is used only for that link's messages, and is released when the link is detached or its session ends - also while it is still being made - without affecting other links; a link whose handler cannot be made is not kept.",
  ["histories", "schedules"], "every interleaving of link attach, detach and session end",
  "Tests attach one link.",
  [RTR, DSP], [("handler table keyed by link", RTR)])
# ---- declined ------------------------------------------------------------------------------------
p("N01", "Decoding what was encoded returns the original value",
  "For every value of every AMQP type, decoding its encoding yields an equal value and consumes the whole encoding.",
  ["inputs"], "every value", "Tests sample values; equality quantifies over run-time values.",
  [CD, CE], [("encode/decode implementations", CD)])
p("N02", "Sequence-number arithmetic is exact across wrap-around",
  "Credit, window, delivery-count and id computations give the result required by the specification for every combination of counters, including after the 32-bit numbers wrap.",
  ["inputs", "histories"], "every combination of counter values", "Tests never get near a wrap.",
  [SES, SND], [("wrapping arithmetic in flow handling", SES)])
p("N03", "Deliveries on a link are handed over in the order they were sent",
  "Messages are transmitted in the order in which the application's sends were accepted, and handed to the receiving application in the order in which they arrived.",
  ["schedules", "histories"], "every schedule of concurrent sends", "Tests send sequentially.",
  [SND, SES, RCV], [("pending queues", SND)])
p("N04", "Timers fire when configured",
  "Handshake, idle and keep-alive timeouts take effect within the configured time, for every scheduling of the executor.",
  ["schedules", "configurations"], "every schedule and timeout", "Tests do not wait for timers.",
  [DSP], [("timers", DSP)])
p("N05", "Timestamps convert without loss",
  "Every AMQP timestamp in the representable range converts to the corresponding date and back.",
  ["inputs"], "every 64-bit millisecond count", "Tests sample a few positive values.",
  [CD], [("timestamp conversion", CD)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
