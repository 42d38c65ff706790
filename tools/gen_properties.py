#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

STREAM, WINDOW, MERGE = "mrp/src/stream.rs", "mrp/src/window.rs", "mrp/src/merge_buffer.rs"
CRYPTO, ACTOR, ASSETS = "src/rust/src/core/crypto.rs", "src/rust/src/common/actor.rs", "src/rust/src/core/assets.rs"
VERS = "src/rust/src/common/versioning.rs"
HTTP, SFU, CL = "src/rust/src/lite/http.rs", "src/rust/src/lite/sfu.rs", "src/rust/src/lite/call_links.rs"
B16, MR, RK = "src/rust/src/lite/call_links/base16.rs", "src/rust/src/lite/call_links/member_resolver.rs", "src/rust/src/lite/call_links/root_key.rs"
MTX, RWL, UTIL = "src/rust/src/core/call_mutex.rs", "src/rust/src/core/call_rwlock.rs", "src/rust/src/core/util.rs"
SIG, PROTO = "src/rust/src/core/signaling.rs", "src/rust/src/protobuf.rs"
CM, CALL, CFSM = "src/rust/src/core/call_manager.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs"
CONN, CNFSM = "src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs"
GC, END = "src/rust/src/core/group_call.rs", "src/rust/src/core/endorsements.rs"
SIMNET, ADMU = "src/rust/src/simnet/router.rs", "src/rust/src/webrtc/audio_device_module_utils.rs"

# ------------------------------------------------------------------ reliable stream (mrp)
p("R01", "Reliable stream delivers each message exactly once and in order",
  "Between two endpoints of the reliable stream, whatever packets are lost, duplicated, reordered or delayed, the sequence of messages an application receives is always a prefix of the sequence the other application successfully sent: nothing is dropped in the middle, repeated, reordered or altered. A packet that is handed out with other packets (because it closed a gap) is handed out in the same order.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of sends, deliveries, losses, duplications, reorderings and timer ticks, for every window size",
  "The unit tests drive a handful of hand-written packet orders through one small window; the property quantifies over all network behaviours.",
  [STREAM, WINDOW],
  [("receive window placement and contiguous drain", STREAM + ":receive_and_merge"), ("sequence number assignment", STREAM + ":try_send"), ("window arithmetic", WINDOW)],
  [("receive window", "packets received ahead of the next expected one", STREAM), ("send window", "packets sent and not yet acknowledged", STREAM)],
  ["values returned by receive/receive_and_merge", "packets passed to the send closures"])
p("R02", "Reliable stream windows are bounded and a refused send has no effect",
  "An endpoint never has more unacknowledged packets outstanding than its configured send window and never buffers more out-of-order packets than its configured receive window: excess sends are refused with an explicit error and packets beyond the receive window are refused with an explicit error. A send that is refused, or whose transmission fails, consumes no sequence number and changes nothing that a later send, receive, acknowledgement or resend could observe.",
  ["histories", "fault_sequences", "configurations"],
  "every history of accepted and refused sends, failing transmissions, acknowledgements and receptions, for every window size",
  "Tests check fullness in one scenario with one size; the bound and the absence of residue must hold after every history.",
  [STREAM, WINDOW],
  [("capacity check before transmission", STREAM + ":try_send"), ("fragment room check", STREAM + ":try_send_fragmented"), ("receive bound", WINDOW + ":put")],
  [("window capacity", "maximum outstanding/buffered packets", WINDOW)],
  ["send results", "receive results", "packets passed to the send closures"])
p("R03", "Acknowledgements are truthful and unacknowledged packets keep being resent",
  "An acknowledgement never covers a packet the acknowledging endpoint has not received together with all its predecessors, and a packet is resent, whenever its retransmission time has passed, for as long as and only as long as it has not been covered by an acknowledgement. Every reception that the peer needs to hear about, including a duplicate of something already received, makes an acknowledgement due and it stays due until one has been transmitted. Consequently, once the network delivers again, every message sent is eventually delivered.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of sends, losses, duplicates, stale and forward acknowledgements, failing transmissions and timer ticks",
  "Tests exercise a few fixed timings; lost acknowledgements, failing transmissions while resending and re-acknowledgement of duplicates need arbitrary schedules.",
  [STREAM, WINDOW],
  [("cumulative acknowledgement processing", STREAM + ":receive_and_merge"), ("due-time scan", STREAM + ":try_resend"), ("ack-pending flag", STREAM + ":try_send_ack")],
  [("ack due", "an acknowledgement must be transmitted", STREAM), ("resend time", "earliest time a buffered packet is retransmitted", STREAM)],
  ["packets passed to the send closures", "receive results", "returned next-timeout values"])
p("R04", "A fragmented message is delivered whole, once, in order, or not at all",
  "A message sent as several fragments reaches the receiving application exactly once as the concatenation of its fragments in order, at its place among the other messages, regardless of how its fragments are lost, duplicated or reordered, and never partially. Fragment counts that the receive window cannot hold and fragments inconsistent with the message being reassembled are refused with an explicit error.",
  ["schedules", "fault_sequences", "inputs"],
  "every mix of plain and fragmented messages, every fragment count including malformed ones, and every delivery order",
  "Tests cover well-formed fragment trains in a few orders; interleavings with loss and malformed counts are unbounded.",
  [STREAM, MERGE, PROTO],
  [("fragment header on the first packet", STREAM + ":try_send_fragmented"), ("reassembly", STREAM + ":merge_packets"), ("merge buffer", MERGE), ("content concatenation", PROTO)],
  [("merge buffer", "fragments of the message being reassembled", MERGE)],
  ["values returned by receive_and_merge", "MergeBuffer results", "SfuToDevice/DeviceToSfu extension"])

# ------------------------------------------------------------------ frame encryption
p("E01", "Frames under any distributed sender key decrypt, despite reordering and rotation",
  "A receiver that has been given a sender's key recovers exactly the plaintext of every frame that sender encrypts from then on, in any order, with any loss or duplication, across ratchet advances of that key (including counter wrap-around) and across switches to other distributed keys, as long as the key is among the five most recently received of that sender and the frame is not further than the supported distance from what was last decrypted. Adding a newer key never prevents frames under a still-retained older key from being decrypted.",
  ["histories", "schedules", "inputs"],
  "every interleaving of encryption, ratchet advance, key replacement, key delivery and frame delivery between one sender and its receivers",
  "Tests use short fixed sequences; the case analysis over ratchet distance, wrap-around, out-of-order frames and several retained keys is combinatorial.",
  [CRYPTO],
  [("candidate key search by ratchet counter", CRYPTO + ":decrypt"), ("speculative ratchet advance", CRYPTO + ":try_advance_ratchet"), ("retained keys list", CRYPTO + ":add_receive_secret")],
  [("receive states", "up to five most recent keys per sender, newest first", CRYPTO)],
  ["result and buffer after decrypt"])
p("E02", "A frame that is not authentic is refused and changes nothing",
  "A frame whose ciphertext, frame counter, ratchet counter, tag or claimed sender differs in any way from what a known key holder produced is refused with an error; the buffer then still holds the original bytes, and the receiver goes on decrypting everything it would have decrypted had the frame never arrived.",
  ["inputs", "histories"],
  "every single alteration of every frame component at every point of every history of keys and frames",
  "Tests flip a few bytes in one context; state preservation after failed attempts must hold whatever the receive state.",
  [CRYPTO],
  [("tag verification before commit", CRYPTO + ":decrypt"), ("unknown sender", CRYPTO)],
  [("receive states", "keys and ratchet positions per sender", CRYPTO)],
  ["result, buffer and subsequent decryptions"])
p("E03", "A sender never encrypts two frames with the same key and counter",
  "For one sending context the frame counter strictly increases with every encrypted frame, starting above zero, and it is never reset or reused, neither by advancing the ratchet nor by switching to another key. Two frames are therefore never encrypted with the same keystream; new sender secrets are all different, in every byte as unpredictable as the generator they come from.",
  ["histories"],
  "every history of encryptions, ratchet advances and key resets",
  "Counter reuse is only visible across histories mixing encryption with rotations; tests check a fixed one.",
  [CRYPTO],
  [("frame counter increment", CRYPTO + ":encrypt"), ("advance/reset keep the counter", CRYPTO)],
  [("frame counter", "last counter used", CRYPTO)],
  ["counters returned by encrypt"])
p("E04", "Ratcheted sender keys are forward secret and old keys expire",
  "A key handed out at some ratchet position decrypts only frames of that position or later ones within the supported distance, and never frames produced before it; after five newer keys of the same sender have been received a key no longer decrypts anything. Announcing the current send key always pairs the secret with the ratchet position at which it is current, so a receiver given the announcement can decrypt the next frame.",
  ["histories", "schedules"],
  "every sequence of ratchet advances, key resets, announcements and frame deliveries",
  "Tests cannot enumerate all relative positions of key hand-out, ratchet and frames.",
  [CRYPTO],
  [("one-way ratchet", CRYPTO + ":advance_send_ratchet"), ("bounded list of receive keys", CRYPTO + ":add_receive_secret")],
  [("ratchet counter", "number of advances of the current key (modulo 256)", CRYPTO)],
  ["decrypt results", "send state accessor results"])
p("E05", "Decryption-failure reports tell the truth per sender",
  "Counting of undecryptable frames is kept per sender: a sender appears in a report exactly when it has had failures and none since the previous report, with the number and time span of its failures, and a reported sender starts from scratch afterwards. Successful decryptions never create a report entry.",
  ["histories"],
  "every interleaving of failures of several senders and report requests",
  "Tests use one or two senders in a fixed order.",
  [CRYPTO],
  [("error tracker", CRYPTO)], [], ["reports returned"])

# ------------------------------------------------------------------ actor
p("A01", "Actor tasks run one at a time, in order, never early and never after stop",
  "Tasks sent to an actor run one at a time in the order sent, each at most once and exactly once if the actor is not stopped; a delayed task runs once, never before its delay has elapsed, and never before another delayed task with an earlier deadline. Once a stop has been requested and observed no further task starts, a joining stop returns only after the running task finished, and asking twice is harmless.",
  ["schedules", "histories"],
  "every interleaving of senders, delayed sends, nested sends from inside tasks, and stop requests",
  "There is no test over concurrent schedules; ordering and stop races are schedule properties.",
  [ACTOR],
  [("single receiving thread", ACTOR), ("deadline heap", ACTOR), ("stop flag", ACTOR)],
  [("delayed tasks", "tasks whose deadline has not passed", ACTOR), ("stopped", "no more tasks may run", ACTOR)],
  ["task start/finish events", "stop calls"])

# ------------------------------------------------------------------ assets
p("D01", "Only verified asset content is ever registered",
  "Asset content becomes available under a group and version only if the manifest lists that asset in that group, and the content's leading part of the listed size has exactly the listed hash; what is then handed out is exactly that leading part. Disabled, unknown, short, altered or already registered content is refused with its own error and leaves the registry unchanged.",
  ["inputs", "histories"],
  "every manifest, every offered content and every order of registrations",
  "Tests register a few fixed assets; the property ranges over histories of acceptances and refusals.",
  [ASSETS, VERS],
  [("manifest lookup and digest check", ASSETS), ("registry insertion", ASSETS)],
  [("registry", "registered assets per group", ASSETS)],
  ["registration results", "lookups"])
p("D02", "Registered asset versions are listed once each in semantic-version order",
  "The versions available for an asset group are exactly those registered, each once, listed in semantic version order (numeric per component, not textual), and asking for a version returns that version's content or nothing. Registering or refusing anything in one group never affects another group.",
  ["inputs", "histories"],
  "every set of versions, order of registration and interleaving of groups",
  "The test registers two versions whose textual and numeric orders agree.",
  [ASSETS, VERS],
  [("ordering of registered assets", ASSETS), ("version parsing and ordering", VERS)],
  [("registry", "registered assets per group", ASSETS)],
  ["get_options_for / get results"])

# ------------------------------------------------------------------ locks, events
p("L01", "Shared call state is never read or written after a panic left it broken",
  "Holders of a lock on shared state exclude each other (readers may share). After a holder panicked, every later ordinary access is refused with an error naming the lock instead of exposing the possibly half-updated value, until it is explicitly reset; only an access that itself resets the value is granted then, and it sees the reset value. A reader's panic breaks nothing.",
  ["histories", "schedules"],
  "every interleaving of accesses, panics and resets over several threads",
  "No test panics while holding the lock and then uses every access path.",
  [MTX, RWL],
  [("poison mapping", MTX), ("poison mapping", RWL)], [], ["results of lock/read/write/lock_or_reset"])
p("L02", "An event stream delivers every event once, in order, and ends cleanly",
  "Events pushed by any number of producers are received each exactly once and in the order pushed; closing the stream still delivers what was pushed before and then reports the end, and pushing afterwards is refused or ignored, never delivered.",
  ["schedules", "histories"],
  "every interleaving of producers, consumer and close",
  "Only sequential use is tested.",
  [UTIL], [("event stream", UTIL)], [], ["values returned by the stream"])

# ------------------------------------------------------------------ http
p("H01", "Each HTTP response reaches exactly its own request's handler, once",
  "Requests handed to the application carry distinct identifiers, and a response or failure reported for an identifier is passed to the handler of that request and to no other, at most once; reports for unknown, finished or repeated identifiers have no effect.",
  ["histories", "schedules"],
  "every interleaving of requests, responses, failures and duplicate or unknown reports",
  "Tests do not interleave several outstanding requests with duplicates.",
  [HTTP], [("pending handler table", HTTP)],
  [("pending handlers", "requests not answered yet", HTTP)], ["handler invocations", "requests sent"])
p("H02", "Group-call server answers are classified exactly and completely",
  "For each request to the group-call server (peek, join), every combination of transport failure, status code and body leads to exactly one completion carrying exactly the outcome the protocol assigns to it: no call in progress, invalid or expired call link, access refused, full call, other error codes unchanged, or the parsed answer; a malformed success body is an error and never a partial result.",
  ["inputs"],
  "every status code, body and transport failure",
  "Tests sample a few codes; the classification table is larger than what they touch.",
  [HTTP, SFU], [("status classification", HTTP), ("peek/join answer handling", SFU)], [], ["completion values"])
p("H03", "Call-link operations are sent only when meaningful and authenticated right",
  "Reading, changing or deleting a call link with a malformed key, and creating with an unusable one, are answered locally with the documented status without contacting the server; otherwise exactly one request with the right method, path, authorisation and body is sent, and its answer is mapped to exactly the documented outcome.",
  ["inputs", "histories"],
  "every operation, key validity, field update combination and server answer",
  "Tests do not cover the operations against the server interface.",
  [CL, RK], [("key validity gate", CL), ("answer parsing", CL)], [], ["requests sent", "completion values"])
p("P01", "Group-call participants are resolved only to members, and consistently",
  "A participant listed by the server is attributed to a user only if that user's opaque identifier matches one of the members (or decrypts under the call link's key); otherwise it is kept as a participant of unknown identity. Device identifiers, counts, creator, era and pending participants are reported exactly as listed, whatever has been cached from earlier lookups.",
  ["inputs", "histories"],
  "every member list, participant list and history of lookups",
  "Tests use fixed lists and never fill the caches.",
  [SFU, MR], [("member map", SFU), ("resolver caches", MR)],
  [("resolver caches", "recently resolved identities", MR)], ["peek results", "resolver results"])

# ------------------------------------------------------------------ keys and encodings
p("K01", "Call-link keys have one text form and malformed ones are refused",
  "Every call-link root key formats to text that parses back to the same key, and that text is its only one: any text with a foreign character, a wrong length or a broken grouping is refused, and two keys never share a text. The room of a key is determined by the key alone, and a name sealed with a key is read back with that key only; a sealed name that was altered is refused.",
  ["inputs"],
  "every byte string and every text",
  "Tests parse a few literals.",
  [B16, RK], [("consonant base16 codec", B16), ("key validity", RK)], [], ["parse and format results"])
p("K02", "Only valid, unexpired endorsements are cached and handed out",
  "Group-send endorsements are accepted only if valid for the call link and unexpired, replacing nothing when refused; what is handed out for a set of members is only ever taken from a still valid set, complete for all of those members, and otherwise refused. Expired sets are dropped.",
  ["histories", "inputs"],
  "every history of received endorsement sets, membership and clock values",
  "Tests follow one update path.",
  [END], [("endorsement cache", END)],
  [("cache", "endorsements per expiration", END)], ["cache query results"])
p("K03", "Both ends of a 1:1 call derive the same, direction-separated media keys",
  "Whenever both ends complete key agreement from each other's public values and identities, the key each uses for sending is the key the other uses for receiving, the two directions differ, and a value of another secret, another identity or the other caller/callee order yields different keys, as does every other device or call. A public value that is degenerate or has the wrong length is refused.",
  ["inputs"],
  "every key pair, identity pair and substitution by an attacker",
  "Tests check one symmetric case.",
  [CONN], [("key derivation", CONN + ":negotiate_srtp_keys")], [], ["derived keys"])

# ------------------------------------------------------------------ signaling
p("S01", "Signaling messages survive the wire unchanged and nonsense is refused",
  "Every offer, answer, ICE message and hangup an endpoint can produce is understood by the receiving endpoint as the same message (kind, versioned parameters, device, candidates, removal lists); a message without usable parameters is recognised as such, and bytes that are not a well-formed message are refused with an error and never treated as some other message.",
  ["inputs"],
  "every message content and every malformed byte string",
  "Tests round-trip single examples.",
  [SIG, PROTO], [("encode/decode", SIG)], [], ["decoded messages"])
p("S02", "Outgoing signaling is sent one message at a time, in order, none lost or repeated",
  "The application is asked to send at most one signaling message at a time: the next one is requested only after the previous was reported sent or failed. Messages of a call go out in the order they arose, each exactly once and no candidate twice, and when the call ends only messages that still matter to the peer (hangup, busy) are kept. The start of a new call, and a reset, let messages flow again whatever was not reported.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of messages arising, sent reports, failures and call termination",
  "Tests acknowledge sends immediately in one order.",
  [CM], [("message queue", CM)], [("message queue", "messages not yet handed out", CM)], ["send requests to the platform"])
p("S03", "ICE candidates and hangups arriving before their offer are not lost or misapplied",
  "ICE candidates and a hangup that overtake the offer of the same call from the same user take effect once the offer arrives, as if they had arrived just after it; a hangup makes the late offer end at once with that hangup's reason. Such early messages of another call or user are never applied to the call, and only a bounded number is kept (of the newest call heard of).",
  ["schedules", "histories"],
  "every ordering of offer, ICE and hangup messages of several calls and users",
  "Tests deliver messages in order.",
  [CM], [("pending messages", CM)], [("pending messages", "messages kept for a not yet received offer", CM)], ["platform callbacks", "connection effects"])

# ------------------------------------------------------------------ 1:1 calls
p("C01", "A user is never in two calls at once",
  "At every moment at most one call, 1:1 or group, is active on a device. A 1:1 offer arriving meanwhile is answered with busy (unless it is the other half of a glare or a re-call by the same peer) and ends without disturbing the active call, placing or ringing another call is refused without disturbing it either, and after the active call has concluded a new one is always possible again.",
  ["histories", "schedules"],
  "every interleaving of outgoing calls, offers, group joins, endings and failures",
  "Tests cover pairwise cases in one order.",
  [CM, GC], [("busy flag and active call", CM)], [("busy", "a call exists or is being created", CM)], ["platform callbacks", "call/group API results"])
p("C02", "Every 1:1 call that starts ends exactly once and is concluded exactly once",
  "For every 1:1 call the application learns of, it is told exactly one end with exactly one reason, after which no further event of that call is reported, and exactly one conclusion after that; this holds for local and remote hangup, busy, drop, timeout, failure at any step, collision and expired offer. An application that resets the manager is told no end, but the conclusions; an offer that is refused is concluded without having started. Calls are told apart even if the peer uses a call identifier again.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of API calls, remote messages, network events, failures and timeouts",
  "Tests check a few scenarios and count a few events.",
  [CM, CALL, CFSM], [("terminate", CM), ("call state machine", CFSM)], [("call state", "life cycle stage of the call", CALL)], ["platform callbacks"])
p("C03", "Two users calling each other at once end up in the same one call",
  "When two devices call each other simultaneously, both decide from the two call identifiers which call survives, and they decide alike; the losing call ends on both sides with the glare reason and the surviving one continues. When the identifiers do not allow a decision both calls end on both sides.",
  ["schedules", "inputs"],
  "every pair of call identifiers, device identifiers and message crossing",
  "Tests fix one pair of identifiers and one order.",
  [CM], [("collision decision", CM)], [], ["platform callbacks on both sides"])
p("C04", "A call rung on many devices is settled on exactly one and silenced elsewhere",
  "When a callee's device accepts, declines, or is busy, every other device of the callee stops ringing with the matching 'elsewhere' reason, the caller stays in a call with at most that one device, and a device ignores echoes of its own settlement. A hangup without forking meaning ends the call as a plain remote hangup; once a device is connected hangups of others do not end it.",
  ["schedules", "histories"],
  "every number of devices, every order of their answers, settlements and message deliveries",
  "Tests simulate single settlements with one device.",
  [CALL, CFSM, CM], [("hangup handling", CALL), ("hangup propagation", CFSM)], [], ["platform callbacks and hangups sent"])
p("C05", "A call is reported connected only when accepted and media can flow",
  "Ringing is reported at most once per call and only after a connection path has existed; connected is reported only after the callee accepted and a connection path has existed, and media may flow only then. Loss of the path after that is reported as reconnecting, its return as reconnected, alternating, and a failed path ends the call.",
  ["schedules", "histories"],
  "every interleaving of connection state changes, acceptance, and remote messages",
  "Tests follow the happy path.",
  [CFSM, CNFSM, CONN], [("connection state machine", CNFSM), ("call state machine", CFSM)], [("connection state", "progress of the connection to one device", CONN)], ["platform callbacks", "media enabled"])
p("C06", "An unanswered call times out, an answered one never does, and stale offers never ring",
  "A call not connected in time ends with the timeout reason on both sides and sends a hangup; a call that is connected is never ended by that timer. An offer older than the limit is reported as missed, not rung.",
  ["schedules", "inputs"],
  "every age of offer and every interleaving of timer and connection events",
  "Tests use one age and do not race the timer.",
  [CM, CFSM], [("setup timer", CM), ("expiry check", CM)], [], ["platform callbacks"])
p("C07", "Peer status follows the newest report and is announced only on change",
  "The peer's microphone, camera and screen-sharing status as shown to the application always equals the most recent report by sequence order; older or repeated reports, in whatever order they arrive, change nothing, nothing is announced before the call is accepted, a report equal to the one before announces nothing, and a differing one announces what it says.",
  ["schedules", "histories"],
  "every order, duplication and loss of status reports relative to acceptance",
  "Tests send them in order.",
  [CONN, CNFSM], [("sequence check", CNFSM)], [("last status", "last applied remote status", CNFSM)], ["platform callbacks"])

p("C08", "A call given up locally stops ringing on the other side",
  "If the offer of a call was handed to the application for sending and the call then ends for a local reason (hangup, timeout, failure, glare), a hangup for it is handed over too; an offer, answer or candidate of a call is never handed over after the call has ended, however quickly the calls to the library follow one another.",
  ["histories", "schedules"],
  "every interleaving of placing, proceeding, ending, failures and message confirmations",
  "Tests wait for the library to become idle between calls to it.",
  [CM, CALL], [("message queue", CM), ("should_send_hangup", CALL)], [("did_send_offer", "whether the offer was handed over", CALL)], ["send requests to the platform"])
p("C09", "A concluded or refused call leaves nothing running",
  "After a call has concluded, including calls refused as busy, glared, expired or failed at any step, all threads started for it end: the number of threads of the process returns to what it was before.",
  ["histories", "schedules", "fault_sequences"],
  "every history of calls placed, offered, refused, failed and ended",
  "Tests do not count threads.",
  [CALL, CFSM, CNFSM], [("terminate", CALL), ("run", CFSM)], [], ["threads of the process"])

# ------------------------------------------------------------------ group calls
p("G01", "A group call joins, leaves and ends cleanly exactly once",
  "A group call client reports connection and join state changes only along the documented life cycle (joined or pending only after the server's answer, connected only after the media connection is), keeps the device engaged for other calls exactly from joining until it has left or ended, tells the members that it leaves, and after a connected client is disconnected, removed, refused or loses its connection for good it reports its end exactly once with the reason, and nothing afterwards.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of API calls, server answers, peeks, network events and removals",
  "Tests follow scripted orders.",
  [GC], [("join state machine", GC), ("busy handling", GC)], [("join state", "", GC), ("connection state", "", GC)], ["observer callbacks", "server client calls"])
p("G02", "After someone leaves, frames use a key they never had",
  "When a user's last device has left a group call the client has joined, every user with a device remaining in it and no one else is sent a fresh media key, and after the changeover delay (3 s) all frames are encrypted with a key that no user outside the call at that time was ever sent. Departures during a changeover are covered by one further change after it, never skipped.",
  ["histories", "schedules"],
  "every sequence of joins and leaves relative to the changeover delay",
  "Tests use one or two leaves with fixed timing.",
  [GC, CRYPTO], [("rotation state", GC)], [("rotation", "pending key changeover", GC)], ["key messages sent", "frames encrypted"])
p("G03", "Whoever joins gets a key for the present and the future, not for the past",
  "Each user with a newly joined device is sent the key material it needs, at a ratchet position newer than any frame encrypted before the join, including the key of a changeover in progress, so that everyone in the call can decrypt every frame sent from then on; users already present are not sent anything needlessly, and users who are not in the call are never sent keys.",
  ["histories", "schedules"],
  "every sequence of joins, leaves and membership changes",
  "Tests use fixed small groups.",
  [GC, CRYPTO], [("advance and send", GC)], [], ["key messages sent", "frames encrypted"])
p("G04", "A received media key is used only for the device and user it belongs to",
  "A media key message takes effect only for a device that is in the call and belongs to the user who sent it; one for a device not yet known is kept and takes effect once that device is seen with the right user, and otherwise never. Malformed keys are ignored.",
  ["schedules", "histories", "inputs"],
  "every order of key messages and participant updates, including forged user/device combinations",
  "Tests cover one early key.",
  [GC], [("pending keys", GC)], [("pending keys", "keys for devices not yet seen", GC)], ["decrypt results"])
p("G05", "Participant status and mute requests follow the newest authentic report",
  "A participant's audio, video, presenting and sharing status shown to the application follows its newest authentic status report only, older ones never override it; the client's own status is sent in periodic reports and at once when it changes; a remote mute request aimed at this device is reported with its requester, one this device made is confirmed only if the target then reports itself muted by it, and none is reported for anyone else.",
  ["schedules", "histories"],
  "every order of status reports and mute requests of several participants",
  "Tests send them in order.",
  [GC], [("heartbeat processing", GC), ("mute request rules", GC)], [], ["observer callbacks", "heartbeats sent"])
p("G06", "Raised hands and reactions are conveyed faithfully",
  "The list of raised hands shown follows the server's statements in the order the server sent them, each one delivered reliably, except that statements older than one's own outstanding change do not settle it and it is resent until the server confirms it; each valid reaction of a participant is delivered once and in order, malformed or undecryptable ones never.",
  ["schedules", "histories"],
  "every order, loss and duplication of server statements and local changes",
  "Tests follow one order.",
  [GC], [("raise-hand sequence number", GC), ("reaction batching", GC)], [], ["observer callbacks", "messages sent"])
p("G07", "Bandwidth and video requests reflect the current situation",
  "Send bitrates always follow the number of remote devices, screen sharing and overrides as documented and each change is reported once, and the resolutions requested from the server are the application's latest wishes, limited to devices in the call, sent promptly on demand (once per period) and repeated periodically.",
  ["histories"],
  "every sequence of participant changes, sharing changes and requests",
  "Tests sample a few counts.",
  [GC], [("send rates", GC), ("video requests", GC)], [], ["server messages", "peer connection settings"])
p("G08", "Participant lists converge to the server's latest answer without flooding",
  "While a participant query is unanswered within its time limit no other is sent; a hint that the list may have changed meanwhile leads to one more query afterwards, an answer is shown to the application exactly when members, call or pending users differ from the last, participants change in step with it, and queries without a reason to ask stay within the documented rate.",
  ["schedules", "fault_sequences"],
  "every interleaving of hints, answers, failures and timer ticks",
  "Tests do not race hints with answers.",
  [GC], [("peek state", GC)], [], ["server queries", "observer callbacks"])
p("G09", "A group ring rings once, only when it may, and is cancelled correctly",
  "A ring for a group call is reported to the application as requested only when its message is not older than the ring time (60 s) and no call is active; when a call is active it is reported as busy and the user's other devices are told so. After that it is settled only by its own sender withdrawing it, by a response of one of the user's own other devices, by the local application (decline, or joining that group, which accepts exactly that group's latest unsettled, unexpired ring once and tells the other devices), or by time, and each of these is reported with its own reason; a ring the application cancelled or that was settled before is not reported as ringing. Messages of other users about it and malformed messages have no effect.",
  ["schedules", "histories", "inputs"],
  "every order of ring intentions, cancellations, responses, and call states with several groups and senders",
  "Tests use one ring at a time.",
  [CM], [("outstanding rings", CM)], [("outstanding rings", "rings not settled yet", CM)], ["platform ring updates", "ring responses sent"])
p("G10", "Call-link admission decisions apply to the intended participants only",
  "Pending participants are reported exactly as listed, each admission or removal decision names exactly the chosen participant and reaches the server once, numbered in order, none is sent for a user who is not waiting, and a client that is itself pending, denied or removed is told so exactly once and with that reason.",
  ["histories", "schedules"],
  "every sequence of pending lists, decisions and removals",
  "Tests check single decisions.",
  [GC], [("approval handling", GC)], [], ["server messages", "observer callbacks"])

# ------------------------------------------------------------------ simulated network, audio devices
p("N01", "The simulated network delivers only to the addressee, within its configured limits",
  "A packet sent into the simulated network reaches exactly the endpoint registered for its destination address, unaltered, or is lost by configured loss or queue overflow; with no loss configured and no overflow it always arrives, not before the configured minimum delay, and within the configured rate. Packets to unknown addresses vanish. Addresses cross the boundary to the media library unchanged.",
  ["schedules", "inputs", "configurations"],
  "every topology, packet sequence and link configuration",
  "There are no tests of the network.",
  [SIMNET], [("router and links", SIMNET)], [], ["packets received per endpoint"])
p("U01", "Audio devices are enumerated consistently with their indices",
  "The number of usable devices, the device returned for each index, and names and identifiers copied out always agree with each other and with the order and filtering rules; an index outside the range is refused and no name is written beyond its buffer.",
  ["inputs"],
  "every list of devices and every index",
  "Tests sample two lists.",
  [ADMU], [("device collection", ADMU)], [], ["count/get/extract results"])

p("X01", "Addresses, passwords and device names never reach public logs",
  "Of a text redacted for public logs, no IPv4 or IPv6 address in any documented form, no ICE password line and no candidate foundation stays readable, wherever it stands and however many there are, and everything else is unchanged. Of an audio device name only the first four characters (the first one if it is not plain ASCII) are shown, wherever the audio backend mentions one.",
  ["inputs"],
  "every text with secrets in every notation, position and combination, and every device name",
  "Tests redact single examples; the regular expressions accept far more texts.",
  [UTIL, ADMU], [("redact_string", UTIL), ("redact_by_regex", ADMU)], [], ["redacted text", "lines logged"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
