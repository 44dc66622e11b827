#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py  (rewrites both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

NOTEST = "No existing test opens a session or moves a byte over a flow; the protocol core is only exercised by hand-run example programs on a good network."

prop("C01", "Reliable flows deliver every message once, intact, in the order written",
 "On a flow whose messages are never abandoned, and whose receiver uses original-queuing-order delivery, the receiving application gets exactly the sequence of messages that was written: same bytes, same order, none missing, none twice, with strictly increasing sequence numbers and a truthful fragment count. This holds whatever packets the network loses, duplicates, delays or reorders in either direction, for every message size (including empty and many-fragment messages), for messages written before the session opens, and for any number of flows sharing the session. Once the network stops losing packets, every written message is delivered without any further action by the application.",
 ["schedules", "fault_sequences", "inputs"], "all patterns of up to K packet losses/duplications/delays/reorderings (and all loss patterns over a window of packets), over several multi-flow message scripts",
 NOTEST + " Loss, duplication and reordering are never injected.",
 ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp", "src/Interface.cpp", "src/RTMFP.cpp", "src/IndexSet.cpp"],
 [("fragmentation and sequence numbering", "src/SendFlow.cpp basicWrite/assembleData"), ("selective acknowledgement", "src/RecvFlow.cpp assembleAck; src/SendFlow.cpp ackRange/onAck"),
  ("negative-ack and timeout loss recovery", "src/Session.cpp onPacketAfterChunks/onTimeoutAlarm"), ("in-order reassembly", "src/RecvFlow.cpp insertFragment/tryDelivery/deliverMessage")],
 ["RecvFlow::onMessage", "RecvFlow::onComplete"],
 [("send queue", "unacknowledged fragments in order", "SendFlow"), ("received sequence set / reassembly buffer", "what has arrived and what waits for delivery", "RecvFlow")])

prop("C02", "Arrival-order delivery hands over each message once, complete, as it completes",
 "A receiver that chose network-arrival-order delivery gets every non-abandoned message exactly once, complete and byte-identical, no later than the arrival of its last missing fragment, never a partial or merged message, whatever the order in which fragments arrive (a message already complete when the mode is chosen: no later than when everything before it has arrived). The sequence number reported with a message is that of its first fragment and the fragment count is truthful, so that sorting by sequence number restores the original order. While in this mode, the gap-closed notification fires exactly when arrivals close a gap and advance the cumulative acknowledgement, and at that point everything up to the cumulative acknowledgement has been handed over.",
 ["schedules", "fault_sequences", "inputs"], "all permutations of small fragment sets delivered to a receiving flow, and all patterns of up to K packet faults over end-to-end transfers, with delivery mode switches at any point",
 NOTEST, ["src/RecvFlow.cpp", "src/IndexSet.cpp", "src/Session.cpp"],
 [("segment stitching", "src/RecvFlow.cpp insertFragment"), ("hinted delivery", "src/RecvFlow.cpp tryDelivery"), ("gap merge callback", "src/RecvFlow.cpp onData")],
 ["RecvFlow::onMessage", "RecvFlow::onCumulativeAckDidMerge", "RecvFlow::getCumulativeAckSequenceNumber"])

prop("C03", "Abandoned messages never block, truncate, reorder or corrupt the others",
 "When messages are abandoned (explicitly, by deadline, through a parent message, or because they were marked not to be retransmitted), every message that is not abandoned is still delivered exactly once, intact, and in order; an abandoned message is either delivered whole and intact in its place or not at all. Skipping abandoned messages is always eventually possible: no pattern of loss leaves the receiver or the sender stuck behind one, and the flow still closes cleanly.",
 ["schedules", "fault_sequences", "histories"], "all choices of which messages are abandoned and when (before or after first transmission), combined with all patterns of up to K packet losses/reorderings",
 NOTEST, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/WriteReceipt.cpp", "src/Session.cpp"],
 [("abandon flag and forward sequence number", "src/SendFlow.cpp assembleData/findForwardSequenceNumber/trimSendQueue"), ("skip on receive", "src/RecvFlow.cpp onData/tryDelivery")],
 ["RecvFlow::onMessage", "RecvFlow::onComplete", "WriteReceipt::onFinished"])

prop("C04", "Write receipts tell the truth and finish exactly once",
 "The finish callback of a write receipt fires exactly once, with 'not abandoned' only if every fragment of that message was received by the far end, and with 'abandoned' otherwise; the started, delivered, abandoned and finished queries agree with it at all times. A message whose start deadline passes before any part was sent is never transmitted, one whose finish deadline passes is not (re)transmitted any further, a message whose parent was abandoned is abandoned before it is next transmitted, and a message marked not to be retransmitted has each fragment's data sent at most once. Chained receipts expire together and deadlines are only ever tightened by expiring a chain.",
 ["schedules", "fault_sequences", "histories"], "all patterns of up to K packet faults combined with all placements of deadlines/abandon calls, plus all receipt/chain operation sequences up to a depth against a reference model",
 "There is no test of write receipts at all, and their truthfulness depends on which acknowledgements are lost.",
 ["src/WriteReceipt.cpp", "src/SendFlow.cpp", "include/rtmfp/WriteReceipt.hpp"],
 [("use counting", "src/WriteReceipt.cpp IssuerWriteReceipt"), ("deadline evaluation", "src/WriteReceipt.cpp abandonIfNeeded"), ("ack accounting", "src/SendFlow.cpp ackRange")],
 ["WriteReceipt::onFinished", "WriteReceipt::isDelivered/isAbandoned/isFinished/isStarted", "USERDATA chunks on the wire"])

prop("C05", "Flow end and flow rejection are signalled exactly once and never early",
 "When the sender closes a flow on which it wrote something, the receiver is told of clean completion exactly once, after every deliverable message; when the receiver rejects a flow (or declines to accept it) the sender is told exactly once with the receiver's reason code, even if packets are lost (at the latest when anything it sends afterwards is answered). A flow not accepted in its arrival callback gets no message, a closed flow gets no further callbacks at either end and refuses further writes, and closing or rejecting one flow does not disturb any other flow of the session. Return flows are associated with the flow they answer: they are offered only to that flow's handler and name it, and an association with a closed or unknown flow is rejected.",
 ["schedules", "fault_sequences", "histories"], "all placements of close/reject/accept decisions in a transfer, with all patterns of up to K packet faults",
 NOTEST, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp", "src/Flow.cpp"],
 [("final sequence number", "src/SendFlow.cpp close; src/RecvFlow.cpp onData"), ("exception chunk", "src/RecvFlow.cpp assembleAck; src/SendFlow.cpp onExceptionReport"), ("return association", "src/Session.cpp onUserData")],
 ["RecvFlow::onComplete", "SendFlow::onException", "SendFlow::onRecvFlow", "RTMFP::onRecvFlow"])

prop("C06", "Flow control: senders respect the receiver's buffer and never stall forever",
 "The amount of unacknowledged data a sender keeps in flight on a flow never exceeds the receive window most recently advertised to it by more than the one packet that was being filled, and each advertisement truthfully reflects the receiver's free buffer (rounded up to a whole block), its window limit, and zero only when delivery is suspended or the application set a zero capacity or limit. A receiver that suspends delivery therefore holds at most its buffer capacity of message data plus one block and one packet while acknowledgements arrive in order, and when delivery resumes or the buffer is enlarged the transfer continues even if every window update in between was lost, by probing a zero window with exponentially increasing intervals.",
 ["schedules", "fault_sequences", "configurations"], "all combinations of receive buffer sizes, window limits, suspend/resume points and up to K packet faults",
 NOTEST, ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp"],
 [("window check", "src/SendFlow.cpp assembleData/isMaybeReadyForTransmission"), ("advertisement", "src/RecvFlow.cpp assembleAck"), ("persist timer and buffer probe", "src/SendFlow.cpp setPersistTimer/onPersistTimer; src/Session.cpp onBufferProbe")],
 ["RecvFlow::getBufferedSize", "SendFlow::getOutstandingBytes/getRecvBufferBytesAvailable", "ACK and BUFFERPROBE chunks on the wire"])

prop("C07", "Congestion control: bounded flight, packet size limit, back-off and ECN response",
 "Data a session has in flight never exceeds its congestion window by more than one packet, no session packet's cleartext exceeds 1200 bytes, and the window never falls below the two-segment timeout floor. Data is sent again only after three later acknowledgements have passed it over or after the retransmission timeout (which is at least 250 ms and backs off by about the square root of two up to ten seconds while nothing is acknowledged); loss or a reported congestion-experienced mark never makes the window larger than it was or than its initial three segments, and each receiver echoes the count of congestion marks it saw. In-flight accounting returns to exactly zero once everything is acknowledged, so a session can always send again.",
 ["schedules", "fault_sequences"], "all patterns of up to K losses/duplications/reorderings/congestion marks in a bulk transfer, checked on every packet",
 NOTEST, ["src/Session.cpp", "src/SendFlow.cpp"],
 [("congestion window update", "src/Session.cpp updateCWND/onPacketAfterChunks"), ("timeout", "src/Session.cpp onTimeoutAlarm/rescheduleTimeoutAlarm"), ("ECN", "src/Session.cpp onEcnReportChunk/assembleEcnReport"), ("outstanding accounting", "src/SendFlow.cpp assembleData/ackRange/onLoss")],
 ["SendFlow::getOutstandingBytes", "Flow::getCongestionWindow", "packets on the wire"])

prop("C08", "Session establishment survives any loss, duplication or reordering",
 "Opening a flow to a reachable endpoint establishes exactly one session per endpoint pair, whatever handshake packets are lost, duplicated, delayed, reordered or re-addressed by a NAT on the way, and whatever order asynchronous crypto work completes in. Both ends then agree on each other's identity and on the two session nonces, every flow opened meanwhile to that endpoint is bound to that one session with its queued messages delivered, and session traffic that overtakes the end of the handshake is not lost. If the endpoint cannot be reached or does not prove that it is the endpoint asked for, no session opens and the opening flow gets its exception exactly once within about 95 seconds, while an attempt whose last flow is gone before keying starts stops at once.",
 ["schedules", "fault_sequences", "inputs"], "all patterns of up to K faults on the first packets of the handshake, candidate address sets, and completion orders of asynchronous crypto tasks",
 NOTEST, ["src/RTMFP.cpp", "src/Session.cpp", "src/SendFlow.cpp"],
 [("initiator state machine", "src/Session.cpp initiateToEPD/onRHello/startIIKeying/onRIKeying/onCookieChange"), ("responder", "src/RTMFP.cpp onIHello/onIIKeying/tryRIKeyingRetransmit"), ("early packets", "src/Session.cpp replayEarlyPackets"), ("flow binding", "src/SendFlow.cpp onSessionDidOpen/onSessionWillOpen")],
 ["RecvFlow::onMessage", "SendFlow::isWritable/onException", "Flow::getNearNonce/getFarNonce/getFarCanonicalEPD"])

prop("C09", "Simultaneous opens and restarts resolve to one usable session",
 "When two endpoints open flows to each other at the same time, in any relative timing and with any handshake packets lost or delayed, they end with both directions' flows usable and all queued messages delivered, sharing one session as far as both ends are concerned (short of a keying packet so late that it arrives after the receiver's own session with its sender opened, which means a restart). When an endpoint restarts and opens again from the same address with the same identity, the stale session is replaced, its flows are told once, and the new flows work; an endpoint with a different identity at that address does not displace the existing session.",
 ["schedules", "fault_sequences", "configurations"], "all relative start offsets from a grid, both glare outcomes, and all patterns of up to K packet faults",
 NOTEST, ["src/RTMFP.cpp", "src/Session.cpp"],
 [("glare resolution and override", "src/RTMFP.cpp onIIKeying"), ("opening-session merge", "src/RTMFP.cpp onSessionDidOpen; src/Session.cpp onRHello")],
 ["RecvFlow::onMessage", "SendFlow::onException"])

prop("C10", "Off-path and forged packets cannot create, hijack or disturb sessions",
 "A responder keeps no state and opens no session for an initiator until it gets back, from the same address, a cookie it issued at most 95 seconds ago, together with an acceptable certificate and a valid signature; a cookie returned from another address only earns a replacement cookie sent to that address. A forged, replayed or altered hello, redirect, keying, ping, data or close packet sent by anyone without the session's key (wrong tag, cookie, certificate, signature, key or session number) never opens a session to a wrong identity, never changes the state of an existing session or its flows, and never moves its traffic to another address (except that an observer of the hello may spoil that one opening attempt, and that an exact copy of a peer's own keying packet within its cookie's lifetime and from its address means a restart).",
 ["inputs", "histories", "fault_sequences"], "all injections of up to K attacker packets (every captured packet replayed from another address, every single-field alteration of handshake packets, forged packets of every type) at every point of a session's life",
 NOTEST, ["src/RTMFP.cpp", "src/Session.cpp"],
 [("cookies", "src/RTMFP.cpp makeCookie/checkCookie/sendCookieChange"), ("tag matching", "src/RTMFP.cpp findOpeningSessionByTag"), ("signature and certificate checks", "src/RTMFP.cpp onIIKeying; src/Session.cpp onRHello/onRIKeying"), ("role and mode checks", "src/Session.cpp onPacketHeader/onChunk")],
 ["packets on the wire", "RTMFP::onRecvFlow", "Flow callbacks"])

prop("C11", "Closing sessions and shutting down always terminate and notify exactly once",
 "Closing a session (orderly or by shutdown, immediate or not, at either end, at any moment of its life including during the handshake, and by both ends at once) gives every open flow of that session at that end exactly one failure notification and no later callback, reaches the peer unless its packets are lost, and finishes in bounded time even if the peer is gone. After a shutdown no new flow or session opens, and shutdown completion is reported exactly once, after every session of the instance has ended: within 95 seconds for an orderly shutdown and promptly for an immediate one.",
 ["schedules", "fault_sequences", "histories"], "all placements of close/shutdown calls at either end over the life of a session, with all patterns of up to K packet faults including a dead peer",
 NOTEST, ["src/Session.cpp", "src/RTMFP.cpp", "src/SendFlow.cpp", "src/RecvFlow.cpp"],
 [("close state machine", "src/Session.cpp close/setNearclose/setFarcloseLinger/onCloseChunk/onCloseAckChunk/abort"), ("shutdown", "src/RTMFP.cpp shutdown/checkShutdownComplete")],
 ["SendFlow::onException", "RecvFlow::onComplete", "IPlatformAdapter::onShutdownComplete"])

prop("C12", "Dead peers are detected, idle sessions closed, live ones kept",
 "If the peer stops answering while data or a keepalive is outstanding, the session is closed and its flows notified once the retransmit limit has elapsed without any acknowledgement, not before it and at the first retransmission timeout after it (each transmission of new data restarts that timeout); any acknowledgement or ping reply restarts that clock. A session with nothing in flight that has sent nothing for the keepalive period sends a keepalive; a session that has had no flows for the idle limit closes, one that has flows never closes for idleness; limits below one second are treated as one second and changing a limit takes effect on the running session.",
 ["schedules", "fault_sequences", "configurations"], "all combinations of limit settings, outage start points and outage lengths from a grid, with up to K extra packet faults",
 NOTEST, ["src/Session.cpp", "src/RTMFP.cpp"],
 [("timeout and retransmit deadline", "src/Session.cpp rescheduleTimeoutAlarm/onTimeoutAlarm"), ("keepalive", "src/Session.cpp onKeepaliveAlarm/sendKeepalivePing"), ("idle", "src/Session.cpp onIdleAlarm/setIdleLimit")],
 ["SendFlow::onException", "RecvFlow::onComplete", "PING/CLOSE chunks on the wire"])

prop("C13", "A session follows its peer to a new address only after verifying it",
 "When a peer's address changes (even repeatedly, even with packets lost), the session continues: traffic moves to the new address, the application's address-change callback fires on its flows, and no message is lost, duplicated or reordered. Traffic is redirected only to an address that has itself answered a fresh verification probe sent to that address: replayed or stale replies, replies arriving from a different address than the one probed, or packets merely relayed from elsewhere never move it, and probes go out at most about once per second.",
 ["schedules", "fault_sequences"], "all change points of the peer's address over a transfer, one or two changes, replays of any captured packet from any address, with up to K packet faults",
 NOTEST, ["src/Session.cpp", "src/RTMFP.cpp"],
 [("mobility check ping", "src/Session.cpp makeMobilityCheck/sendMobilityCheck/onMobilityCheckReply/onPacketAfterChunks"), ("address index", "src/RTMFP.cpp onSessionAddressDidChange")],
 ["Flow::getFarAddress", "Flow::onFarAddressDidChange", "destination of packets on the wire"])

prop("C14", "No received packet can crash the stack or corrupt memory",
 "No datagram, from anyone, and no sequence of chunks from a session peer, however malformed, truncated, oversized, duplicated or out of place, makes the library crash, hang, throw out of packet processing, read or write out of bounds or allocate without bound. A chunk that cannot be parsed is ignored without affecting later chunks or packets, and other flows and sessions keep working.",
 ["inputs", "histories"], "every truncation and every single-byte mutation of every chunk type in every session state, every sequence of crafted chunks up to a length from an alphabet of valid and hostile chunks",
 "The unit tests never feed a packet to a session; no fuzzing or malformed input is present.",
 ["src/RTMFP.cpp", "src/Session.cpp", "src/RecvFlow.cpp", "src/SendFlow.cpp", "src/VLU.cpp", "src/PacketAssembler.cpp"],
 [("bounds-checked parsing", "src/Session.cpp on*Chunk; src/VLU.cpp"), ("length checks", "src/Session.cpp ISession::onReceivePacket")],
 ["process survival under memory and UB sanitizers", "Flow callbacks"])

prop("C15", "Reassembly delivers exactly the well-formed messages for every fragment stream",
 "For every stream of fragments a session peer can send (any sequence numbers, any begin/middle/end/whole marks, abandoned or final marks, any forward sequence number, in any order, repeated or conflicting), the receiving application is given precisely the messages formed by a begin, consecutive middles and an end (or a whole fragment), each at most once, never a concatenation across message boundaries, with in-order delivery in original-order mode. Arrival of any such stream never throws or crashes, acknowledgements report exactly the sequence numbers that arrived or were declared as not coming, and the buffered-size accounting equals what is actually held.",
 ["inputs", "schedules"], "all sequences of up to N fragments over a small alphabet of sequence numbers and marks in both delivery modes, compared step by step with a reference reassembler",
 NOTEST + " A conforming sender never produces most of these streams.",
 ["src/RecvFlow.cpp", "src/IndexSet.cpp"],
 [("segment stitching", "src/RecvFlow.cpp insertFragment"), ("delivery", "src/RecvFlow.cpp tryDelivery/deliverMessage"), ("ack assembly", "src/RecvFlow.cpp assembleAck")],
 ["RecvFlow::onMessage", "RecvFlow::getBufferedSize", "ACK chunks on the wire"])

prop("C16", "Any API call may be made from inside any callback",
 "From inside any flow, session, receipt, timer or instance callback, the application may write, close, abandon, open further flows, close the session, change settings or shut the instance down without crashing, touching freed memory, hanging or losing other notifications. After a close made inside a callback no further callback of that flow fires.",
 ["histories", "schedules"], "every pair of callback and API action (and every pair of such pairs), in live transfers with loss and abandonment",
 NOTEST + " Re-entrancy is never exercised.",
 ["src/SendFlow.cpp", "src/RecvFlow.cpp", "src/Session.cpp", "src/RTMFP.cpp", "src/WriteReceipt.cpp", "src/Timer.cpp"],
 [("self-retention and callback swapping", "src/RecvFlow.cpp closeAndNotify; src/SendFlow.cpp onExceptionReport"), ("safe iteration", "include/rtmfp/List.hpp safeValuesDo")],
 ["process survival under memory and UB sanitizers", "callback trace"])

prop("C17", "Flash-profile session packets are authentic, fresh, and bound to their session",
 "Two endpoints using the Flash Communication profile, in every combination of supported and required options (message authentication and its lengths, session sequence numbers, static or ephemeral keys, Diffie-Hellman groups), agree on one set of keys and options as RFC 7425 section 4 defines or fail to open, an unacceptable keying component or unsafe public key is refused and changes nothing, and once the keys are set nothing the other side or anyone else sends replaces them. Every packet of every length that one side then encrypts is decrypted to the same bytes by the other (with sequence numbers, exactly once and tolerating reordering by less than 32 packets); any altered, truncated, reflected or foreign-session packet is refused when authentication is in use, and any replay when sequence numbers are. Refusing a packet never prevents later genuine packets from being accepted.",
 ["inputs", "configurations", "histories"], "all option combinations, all packet lengths up to a bound, all single-bit alterations of sample packets, all arrival orders (with repetition) of small packet sets",
 "The crypto adapters have no tests.",
 ["src/FlashCryptoAdapter.cpp", "src/FlashCryptoAdapter_OpenSSL.cpp"],
 [("encrypt/decrypt, HMAC, SSEQ window", "src/FlashCryptoAdapter.cpp FlashCryptoKey"), ("option negotiation", "src/FlashCryptoAdapter.cpp generate/combine keying components")],
 ["SessionCryptoKey::encrypt/decrypt", "generate/combine keying component results"])

prop("C18", "Endpoint discriminators select exactly the endpoints they describe",
 "A Flash-profile endpoint or certificate is selected by a discriminator if and only if the discriminator is well formed and names its fingerprint or, absent a fingerprint, names its hostname (if it names one) and is addressed to a server that takes the ancillary data (if it has any); a discriminator with none of these, a malformed one, or a malformed or ambiguous certificate selects nothing. A certificate's canonical discriminator always selects that certificate and no other identity, and a certificate replaces another's session only if it is the same certificate. A flow opened with a discriminator only ever reaches an endpoint it selects, and exactly one of two endpoints with different certificates wins glare.",
 ["inputs", "configurations"], "all discriminators built from up to N options from an alphabet of matching, non-matching, duplicate and malformed options, against all certificates of a set, compared with a reference predicate; every truncation",
 "The crypto adapters have no tests.",
 ["src/FlashCryptoAdapter.cpp"],
 [("EPD parsing and matching", "src/FlashCryptoAdapter.cpp EPDParseState/FlashCryptoCert"), ("glare", "src/FlashCryptoAdapter.cpp checkNearWinsGlare")],
 ["ICryptoAdapter::isSelectedByEPD", "CryptoCert::isSelectedByEPD/getCanonicalEPD/doesCertOverrideSession"])

prop("C19", "Timers fire in order, never early, never after cancel, at the right recurrence",
 "A timer's action runs once for each time it comes due and never before; when several are due they run in order of due time (ties in any order); a canceled timer never runs again, even when canceled by another action of the same pass or by its own; a rescheduled timer runs at its new time only. A recurring timer that falls behind skips or catches up according to its setting without drifting from its phase, the reported time to sleep is exactly the time to the next due timer (bounded by the given limits), the sleep-changed notification comes whenever a timer becomes the earliest outside a firing pass, and a timer that has ended keeps nothing alive.",
 ["histories", "schedules"], "all sequences of schedule/cancel/reschedule/set-interval/advance operations up to a depth, with all small programs of actions performed inside actions, against a reference model",
 "There is no test of timers beyond their incidental use in example programs.",
 ["src/Timer.cpp", "include/rtmfp/Timer.hpp"],
 [("timer list", "src/Timer.cpp TimerList"), ("recurrence", "src/Timer.cpp Timer::basicFire")],
 ["Timer::action invocations", "TimerList::howLongToNextFire", "TimerList::onHowLongToSleepDidChange"])

prop("C20", "Run loops dispatch exactly the registered, ready work, in order",
 "In every run-loop implementation, a descriptor's callback is invoked when and only when it is registered for a condition and that condition holds, and never after it was unregistered or replaced, even if that happened earlier in the same cycle; deferred tasks run exactly once, in submission order, before the loop next sleeps (those deferred by timers or the every-cycle callback no later than the next turn), and timers run when due. Stopping ends the run with no further descriptor callback or deferred task, keeps what is pending for the next run, and all implementations behave identically (conditions other than readable and writable, which each system reports its own way, are excluded).",
 ["histories", "schedules", "configurations"], "all programs of register/unregister/defer/schedule/stop operations up to a depth, executed from outside and from inside callbacks, on real descriptors, against a reference model, for both implementations",
 "No test drives a run loop except incidentally.",
 ["src/RunLoop.cpp", "src/SelectRunLoop.cpp", "src/EPollRunLoop.cpp"],
 [("dispatch", "src/SelectRunLoop.cpp run; src/EPollRunLoop.cpp run"), ("deferred tasks", "src/RunLoop.cpp doLater/processDoLaters")],
 ["callback trace"])

prop("C21", "Tasks handed to a run loop thread run once, there, in order, with no lost wakeup",
 "A task submitted from any thread runs exactly once, on the run loop's thread, and tasks submitted by one thread run in the order submitted, whatever the interleaving of submitters, the run loop and a concurrent close; the run loop is always woken for it. A submitter that asked to wait resumes only after its task ran (or the performer was closed), never deadlocks, and after close, which the run loop's thread calls, no further task runs and submissions are refused.",
 ["schedules"], "all interleavings (up to a preemption bound) of submitter threads, the run loop thread and a closing thread at every synchronisation operation of the real code",
 "testperform runs one free-running schedule.",
 ["src/Performer.cpp", "src/PerformerPosixPlatformAdapter.cpp", "include/rtmfp/Performer.hpp"],
 [("queue, pipe signal, waiters", "src/Performer.cpp")],
 ["task trace", "return of perform()"])

prop("C22", "Index sets behave as mathematical sets of integers",
 "After any sequence of additions, removals, copies and bulk operations, an index set contains exactly the integers that a mathematical set would, its ranges are disjoint, non-adjacent, ascending and minimal in number, and every query (membership, counts, sizes, first and last range, iteration over members or ranges, boolean tests) agrees with that set, up to and including the largest representable integer. Mutating through one copy never affects another, and iteration stops exactly when asked to.",
 ["histories", "inputs"], "every reachable state of an index set over a small universe (and over windows at the top of the integer range) under every operation, compared with a reference set",
 "The index set, which decides what is acknowledged and what is a replay, has no unit test.",
 ["src/IndexSet.cpp", "include/rtmfp/IndexSet.hpp"],
 [("range list maintenance", "src/IndexSet.cpp")], ["IndexSet public queries"])

prop("C23", "Named lists keep stable names, order and sums under every mutation",
 "Each element of a list keeps its name until it is removed, names in use are distinct, and forward and backward traversal, positions, lookups and sizes agree with the sequence of operations performed, including moves, rotations and insertion relative to a name. Operations on absent names change nothing (lookups that must return an element throw); iteration that tolerates mutation visits each element present throughout exactly once, and a summing list's sum always equals the sum over its current elements (a summing list's values being replaced only through its operations).",
 ["histories"], "every sequence of list operations up to a depth (and every mutation during every iteration step) against a reference sequence",
 "testlist checks a handful of calls.",
 ["include/rtmfp/List.hpp"], [("list node table", "include/rtmfp/List.hpp")], ["List/SumList public queries"])

prop("C24", "Reorder buffers release items once, in order, no earlier than allowed",
 "A reorder buffer delivers every inserted item exactly once (marking those that arrive late), in sequence order except for items that arrive after their place has already been passed, and no item is held past the end of the configured window nor released early while a gap before it may still be filled. Flushing delivers everything still held in order, and a delivery callback may itself insert, flush, retune, close or release the buffer.",
 ["histories", "schedules"], "every arrival order (with gaps, repeated flushes, window changes and time steps, from outside and from inside callbacks) of a small set of distinct items, against a reference model",
 "testreorder checks a few fixed arrival orders.",
 ["src/ReorderBuffer.cpp", "include/rtmfp/ReorderBuffer.hpp"], [("ordered insertion and delivery", "src/ReorderBuffer.cpp")], ["delivery callback trace"])

prop("C25", "Flow sync barriers release all members together, exactly when complete",
 "A receiving flow that reaches a synchronisation point is suspended until every participant named by that barrier's count has reached it, at which moment all of them resume in their own delivery order; barriers with different identifiers do not interfere, and a participant that has closed still counts, and resetting a barrier resumes exactly those it suspended. Flows not taking part are never suspended.",
 ["histories", "schedules"], "all interleavings of barrier messages, resets and closes across up to three flows, against a reference model",
 "testflowsync runs one fixed sequence.",
 ["src/FlowSyncManager.cpp", "include/rtmfp/FlowSyncManager.hpp"], [("barrier table", "src/FlowSyncManager.cpp")], ["receive order of each flow"])

prop("C26", "Wire integers, options and packet assembly round-trip and respect bounds",
 "Every unsigned integer, length-prefixed field and option that is encoded decodes to the same value and consumes exactly its encoded length, the encoding is canonical, and the predicted size is exact. Decoding any byte string, with any limit, never reads past the limit, reports failure for incomplete or oversize input, and saturates rather than wrapping; assembling a packet never writes past its capacity, leaves the packet unchanged when an item does not fit, and rolling back a chunk restores it exactly.",
 ["inputs", "histories"], "all values up to a bound and around every power of 128, all byte strings up to a length over a boundary alphabet, every truncation, all sequences of assembler operations up to a depth for every small capacity, against reference implementations",
 "testvlu checks a few values.",
 ["src/VLU.cpp", "src/PacketAssembler.cpp"], [("VLU, Option", "src/VLU.cpp"), ("PacketAssembler", "src/PacketAssembler.cpp")], ["encoded bytes", "decode results"])

prop("C27", "AMF0 values round-trip and malformed AMF0 is refused safely",
 "Every AMF0 value built from any nesting (up to 32 levels) of numbers, booleans, strings (short and long), nulls, undefined, objects, typed objects, ECMA and strict arrays encodes to bytes that decode to an equal value of the same type, consuming exactly the bytes produced, and its JSON form is well formed and denotes it. Decoding any byte string never reads outside it, never crashes or hangs, and either yields a value whose re-encoding decodes to the same value or fails leaving the cursor where the value began; unsupported and unknown types are refused. The container operations (get, put, remove, iterate) behave as on an ordinary map or array.",
 ["inputs", "histories"], "all values up to a nesting/size bound, all byte strings up to a length over a marker/boundary alphabet, every truncation and single-byte mutation of sample encodings, all container operation sequences up to a depth",
 "testamf checks fixed samples.",
 ["src/AMF.cpp", "include/rtmfp/AMF.hpp"], [("AMF0 encode/decode", "src/AMF.cpp")], ["AMF0::encode/decode"])

prop("C28", "Media and TC message headers encode, parse and classify consistently",
 "Every TC message header and command, flow metadata, media metadata and media message header built from any field values parses back to the same fields, and parsing any byte string never reads out of bounds and fails cleanly when truncated, malformed or when its times cannot be represented. Message classification (sequence special, keyframe, random access, enhanced codecs, timestamps wrapping at 32 bits) gives the same answer for every equivalent encoding.",
 ["inputs"], "all field values at boundaries in all combinations, all byte strings up to a length over a boundary alphabet, every truncation, against reference parsers",
 "testtcmsg and testmedia check fixed samples.",
 ["src/TCMessage.cpp", "src/Media.cpp"], [("TCMessage/TCMetadata/FlowSync", "src/TCMessage.cpp"), ("Media", "src/Media.cpp")], ["parse/encode results"])

prop("C29", "Addresses, hex strings and URIs convert without loss and refuse bad input",
 "Every IPv4 or IPv6 address with any port and origin survives conversion to its wire encoding, to a socket address and to text and back; ordering is a strict total order consistent with equality. Hex encoding and decoding are inverse, URI parsing returns the components of every URI built from components (relative references and dot segments resolve as RFC 3986 defines, and percent-decoding inverts percent-encoding), and malformed or truncated input of any of these is refused without reading out of bounds and without changing the target.",
 ["inputs"], "all combinations of boundary field values, all strings up to a length over a boundary alphabet, every truncation, against reference conversions",
 "testaddress, testhex and testuriparse check fixed samples.",
 ["src/Address.cpp", "src/Hex.cpp", "src/URIParse.cpp"], [("Address", "src/Address.cpp"), ("Hex", "src/Hex.cpp"), ("URIParse", "src/URIParse.cpp")], ["conversion results"])

prop("C30", "TC connections answer every command once and route messages to the right stream",
 "On a TC connection, each command sent expecting a reply gets its result or error callback exactly once, matched by transaction whatever the order of replies, and every one still pending gets an error when the connection closes; no callback of a closed connection fires afterwards. Stream creation yields the stream the server assigned (stream IDs are whole numbers), what the application sends goes out on the stream and with the timestamp it named, incoming status, data, audio and video messages are dispatched to exactly the stream they name, and deleted streams receive nothing. The server's keepalive settings apply each to its own side with a floor of 5 seconds, and malformed or unexpected messages from the server are ignored or close the connection but never crash, also when the application closes or releases things inside a callback.",
 ["histories", "schedules", "inputs"], "all interleavings of client calls and server messages up to a depth, with all reply orders, duplicates, unknown transactions and malformed messages",
 "The TC connection has no test in the suite.",
 ["src/TCConnection.cpp", "include/rtmfp/TCConnection.hpp"], [("transaction table, stream table", "src/TCConnection.cpp"), ("RTMFP transport binding", "src/TCConnection.cpp RTMFPTCConnection")], ["callback trace", "messages written"])

prop("C31", "A redirector client keeps itself registered, and reports load without flooding",
 "A redirector client that is asked to connect keeps retrying until connected or closed, never more often than its reconnect interval, authenticates before anything else it sends, and re-registers everything the application set (addresses, features, load factor, draining) after every reconnect; it reports connection status changes once each. Load-factor updates are coalesced to the configured rate but the latest value is always eventually sent; after close nothing new is sent and no callback fires.",
 ["histories", "fault_sequences"], "all sequences of application calls, connection losses and redirector messages up to a depth",
 "The redirector client has no test.",
 ["src/RedirectorClient.cpp", "include/rtmfp/RedirectorClient.hpp"], [("connection and registration state machine", "src/RedirectorClient.cpp")], ["messages received by a redirector", "onStatus trace"])

prop("C32", "Rate tracking reports the traffic of exactly the recent window",
 "The tracked rate follows the documented two-window rule on every history: what the current window counted plus a linearly fading share of the previous window, so that it never counts an amount two whole windows after the last one was recorded, never exceeds what was recorded recently, equals the true rate for steady input, and does not depend on when it is queried. Resetting or changing the window takes effect immediately, and no sequence of calls yields a negative, infinite or undefined rate.",
 ["histories"], "all sequences of update/query/time-step operations up to a depth, against a reference model",
 "testratetracker checks one fixed sequence.",
 ["src/RateTracker.cpp"], [("slots", "src/RateTracker.cpp")], ["RateTracker::getRate"])

prop("C33", "Redirects and forwarded hellos reach only the endpoint asked for",
 "An initiator follows redirects only for an opening attempt it actually has outstanding, tries at most a bounded number of redirected addresses in addition to those the application gave it, and the session it opens is with the endpoint it asked for. An endpoint answers introductions exactly according to its configured mode (forwarded ones are ignored by default), answers a hello only when it is the endpoint named, and tells the application of every other hello it does not ignore, with its exact tag, endpoint and source so that a redirector or forwarder can be built from the public interface.",
 ["schedules", "inputs", "fault_sequences"], "all combinations of responder modes, redirect lists, candidate addresses and delays, with up to K packet faults",
 NOTEST, ["src/RTMFP.cpp", "src/Session.cpp", "src/Flow.cpp"],
 [("redirect handling", "src/RTMFP.cpp onRedirect/sendResponderRedirect; src/Session.cpp addCandidateAddress"), ("forwarded hello", "src/Session.cpp onFIHelloChunk; src/Flow.cpp forwardIHello"), ("unmatched callbacks", "src/RTMFP.cpp onIHello/onRHello")],
 ["packets on the wire", "RTMFP::onUnmatchedIHello/onUnmatchedRHello"])

prop("C34", "Higher-priority data goes first, equals share, time-critical use is announced",
 "Whenever a session can send, it sends data of the highest-priority flow that has sendable data, and flows of equal priority take turns packet by packet; a priority change applies to everything not yet sent. Packets carrying data above routine priority are marked time critical, and an endpoint receiving such packets tells its other sessions' senders so within the 800 ms it remembers them, never the session reporting itself.",
 ["schedules", "configurations"], "all assignments of priorities to flows, priority changes at every point, with up to K packet faults, checked on every packet",
 NOTEST, ["src/Interface.cpp", "src/Session.cpp", "src/SendFlow.cpp", "src/RTMFP.cpp"],
 [("ready queues", "src/Interface.cpp onWritable; src/Session.cpp onInterfaceWritable/scheduleFlowForTransmission"), ("TC/TCR", "src/RTMFP.cpp onSessionReceivedTC/shouldSessionReportTCR")],
 ["packets on the wire"])

prop("C35", "Checksums and reference counting give the defined result for every use",
 "Each checksum function returns the value its definition gives for every input, and incremental use over any split of the input equals one-shot use. A shared object lives exactly as long as something retains it, through any sequence of retain, release, sharing, copying and clearing of the provided handles.",
 ["inputs", "histories"], "all inputs up to a length over a small alphabet with all splits, and all sequences of handle operations up to a depth, against reference models",
 "testchecksums and testretainer check a few samples.",
 ["src/Checksums.cpp", "include/rtmfp/Retainer.hpp", "src/Object.cpp", "include/rtmfp/Object.hpp"],
 [("Checksums", "src/Checksums.cpp"), ("Retainer/Object", "include/rtmfp/Retainer.hpp; src/Object.cpp")], ["return values", "destructor calls"])

prop("C36", "POSIX platform adapters carry packets, time and tasks faithfully until closed",
 "Every datagram that arrives on an open interface is handed to the stack once, unaltered, with its source address, interface and traffic class; a packet the stack writes leaves from that interface to exactly the address given with the traffic class asked for, and writePacket answers true only for a packet that was sent. While the adapter is open, the stack's timer work is done when due also after the deadline changes, tasks given to perform run once and in order per thread, and a stack waiting to write is asked until it has no more to write; an interface that cannot be opened is refused without leaving anything behind. Once the adapter is closed or destroyed, also from within one of its own callbacks, nothing more is delivered, run, asked or sent, no descriptor stays open, and no other user's descriptor is touched.",
 ["histories", "schedules", "fault_sequences"], "all sequences of interface, send, arrival, task, deadline, writability and close operations up to a depth, for both adapters and both run loops",
 "The adapters have no tests.",
 ["src/PosixPlatformAdapter.cpp", "src/PerformerPosixPlatformAdapter.cpp", "src/PlainCryptoAdapter.cpp"],
 [("socket I/O", "src/PosixPlatformAdapter.cpp addUdpInterface, writePacket, receiveOnePacket"), ("alarm and tasks", "src/PosixPlatformAdapter.cpp setRtmfp, perform, close")], ["packets on loopback sockets", "calls into the stack"])

prop("C37", "A flow's readings of its session's round trips, ages and settings are true",
 "Every round-trip measurement is the time some packet really took there plus the time its answer took back, not counting how long the peer held it, to within the 4 ms timestamp resolution, whatever is lost, duplicated, delayed or silent and however the 16-bit timestamps wrap; while acknowledged traffic flows new measurements keep coming, and the smoothed round trip, its variance and the measured and effective timeouts that the flow reports follow from the measurements as RFC 7016 section 3.5.2.2 defines, the base round trip being a recent measurement no greater than the last. The reported ages are those of the oldest unacknowledged and the oldest unstarted message. Limits, keepalive, congestion delay and traffic class set through one flow read back from every flow of that session (limits and keepalive not below one second) and change no other session, new sessions start with the defaults, and the session's packets carry its traffic class.",
 ["schedules", "fault_sequences", "histories"], "all sequences of path delays in each direction, all patterns of up to K packet faults, all pauses around the timestamp limits, all sequences of settings up to a depth",
 "Round-trip readings, ages and settings have no tests.",
 ["src/Session.cpp", "src/Flow.cpp", "src/SendFlow.cpp", "src/RTMFP.cpp"],
 [("RTT measurement", "src/Session.cpp onReceivePacket, getTimestampEcho, checkBaseRTT"), ("readings and settings", "src/Flow.cpp"), ("ages", "src/SendFlow.cpp getBufferedAge, getUnstartedAge")], ["timestamps on the wire", "getters of flows"])

# ---- checks: property -> (level, technique, level_note)
CHECKS = {}
NOT_APPLICABLE = {}
exec(open(os.path.join(ROOT, 'tools', 'checks_list.py')).read())

def main():
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].replace('e.g.', '').count('. ') + 1
        assert n <= 3, (p['id'], n)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in P:
        i = p['id']
        if i in CHECKS:
            lvl, tech, note = CHECKS[i]
            checks.append(dict(property=i, quick_cmd=f"./run {i} quick", thorough_cmd=f"./run {i} thorough",
                evidence_file=f"evidence/{i}.json", technique=tech, level=lvl, level_note=note))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "Check under construction; the technique applies.")))
    m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="none", enable="no hooks are added to /repo; checks compile /repo/src unmodified", source_commits=[]),
        checks=checks, not_applicable=na, notes="All checks: ./run <ID> <tier>; replay with ./run <ID> replay <file>. See DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')
if __name__ == '__main__': main()
