# exec'd by props.py: CHECKS[id] = (level, technique, level_note)
_SIM = ("Stateless model checking of the real implementation: %s. Endpoints run unmodified from /repo/src over a virtual network and clock; the explorer enumerates every answer "
        "sequence of the scenario's choice points within a stated deviation budget, and the oracle judges every execution.")
_NOTE = "Exhaustive within bounds stated in DESIGN.md and the evidence file; real library code, no separate model to keep in step."
def _sim(i, what, note=''):
    CHECKS[i] = ("model_checking", _SIM % what, (_NOTE + ' ' + note).strip())

_sim('C01', 'every pattern of up to K packet drops/duplications/delays, and every loss pattern over a window, across multi-flow transfers')
_sim('C02', 'every permutation of small fragment sets into an arrival-order flow compared step by step with a reference reassembler, plus packet-fault patterns end to end')
_sim('C03', 'every combination of up to K message abandonments (explicit, deadline, parent, no-retransmit) and packet faults')
_sim('C15', 'every fragment sequence up to a length over an alphabet of hostile fragments, compared step by step with a reference reassembler')
_sim('C04', 'every receipt/chain operation sequence up to a depth against a reference receipt model, and every way a transfer can end with every pattern of up to K faults and abandonments, with wire and application monitors')
_sim('C05', 'every placement of accept/decline/close/return-flow decisions with every pattern of up to K faults, and every hand-made flow association')
_sim('C06', 'every combination of buffer sizes, limits and suspend/resume timelines with every pattern of up to K faults; advertisements and in-flight data are recomputed from the wire')
_sim('C07', 'every pattern of up to K drops, late duplicates, delays and congestion marks, all loss/mark patterns over a window, and blackout timelines; flight, losses and timeouts are recomputed from the wire')
_sim('C08', 'every pattern of up to K faults (drop, duplicate, delay, address change) on the handshake packets, candidate address sets with decoys, and every completion order of asynchronous crypto work')
_sim('C09', 'every relative start offset from a grid, both glare outcomes and every restart point, with every pattern of up to K packet faults')
_sim('C10', 'every injection of captured packets (replayed, re-addressed, reflected, each byte altered, truncated, renumbered, rekeyed) at points of a session life, the full product of keying packet defects, and off-path guesses of every type at every step')
_sim('C11', 'every moment of closing or shutting down, every pair of closing actions at both ends and every pattern of up to K packet faults on the close exchange')
_sim('C12', 'every combination of limits, outage starts, lengths and directions, kinds of traffic and live changes of limits from a grid, with every pattern of up to K faults on the packets that follow; each end is compared with timers recomputed from the wire')
_sim('C13', 'every point at which a peer moves (once, repeatedly, back, flapping), every pattern of up to K faults after the move, and every re-sending of captured packets from other addresses at points of the transfer')
_sim('C14', 'every single chunk, and every sequence of two (three in the thorough tier) chunks, from alphabets of malformed and hostile chunks in six states of the attacked session, every datagram length and header, and every alteration of every packet of a genuine exchange, with memory sanitizers and a poisoned receive buffer')
_sim('C16', 'every API action (19 kinds: closing, shutting down, writing, abandoning, opening, reordering, reconfiguring) at every callback invocation of seven kinds of session life, and every pair of actions within windows, with callbacks whose own closure is checked for having been destroyed while running')

_SEQ = "Explicit exhaustive exploration of the real code, in process: %s; every behaviour within the bounds is executed on the code compiled from /repo and judged step by step by a reference model."
def _seq(i, what, note=''):
    CHECKS[i] = ("model_checking", _SEQ % what, (_NOTE + ' ' + note).strip())
_seq('C19', 'every sequence of schedule/reschedule/cancel/clear/fire operations up to a depth, from outside and from inside timer actions, with every small advance of time')
_seq('C20', 'every program of register/unregister/replace/defer/schedule/stop/feed operations up to a depth, from outside and from inside every kind of callback, over real descriptors and a virtual clock, for both run loops')
CHECKS['C21'] = ("model_checking", "Controlled-scheduler model checking of the real multi-threaded code: every interleaving, up to a preemption bound, of submitter threads, the run loop thread and a closing action, switching at every mutex, condition variable, pipe, atomic and poll operation of the real Performer; deadlock and lost wakeups are detected as states where no thread can run.", _NOTE)
_seq('C22', 'every reachable index set over a small universe (at zero and at the top of the integer range) under every operation and pair of operations, compared with a bit set')
_seq('C23', 'every sequence of list operations up to a depth, and every mutation at every step of every kind of iteration, compared with a reference sequence')
_seq('C24', 'every arrival order of a small set of items with time steps, flushes and window changes, and every action at every delivery callback')
CHECKS['C25'] = ("model_checking", "Explicit exhaustive exploration of the real code: every interleaving of barrier messages, data, barrier resets, flow ends and receiver closes over up to three flows of a live session, with every assignment of arrival-order flows, each delivery judged by a reference model of who is suspended.", _NOTE)
_seq('C26', 'all integers up to a bound and around every power of two, all byte strings up to a length over a boundary alphabet with exact-size buffers, option lists, and every sequence of assembler operations up to a depth for every small capacity')
_seq('C29', 'all combinations of boundary addresses, ports, origins and previous contents, all short token sequences of address text, hex, URI, dot-segment, split and percent-encoding strings, with reference parsers and exact-size buffers')
_sim('C30', 'client and server scripts of a TC connection over the simulated network: every order of commands, replies, duplicates, unknown transactions, malformed and unexpected messages, stream creation and deletion, and what the application does inside each callback, with every pattern of up to K packet faults; the server side is a reference written for the check', 'Oracle: callbacks, streams and messages against a model of what was sent')
_sim('C31', 'every sequence of application calls, redirector answers and connection losses up to a depth, over the simulated network with up to two redirectors, and what the application does inside each callback', 'Oracle: what each redirector understood, when, and the status trace against a model of what the application asked for')
_sim('C33', 'every redirector behaviour (forwarding, redirect lists, malformed and mismatched redirects, floods), responder mode and mode change, candidate set and probe, late redirects and closing, the argument space of the public calls, with every pattern of up to K packet faults', 'Oracle: every hello, answer and callback against the addresses given and the hellos received')
_sim('C34', 'every assignment of priorities to flows of up to three sessions, every placement of priority changes and writes at a set of instants, every order and spacing of time-critical and routine traffic around the 800 ms limit, with every pattern of up to K packet faults', 'Oracle: every packet sent against the data waiting at that moment, the priorities last set and the time-critical packets received.')
_seq('C32', 'every sequence of update/reset/window-change operations and time steps up to a depth, and steady inputs')
_seq('C35', 'all inputs over boundary alphabets and lengths with every split, and every sequence of operations on reference handles up to a depth')
_seq('C17', 'every pair of settings (authentication, sequence numbers, lengths, static/ephemeral keys, group lists) and packet length, every alteration of sample packets, every arrival order with repetition of packet sets, every short list of hostile keying options, over the real adapter with small deterministic primitives and, in part, OpenSSL; plus whole stacks over the profile with every pattern of up to K faults and slow key computations', 'Packets and keys are compared with a reference implementation of the profile.')
_seq('C18', 'every discriminator and certificate built from up to N options of an alphabet of matching, near-miss, duplicate and malformed options, all short byte strings, every single-byte mutation, all pairs of certificates, and whole stacks choosing among three endpoints')
_seq('C27', 'all values up to a nesting and size bound, all byte strings up to a length over a marker and boundary alphabet with exact-size buffers, every truncation and single-byte mutation of samples, and all container operation sequences up to a depth')
_seq('C28', 'all field values at boundaries in all combinations, all byte strings up to a length over a boundary alphabet with exact-size buffers, option lists and single-byte mutations, against reference parsers')
_seq('C36', 'every sequence of interface, send, arrival, task, deadline, writability and close operations up to a depth, on the real adapters over loopback sockets, both run loops and a virtual clock, with the stack replaced at its platform-facing functions; and whole stacks over the adapters with the receiving one closed at each event')
_sim('C37', 'every sequence of path delays in each direction, every pattern of up to K packet faults, every pause around the limits of the timestamps, and every sequence of settings up to a depth; each measurement is recomputed from the wire and compared with what the packets really took')
