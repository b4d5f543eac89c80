// Which scenarios decide which property, with how many seeds.
#include "harness.h"
static const char* kNet = "the network (UDP sockets, epoll, eventfd), clocks, thread scheduling and OS randomness are simulated; SDP exchange is done by the harness in place of a signalling server; media content is synthetic";
const std::vector<Prop>& props()
{
    static const std::vector<Prop> v = {
        { "C01", false, { { "clean", 150, 6000 }, { "lossy", 400, 20000 }, { "outage", 60, 3000 } }, "A random track mix, codec set, sizes and options, and a random network (loss, bursts, duplication, delay, corruption, truncation, outages); every delivered frame is compared with the published ones.", kNet },
        { "C02", false, { { "lossy", 500, 24000 }, { "wrap", 100, 5000 }, { "outage", 80, 4000 } }, "As C01; every delivered frame must come later in the published order than the one before it and never twice, and its extended timestamp must match.", kNet },
        { "C03", false, { { "clean", 1000, 40000 } }, "A lossless network with reordering and duplication within the jitter buffer length and wall-clock jumps; every published frame must be delivered, and soon after it is due.", kNet },
        { "C04", false, { { "nack", 900, 36000 }, { "retx", 350, 16000 } }, "First transmissions are lost at random and in bursts; each must be requested, retransmitted identically, and the frame delivered when everything arrived before its playout time. An authenticated peer also asks for any of the last 420 packets of a stream, in any pattern, and repeats its requests: each must be retransmitted identically, once per request.", kNet },
        { "C05", false, { { "outage", 500, 16000 } }, "One to three outages, loss bursts or delay bursts of 20 ms to 9.6 s in one or both directions, with and without loss of the connection; once healed, every new frame must be delivered within a bounded time.", kNet },
        { "C06", false, { { "wrap", 700, 24000 }, { "nack", 300, 10000 } }, "Sequence numbers and timestamps of media and retransmission streams wrap in the middle of reordering, loss, recovery, or a connection loss; every frame (or every frame after healing, or every recoverable frame) must be delivered.", kNet },
        { "C07", true, { { "forge", 700, 24000 } }, "Forged, corrupted, truncated, re-addressed and re-keyed packets are injected while media flows and while it is cut off; nothing of them may be delivered, counted, answered, change the state or keep the connection alive, and genuine media must stay complete.", kNet },
        { "C08", false, { { "replay", 900, 24000 } }, "Recorded datagrams are sent again at once, after a few packets, after seconds, across reconnects and while genuine traffic is cut off; frames, counters, key-frame requests, retransmissions and the state must be those of a run without them.", kNet },
        { "C09", false, { { "nonce", 250, 8000 } }, "All SRTP and SRTCP packets of both sides over wraps, retransmissions, simulcast layers, reports, feedback and reconnects: a (key, SSRC, index) may protect only one plaintext.", kNet },
        { "C10", false, { { "dc", 400, 16000 }, { "dcvol", 20, 3000 }, { "dcwrap", 24, 600 }, { "dcreset", 50, 3000 } }, "Random labels on both sides, messages of every size from 0 to 256 kB sent before, during and after the handshake, loss, duplication, reordering, outages, reconnects and wall-clock jumps; the messages delivered on a channel must be exactly the ones sent, in order (channels the peer opened as unordered: in any order), also beyond 65536 of them and while other channels are reset.", kNet },
        { "C11", false, { { "dcvol", 40, 4000 }, { "dc", 200, 16000 } }, "Volumes above every window with loss and outages; once the network is clear all accepted messages must arrive within a bound computed from the number of outstanding chunks, and later messages still get through; a bulk over the healed network then takes round trips, not timeouts.", kNet },
        { "C12", false, { { "dc", 450, 24000 }, { "life", 300, 10000 }, { "dcreset", 250, 10000 } }, "Every channel of either side must be announced exactly once per side, before its first message, after handshakes with lost, repeated, late and reordered packets; and announced as closed at most once, only after it was announced as opened, also when connections end at arbitrary moments; a peer which resets streams must be answered, and exactly the channels it reset are announced as closed.", kNet },
        { "C13", false, { { "life", 1800, 60000 }, { "lossdet", 150, 5000 } }, "Connections are started, used, cut off and closed (by either side, both, twice, from two threads, or by destruction) at arbitrary moments of the handshake and the session; every notification is checked against the life cycle.", kNet },
        { "C14", false, { { "connect", 3000, 100000 } }, "One to seven candidates of which at most one answers, IPv4 and IPv6, lost, repeated and late handshake datagrams, skewed starts; both sides must be Connected (or Failed, if none answers) within a bound computed from the timers.", kNet },
        { "C15", false, { { "lossdet", 900, 30000 }, { "idle", 350, 12000 }, { "longrun", 16, 600 } }, "Outages of 0.2 to 14 s under traffic and silence, and sessions of up to 400 s with little traffic and isolated losses; loss must be reported in time, ended in time, and a working network must never be given up.", kNet },
        { "C16", false, { { "stun", 4000, 100000 } }, "An attacker who sees all traffic but knows no password forges, damages, redirects and repeats STUN requests and responses while nobody else answers, during the handshake, during the session and after the network died; nothing of it may be answered, establish, sustain or restore a connection or show in the round-trip time.", kNet },
        { "C17", false, { { "fpr", 1800, 50000 } }, "One side is told a fingerprint that differs in one digit, is shortened, extended, of another kind or missing, or its peer shows no certificate; it must never report Connected, send media, open channels or deliver frames, and must fail in time; honest peers must be accepted.", kNet },
        { "C18", true, { { "hostile", 1500, 60000 }, { "peerop", 900, 40000 } }, "An outsider sends random bytes, truncated, extended and mutated copies of every kind of genuine datagram before, during and after the handshake; the authenticated peer sends damaged RTP, RTCP and SCTP content under valid encryption; no crash, memory error (AddressSanitizer) or hang, and for the outsider's input the connection must stay up with every frame and message delivered.", kNet },
        { "C19", false, { { "pace", 250, 10000 } }, "Frames of all sizes published singly, in bursts and faster than they can be paced, on several tracks and simulcast layers, with stalled threads; every packet must be on the wire exactly once, in order, with correct timestamps and markers, in bounded time.", kNet },
        { "C20", false, { { "stats", 650, 24000 } }, "Media flows in both directions over networks with random delay, jitter, loss, duplication and corruption; every sender report on the wire must count what was sent before it, map capture time to its RTP timestamps, and every reported round-trip time must lie within what the network's delays allow.", kNet },
        { "C21", false, { { "twcc", 500, 20000 }, { "twccwrap", 16, 400 } }, "Congestion control feedback over loss, bursts, reordering, duplication, long delays, pauses, sequence wraps and probing; every feedback message is decoded and compared with the exact arrival record of the simulated network; the publisher's statistics are compared with what happened.", kNet },
        { "C22", true, { { "api", 1400, 60000 }, { "life", 250, 10000 }, { "sched", 1500, 100000 }, { "dc", 60, 3000 } }, "Application threads call every public function of connections, tracks, channels and schedulers at random times, also while the connection starts, fails and closes, and from inside callbacks; the repository is compiled with the instrumentation of a race detector whose happens-before relation comes from the simulated threads, so an unordered pair of accesses or a use of freed memory is reported even when the schedule made it harmless; deadlocks and calls which never return are reported too.", kNet },
        { "C23", false, { { "sched", 6000, 400000 } }, "Tasks are submitted, updated and cancelled on LoopScheduler, ThreadScheduler and ScopedScheduler, from several threads and from inside tasks, with destruction at any moment, spurious wake-ups, oversleeping and clock jumps; every execution is compared with a model of which task may, must and must not run when, and every call has to return.", "" },
        { "C24", false, { { "sys", 1500, 60000 } }, "Sending, receiving, polling, reading the event descriptor and creating sockets fail with transient errors or report readiness spuriously, while connecting and while connected, singly, at high rates and all at once for a moment; nothing may crash, change state without its reason, spin, or stay broken afterwards, and where only receiving and polling fail nothing may be missing.", kNet },
        { "C25", false, { { "pli", 1200, 40000 } }, "Explicit and periodic key-frame requests, as PLI or FIR, at random times over networks with loss, duplication and outages; each request which arrived must be reported to the publisher once, and nothing else may be.", kNet },
        { "C26", false, { { "clean", 500, 20000 }, { "lossy", 400, 16000 } }, "Several tracks with random clocks and capture times; every delivered frame is attributed to its own track and its timestamp distance equals the published one.", kNet },
        { "C27", false, { { "stats", 650, 24000 } }, "As C20; every number in the publish, subscribe and connection statistics is compared with an independent account of the packets which were sent and accepted on the wire.", kNet },
        { "C28", false, { { "res", 420, 16000 }, { "longrun", 32, 2500 } }, "The live memory of each node (C++ heap, malloc and OpenSSL) is compared at the same point of the same workload before and after floods of repeated, damaged, forged and stale datagrams, lost feedback, heavy loss, long sessions, sequence jumps, very late datagrams, reconnects and failures; its peak is bounded meanwhile, the work per flood datagram must not grow, and destroying the connection must give everything back. Connections of 25 to 120 minutes under a constant load must not grow by a few bytes at a time.", kNet },
        { "C29", false, { { "simul", 400, 16000 } }, "One or two videos of one to four layers with random names, sizes and rates (some updated while publishing), with loss, retransmission and reconnects; every packet of a key frame or of the first hundred of a layer, and every retransmission, must name its own media and layer and describe all layers, and no packet may carry an extension which was not negotiated.", kNet },
        { "C30", false, { { "dc", 700, 24000 }, { "simul", 80, 3000 }, { "twcc", 120, 5000 }, { "twccwrap", 6, 100 }, { "retx", 60, 3000 }, { "nack", 60, 3000 }, { "stats", 60, 3000 } }, "Frames and messages of all sizes with every combination of header extensions, probing, retransmission, and patterns of loss and reordering to report about; every datagram on the wire must fit a path with the IPv6 minimum MTU.", kNet },
    };
    return v;
}
