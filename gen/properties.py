#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording lives in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

S = ["schedules"]; F = ["fault_sequences"]; I = ["inputs"]; H = ["histories"]; C = ["configurations"]; X = ["crash_points"]

prop("C01", "Delivered media frames are byte-identical to published ones",
 "Every encoded frame handed to a subscriber's frame listener carries exactly the content of one frame that was published on the matching track (same payload units, same bytes), never a truncation, a mixture of two frames, or bytes that were not published. This holds for every supported codec and frame size whatever the network loses, duplicates, reorders, delays or corrupts.",
 F+S+I+C, "all frame sizes, codecs and track mixes; all loss / duplication / reordering / corruption / delay sequences on the path; all thread schedules",
 "The tests packetize one H.264 frame in isolation and never feed a depacketizer or jitter buffer a lossy or reordered stream, nor VP8/Opus/multi-track traffic.",
 ["src/packetizer*.cpp", "src/depacketizer*.cpp", "src/jitter_buffer.cpp", "src/rtp_packet.cpp", "src/peer_candidate.cpp"],
 [("fragmentation / start-end packet kinds", "src/depacketizer_*.cpp"), ("slot list keyed by extended sequence number", "src/jitter_buffer.cpp")],
 [("jitter buffer slots", "received packets awaiting reassembly", "src/jitter_buffer.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener"])

prop("C02", "Frames of a track arrive in publish order and at most once",
 "For each track the frames delivered to the subscriber are a subsequence, in publish order, of the frames published on that track: none is delivered twice and none is delivered after a later one. Duplicated datagrams, retransmissions that race the original, late packets and reconnects do not change this.",
 F+S+H, "all orders, duplications and delays of datagrams, all NACK/RTX races, all reconnect points",
 "No test runs the jitter buffer at all; ordering under retransmission races needs packet timing the unit tests do not control.",
 ["src/jitter_buffer.cpp", "src/replay_protection.cpp", "src/srtp_connection.cpp", "src/extended_value.cpp"],
 [("min/max sequence window and dequeue order", "src/jitter_buffer.cpp"), ("replay window", "src/replay_protection.cpp")],
 [("mMinSeq/mMaxSeq", "window of not-yet-delivered packets", "src/jitter_buffer.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener"])

prop("C03", "Nothing is lost when the network loses nothing",
 "While the connection is up and the network delivers every media datagram within the jitter buffer's configured length, in whatever order and with whatever duplicates, every frame published is delivered to the subscriber, and within a bounded time of its last packet arriving.",
 S+F+C, "all reorderings, duplications and delays smaller than the jitter buffer; all frame sizes and rates; all thread schedules",
 "Unit tests never run publisher and subscriber together; reordering at stream start, at frame boundaries and with duplicates is untested.",
 ["src/jitter_buffer.cpp", "src/send_pacer.cpp", "src/peer_connection.cpp", "src/peer_candidate.cpp"],
 [("dequeue timing and reordering window", "src/jitter_buffer.cpp"), ("pacing and flush", "src/send_pacer.cpp")],
 [("mBaseTime/mBaseRtpTimestamp", "mapping of RTP time to local time", "src/jitter_buffer.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener"])

prop("C04", "Lost packets are recovered by NACK and retransmission",
 "When NACK is negotiated and a media packet is lost but later packets of the track arrive, the subscriber requests it, the publisher retransmits it (on the RTX stream when negotiated, with the original payload), and if the retransmission arrives within the jitter buffer's length the affected frame is delivered complete. Every packet of the publisher's retained send history is retransmittable.",
 F+S+C, "all loss patterns of first transmissions whose feedback and retransmission get through; RTX on or off; sequence numbers anywhere including wrap",
 "Only the NACK list compressor has a unit test; the request/retransmit loop needs two peers, timers and a lossy path.",
 ["src/jitter_buffer.cpp", "src/peer_candidate.cpp", "src/send_rtp_history.cpp", "src/rtp_packet.cpp", "src/util.cpp"],
 [("NACK timers", "src/jitter_buffer.cpp processNack"), ("NACK parsing and resend", "src/peer_candidate.cpp"), ("send history", "src/send_rtp_history.cpp")],
 [("send history", "recently sent packets by SSRC and sequence", "src/send_rtp_history.cpp")],
 ["datagrams on the wire", "PeerConnection::setSubscribeEncodedFrameListener"])

prop("C05", "Media flow resumes after any outage or loss burst",
 "After the network stops losing packets and the connection is (still or again) connected, newly published frames reach the subscriber again within a few seconds, however long the outage was and however many packets it swallowed, including outages that passed through connection loss and restoration. A past burst of loss, reordering or delay never stops a track for good.",
 F+S+H, "all outage lengths, directions and positions relative to sequence-number wrap, reconnects and in-flight retransmissions",
 "Liveness after faults needs long fault histories over the whole stack; the replay and extended-value unit tests check single calls.",
 ["src/replay_protection.cpp", "src/srtp_connection.cpp", "src/jitter_buffer.cpp", "src/extended_value.cpp", "src/peer_candidate.cpp"],
 [("replay window advance", "src/replay_protection.cpp"), ("jitter buffer reset", "src/jitter_buffer.cpp"), ("rollover estimation", "src/srtp_connection.cpp")],
 [("replay window", "highest authenticated index", "src/replay_protection.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener"])

prop("C06", "Sequence and timestamp wrap-around never disturbs media",
 "When a track's 16-bit RTP sequence number or 32-bit RTP timestamp wraps, frames keep being delivered intact, in order and exactly once, and both sides keep agreeing on the packet index used for encryption, also when packets around the wrap are lost, reordered, duplicated or retransmitted, and when the connection was lost and restored since an earlier wrap.",
 F+S+H, "all positions of the wrap relative to loss, reordering, duplication, retransmission and reconnect",
 "ExtendedValue tests feed a handful of values; wraps combined with SRTP rollover counters, retransmission and reordering are never executed.",
 ["src/srtp_connection.cpp", "src/rtp_packet_source.cpp", "src/extended_value.cpp", "src/jitter_buffer.cpp", "src/send_rtp_history.cpp"],
 [("rollover counter estimate", "src/srtp_connection.cpp"), ("64-bit extension", "src/extended_value.cpp")],
 [("rolloverCount/lastSequence", "receiver's estimate of the SRTP index", "src/srtp_connection.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener", "datagrams on the wire"])

prop("C07", "Only authentic packets have any effect on media",
 "A datagram from the peer's address that is not a genuine SRTP/SRTCP packet protected with the session's keys (forged, bit-flipped, truncated, extended or re-sequenced) changes nothing: it delivers no frame, report or key-frame request, and genuine packets before and after it are treated exactly as if it had not arrived.",
 F+I, "all forged or modified datagrams at all points of all sessions, for every negotiated protection profile",
 "The crypto tests are not built in this tree and check single packets; that a forgery leaves no trace in later processing needs a history.",
 ["src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/replay_protection.cpp"],
 [("authentication tag check", "src/srtp_crypto.cpp"), ("per-SSRC receive state", "src/srtp_connection.cpp")],
 [("per-SSRC receive state", "rollover estimate and replay window", "src/srtp_connection.cpp")],
 ["PeerConnection::setSubscribeEncodedFrameListener", "PeerConnection::setPublishKeyFrameRequestedListener"])

prop("C08", "A replayed packet is never processed twice",
 "A genuine SRTP or SRTCP packet is acted upon at most once per session: recording and re-sending it later (immediately, after the window moved on, after a wrap, or after the connection was lost and restored) has no effect on media, reports, key-frame requests or retransmissions.",
 F+H, "all recordings of a session's datagrams replayed at any later point in any order",
 "ReplayProtection has unit tests for single calls, but not for its use together with reconnects, rollover and per-stream state.",
 ["src/replay_protection.cpp", "src/srtp_connection.cpp"],
 [("replay window per SSRC", "src/replay_protection.cpp"), ("reset on connect", "src/srtp_connection.cpp")],
 [("replay window", "recently seen indexes", "src/replay_protection.cpp")],
 ["listeners", "datagrams on the wire"])

prop("C09", "No encryption nonce is ever reused within a session",
 "Over the life of a session no two different SRTP packets and no two different SRTCP packets sent by one side carry the same SSRC and packet index, so no keystream or nonce is ever used twice, including retransmissions, feedback on several tracks, sequence wraps and reconnects.",
 H+F+C, "all histories of sending, feedback, retransmission and reconnects on any number of tracks",
 "It is a property of the whole history of emitted datagrams; no test looks at more than one packet.",
 ["src/peer_candidate.cpp", "src/rtp_packet_source.cpp", "src/rtcp_packet_source.cpp", "src/srtp_crypto.cpp", "src/peer_connection.cpp"],
 [("sequence allocation", "src/rtp_packet_source.cpp"), ("SRTCP index allocation", "src/peer_candidate.cpp sendRtcpPacket")],
 [("RTP / RTCP packet sources", "next sequence and rollover", "src/rtp_packet_source.cpp")],
 ["datagrams on the wire"])

prop("C10", "Data channel messages arrive exactly once, intact and in order",
 "Every message a caller sends on an open data channel of a connected session is delivered to the remote listener exactly once, with exactly its bytes and text/binary kind, and messages of one channel arrive in the order they were sent (unless the peer opened it as unordered), whatever datagrams the network loses, duplicates, reorders or delays while the session lasts. Messages are never merged, truncated or delivered under another label.",
 F+S+I, "all message sizes (empty to the negotiated maximum), channel counts, directions and interleavings; all loss, duplication, reordering and delay sequences",
 "Tests exercise CRC32 and a receive buffer fed in order; no test runs an association.",
 ["src/sctp/sctp_session.cpp", "src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_packet.cpp", "src/peer_candidate.cpp"],
 [("TSN tracking, SACK, retransmission", "src/sctp/sctp_session.cpp"), ("stream reassembly", "src/sctp/data_channel_receive_buffer.cpp")],
 [("outstanding chunks", "sent, not yet acknowledged", "src/sctp/sctp_session.cpp")],
 ["PeerConnection::DataChannelListener"])

prop("C11", "Data channels keep making progress once the network heals",
 "If the session is connected and the network delivers again, every message already accepted for an open data channel is delivered within a bounded time, regardless of what was lost before: neither lost acknowledgements, a closed or filled receive window, many outstanding messages nor lost handshake packets can stall a channel for good.",
 F+S, "all finite fault sequences followed by a fault-free suffix; message volumes above and below the window sizes",
 "Retransmission timers, window accounting and handshake retries only matter over long lossy histories; nothing in the tests runs them.",
 ["src/sctp/sctp_session.cpp", "src/peer_candidate.cpp"],
 [("T3 retransmission timer and RTO", "src/sctp/sctp_session.cpp"), ("flow and congestion window", "src/sctp/sctp_session.cpp"), ("handshake retries", "src/sctp/sctp_session.cpp")],
 [("flight size / peer rwnd", "what may be sent", "src/sctp/sctp_session.cpp")],
 ["PeerConnection::DataChannelListener"])

prop("C12", "Data channel open/close notifications are consistent",
 "On each side, a configured or remotely opened data channel is announced as opened at most once per session, always before the first message on it is delivered, under exactly the label it was opened with; a channel is announced as closed at most once and only if it was open; a peer that closes channels by resetting their streams is answered, exactly those channels are announced as closed, once, and the others go on; and once both peers are connected and the network delivers, every channel configured by either side gets announced on both sides within a bounded time.",
 F+S+C, "all channel sets on both sides (equal, disjoint, overlapping labels), all handshake losses, duplications and reorderings",
 "No test opens a data channel.",
 ["src/sctp/sctp_session.cpp", "src/peer_candidate.cpp", "src/peer_connection.cpp"],
 [("DCEP open/ack handling", "src/sctp/sctp_session.cpp"), ("stream reset", "src/sctp/sctp_session.cpp SctpSession::onReceiveReconfig")],
 [("channel map", "stream id to label and state", "src/sctp/sctp_session.cpp")],
 ["PeerConnection::DataChannelListener"])

prop("C13", "Connection state notifications follow the documented life cycle",
 "The states reported to the listener form a path of the documented life cycle (Connecting, Connected, back to Connecting on loss, and finally at most one of Failed or Closed), never repeat a state twice in a row, and nothing at all is reported (state, frame, message, statistics) after the terminal state has been reported or close() has returned. Failed is reported only after at least the documented timeout without connectivity or on a genuine handshake error, and close() always ends in Closed unless Failed came first.",
 S+F, "all thread schedules of close(), destruction and listeners against the network thread; all connectivity histories",
 "PeerConnection has no tests; the interleavings of close() with network activity cannot be sampled by unit tests.",
 ["src/peer_connection.cpp", "src/peer_candidate.cpp"],
 [("setConnectionState", "src/peer_connection.cpp"), ("close joins the network thread", "src/peer_connection.cpp")],
 [("mConnectionState", "overall state", "src/peer_connection.cpp")],
 ["PeerConnection::setConnectionStateListener"])

prop("C14", "Connecting succeeds or fails within a bounded time",
 "If at least one remote candidate is reachable and the network delivers some datagrams each way, both peers reach Connected despite individual handshake datagrams (ICE or DTLS) being lost, duplicated, delayed or reordered and regardless of how many other candidates are dead; and if no candidate is reachable the connection reports Failed within a bounded time instead of hanging.",
 F+S+C, "all losses of individual handshake datagrams short of a total outage; all candidate lists with at least one live candidate; all start skews between the peers",
 "No test connects two peers.",
 ["src/peer_candidate.cpp", "src/ice_agent.cpp", "src/peer_connection.cpp"],
 [("STUN request repetition", "src/peer_candidate.cpp"), ("DTLS handshake", "src/peer_candidate.cpp"), ("connect timeout per candidate", "src/peer_candidate.cpp")],
 [("connecting candidates", "attempts in progress", "src/peer_connection.cpp")],
 ["PeerConnection::setConnectionStateListener"])

prop("C15", "Loss of connectivity is detected, and survived when brief",
 "A connected peer that hears nothing authentic from the remote side reports Connecting within a bounded time and, if nothing comes back, Failed within a further bounded time; if connectivity returns before that it reports Connected again without application action. A connection over a working network stays Connected indefinitely, even when idle and even when some keep-alive datagrams are lost.",
 F+S+H, "all outage start times and lengths in either or both directions, idle and busy connections, losses of individual keep-alives and restore requests",
 "Needs minutes of (simulated) time and directional outages; not covered by any test.",
 ["src/peer_candidate.cpp", "src/peer_connection.cpp", "src/scheduler.cpp"],
 [("connection lost / restore / keep-alive timers", "src/peer_candidate.cpp")],
 [("last receive time", "drives loss detection", "src/peer_candidate.cpp")],
 ["PeerConnection::setConnectionStateListener"])

prop("C16", "Only credentialed STUN traffic counts",
 "A STUN message that is not protected with the session's ICE credentials (wrong user name, password, missing or damaged integrity or fingerprint, or a response to no outstanding request) neither establishes nor sustains nor restores a connection, is never answered with a success response, and does not influence the reported round-trip time; correctly credentialed requests are answered.",
 I+F+H, "all forged, modified, replayed or unsolicited STUN messages at all points of a session",
 "ICE and STUN code have no tests at all.",
 ["src/ice_agent.cpp", "src/peer_candidate.cpp", "src/stun/*.cpp"],
 [("verifyRequestMessage / verifyResponseMessage", "src/ice_agent.cpp"), ("transaction list", "src/ice_agent.cpp")],
 [("outstanding transactions", "ids of sent requests", "src/ice_agent.cpp")],
 ["PeerConnection::setConnectionStateListener", "datagrams on the wire"])

prop("C17", "Media and data flow only with the peer named by the fingerprint",
 "A connection reports Connected, sends media or data, or delivers anything only if the remote side completed the DTLS handshake with the certificate whose fingerprint the SDP answer named; with any other certificate it reports Failed and no media, message or report is ever sent or delivered.",
 F+S+C, "all certificate mismatches on either side, both DTLS roles, all handshake reorderings and losses",
 "DTLS is never exercised by the tests.",
 ["src/peer_candidate.cpp", "src/sdp_answer.cpp", "src/x509_certificate.cpp"],
 [("fingerprint comparison after handshake", "src/peer_candidate.cpp onReceivedDtlsMessage")],
 [("mDtlsState", "handshake progress", "src/peer_candidate.cpp")],
 ["PeerConnection::setConnectionStateListener", "datagrams on the wire"])

prop("C18", "No datagram from the network can crash or disrupt a peer",
 "Whatever bytes arrive on its socket (random, truncated, mutated copies of genuine STUN, DTLS, SRTP or SRTCP datagrams, or validly encrypted but malformed RTP, RTCP and SCTP content from the peer), a peer does not crash, hang, corrupt memory or leave the Connected state because of unauthenticated input, and genuine traffic continues to be delivered.",
 I+F+H, "all datagram contents and sizes at all points of the connection life cycle",
 "Tests feed well-formed inputs to a few parsers; hostile input at every stage of a live session is not tested.",
 ["src/peer_candidate.cpp", "src/rtp_packet.cpp", "src/rtcp_packet.cpp", "src/sctp/*.cpp", "src/stun/*.cpp", "src/depacketizer_*.cpp", "src/byte_buffer.cpp"],
 [("bounds-checked readers", "src/byte_buffer.cpp"), ("message validation", "src/stun/stunmessage.cpp")],
 [], ["process health (sanitizers)", "listeners"])

prop("C19", "Every published packet is sent once, in order and on time",
 "While connected, each frame accepted from a publisher results in its RTP packets being emitted exactly once each (retransmissions aside), with consecutive sequence numbers per stream in emission order, one RTP timestamp per frame, the marker only on the frame's last packet, and all of them within a bounded time of publishing, also when frames are published faster than they can be paced and when several tracks interleave.",
 S+C+I, "all publishing rates, frame sizes, track counts and thread stalls",
 "The pacer has no test; its guarantees are about time and interleaving.",
 ["src/send_pacer.cpp", "src/packetizer*.cpp", "src/peer_candidate.cpp", "src/rtp_packet_source.cpp"],
 [("spread, flush and ordered sending", "src/send_pacer.cpp")],
 [("pacer queue", "packets with their send times", "src/send_pacer.cpp")],
 ["datagrams on the wire"])

prop("C20", "Reported round-trip times and sender reports are truthful",
 "A round-trip time reported in statistics lies between the least and greatest round trip the network actually imposed (plus bounded processing delay), and sender reports delivered to a subscriber map RTP time to the publisher's wall clock at the moment of sending with correct packet and byte counts. Jumps of the wall clock, lost or reordered reports, and multiple tracks do not produce other values.",
 F+S+H, "all network delays and losses of reports, wall-clock jumps on either side at any time",
 "Needs controlled clocks and delays on both sides; nothing tests it.",
 ["src/sender_reports_history.cpp", "src/receiver_reference_time_reports_history.cpp", "src/peer_candidate.cpp", "src/rtp_time_source.cpp", "src/util.cpp", "src/ice_agent.cpp"],
 [("LSR/DLSR and RRTR/DLRR arithmetic", "src/sender_reports_history.cpp"), ("RTP time source", "src/rtp_time_source.cpp")],
 [("report histories", "NTP time to send instant", "src/sender_reports_history.cpp")],
 ["PeerConnection::setPublishConnectionStatsListener", "PeerConnection::setSubscribeConnectionStatsListener", "PeerConnection::setSubscribeSenderReportsListener"])

prop("C21", "Transport-wide feedback reports exactly what arrived",
 "Congestion-control feedback sent by a subscriber reports a packet as received only if that packet actually arrived, reports every arrived packet of the covered range exactly once with its arrival time correct to the encoding's resolution, and is generated regularly while packets arrive; the publisher's loss and bandwidth statistics derived from it stay within what the network really did. Loss, reordering, duplicates, sequence wrap, bursts and arbitrarily long pauses do not make it wrong, crash or hang.",
 F+S+H, "all arrival patterns and times of packets (loss, reordering, duplication, gaps, wraps, process pauses)",
 "The TWCC responder test replays a few hand-written arrival lists.",
 ["src/twcc_subscribe.cpp", "src/twcc_publish.cpp", "src/rtp_responder_twcc.cpp", "src/rtp_extension_source_twcc.cpp"],
 [("run-length / vector chunk builder", "src/twcc_subscribe.cpp"), ("feedback parser and history", "src/rtp_extension_source_twcc.cpp")],
 [("received packet window", "arrivals not yet reported", "src/twcc_subscribe.cpp")],
 ["datagrams on the wire", "PeerConnection::setPublishConnectionStatsListener"])

prop("C22", "The API is safe to call from any thread, and close() returns",
 "Any mix of publishing, data sending, statistics and track queries, listener changes, close() and destruction from several threads, concurrent with the network thread and its callbacks, causes no data race consequence (crash, memory error, lost wake-up, deadlock): every call returns, close() returns within a bounded time, and frames published by one thread keep their order.",
 S, "all interleavings of API calls on up to several caller threads with the network threads of both peers",
 "Interleavings are not controlled by any test and PeerConnection is untested.",
 ["src/peer_connection.cpp", "src/event_loop_linux.cpp", "src/logging.cpp"],
 [("mMutex / mListenerMutex", "src/peer_connection.cpp"), ("eventfd wake-up", "src/event_loop_linux.cpp")],
 [("send queues", "work handed to the network thread", "src/peer_connection.cpp")],
 ["API return", "listeners"])

prop("C23", "Scheduled tasks run once, on time, and never after cancellation",
 "A task submitted to a scheduler runs exactly once, not before its delay has elapsed on the monotonic clock, in order of due time, and (given the scheduler is being run) promptly after; a task cancelled before it started never runs, an updated task runs at its new time only, and once a scoped scheduler or threaded scheduler is destroyed none of its tasks starts.",
 S+H, "all interleavings of submit, update, cancel, destruction and execution across threads, re-entrant use from inside tasks, spurious wake-ups, wall-clock jumps and oversleeping",
 "There is no scheduler test; cancellation and destruction races depend on schedules.",
 ["src/scheduler.cpp", "include/srtc/scheduler.h"],
 [("sorted task queue", "src/scheduler.cpp"), ("scoped cancellation", "src/scheduler.cpp")],
 [("mTaskQueue", "pending tasks by due time", "src/scheduler.cpp")],
 ["task execution"])

prop("C24", "Transient system-call failures do no lasting harm",
 "Interrupted, spuriously ready, refused or resource-exhausted socket, event and polling calls (EINTR, EAGAIN, ENOBUFS, ENETUNREACH, ECONNREFUSED, short readiness) are at worst equivalent to losing the datagrams concerned: no crash, no busy loop, no lost wake-up, no state change, and normal service once calls succeed again.",
 F+S, "all placements of transient failures in socket, eventfd and epoll calls",
 "System-call failures are never injected by the tests.",
 ["src/socket.cpp", "src/event_loop_linux.cpp", "src/peer_candidate.cpp", "src/send_pacer.cpp"],
 [("non-blocking receive loop", "src/socket.cpp"), ("epoll wait and eventfd", "src/event_loop_linux.cpp")],
 [], ["listeners", "datagrams on the wire"])

prop("C25", "Key-frame requests reach the publisher",
 "When a subscriber requests a key frame (explicitly, or periodically when configured; a conforming peer may ask with PLI or FIR) while connected and the request gets through, the publisher's key-frame listener is called, once per delivered request, for every video track; and it is never called when no subscriber asked.",
 F+S+C, "all request times, track counts, intervals, losses and duplications",
 "No test covers PLI; per-stream index handling over several tracks matters only in long histories.",
 ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/rtcp_packet.cpp"],
 [("sendPictureLossIndicator", "src/peer_candidate.cpp"), ("periodic task", "src/peer_connection.cpp")],
 [], ["PeerConnection::setPublishKeyFrameRequestedListener"])

prop("C26", "Frames are attributed to the right track with the right timing",
 "Each delivered frame is attributed to the track it was published on (also with several audio/video tracks or simulcast layers and their retransmission streams), its RTP timestamp differs from another frame's on that track by exactly the published time difference in clock units (to rounding), and a capture time attached to a frame by the publisher is the one delivered with it.",
 F+S+C, "all track and simulcast configurations, retransmissions, losses and timestamp wraps",
 "No test runs several tracks or compares timing end to end.",
 ["src/rtp_time_source.cpp", "src/peer_candidate.cpp", "src/rtp_packet.cpp", "src/rtp_extension_source_simulcast.cpp", "src/rtp_extension_source_abs_capture_time.cpp", "src/jitter_buffer.cpp"],
 [("SSRC / payload type lookup", "src/peer_candidate.cpp"), ("RTX unwrapping", "src/rtp_packet.cpp")],
 [], ["PeerConnection::setSubscribeEncodedFrameListener"])

prop("C27", "Traffic statistics equal what was really sent and received",
 "The frame, packet and byte counts reported in connection statistics and sender reports equal the numbers of frames handed over and genuine media packets actually sent or received on the wire up to that moment, are non-decreasing within one connection, and reported loss is zero when nothing was lost, delayed or reordered and positive when a substantial share of packets was lost.",
 F+S+H, "all traffic mixes, retransmissions, losses, duplications and injected forgeries",
 "Statistics are untested.",
 ["src/track_stats.cpp", "src/peer_connection.cpp", "src/peer_candidate.cpp", "src/send_pacer.cpp"],
 [("TrackStats counters", "src/track_stats.cpp")],
 [], ["PeerConnection::setPublishConnectionStatsListener", "PeerConnection::setSubscribeConnectionStatsListener"])

prop("C28", "Resource use stays bounded whatever the network does",
 "Memory held and work per datagram stay within fixed bounds over arbitrarily long sessions and under floods of duplicated, forged or out-of-window datagrams, outages with continued publishing, never-acknowledged feedback and repeated reconnects; and everything is released when the connection is closed.",
 F+H, "all sustained floods, outages and session lengths",
 "Needs long histories with adversarial traffic.",
 ["src/srtp_connection.cpp", "src/ice_agent.cpp", "src/send_rtp_history.cpp", "src/sctp/sctp_session.cpp", "src/jitter_buffer.cpp", "src/peer_candidate.cpp"],
 [("bounded histories and expiry", "src/send_rtp_history.cpp, src/ice_agent.cpp")],
 [], ["live allocations of the simulated process"])

prop("C29", "Simulcast layers stay attributable",
 "When a video is published in several layers, every packet of a layer's key frames and of its first hundred packets, and every retransmission on its repair stream, names its own media and its own layer, and describes all of the layers as configured at the time (also after a layer's size or rates were updated); no packet carries another layer's identity or a header extension which was not negotiated for its media; whatever the interleaving of layers, loss, retransmission and reconnects.",
 F+S+H, "all layer sets, interleavings of layers, losses and retransmission orders",
 "The current layer's identity is kept in state shared by all tracks; no test publishes two layers.",
 ["src/rtp_extension_source_simulcast.cpp", "src/simulcast_layer.cpp", "src/rtp_extension_builder.cpp", "src/peer_candidate.cpp"],
 [("prepare/clear per frame", "src/peer_candidate.cpp PeerCandidate::process"), ("updateForRtx", "src/rtp_extension_source_simulcast.cpp")],
 [], ["PeerConnection::publishVideoFrame"])

prop("C30", "Datagrams fit the path",
 "No datagram sent is larger than a path with the IPv6 minimum MTU carries (1232 bytes of UDP payload): media packets with their header extensions, probing padding, encryption overhead and retransmission headers, control and feedback packets about any pattern of loss, data channel messages of any size, acknowledgements of any pattern of loss, and handshakes. Only an audio frame which is larger on its own is sent as it is.",
 F+S+H, "all frame and message sizes, header extensions, probing states, and loss patterns to report about",
 "Oversized datagrams only arise in combinations (probing, retransmission, many gaps to report), and loopback tests deliver them.",
 ["src/packetizer*.cpp", "src/rtp_packet.cpp", "src/rtp_extension_source_twcc.cpp", "src/twcc_subscribe.cpp", "src/sctp/sctp_session.cpp", "src/peer_candidate.cpp"],
 [("packet size less padding and extension", "src/packetizer_video.cpp adjustPacketSize"), ("gap blocks in a SACK", "src/sctp/sctp_session.cpp SctpSession::sendSack"), ("message fragments", "src/sctp/sctp_session.cpp SctpSession::sendMessage")],
 [], ["datagrams on the wire"])

prop("C90", "SDP offers and answers round-trip and reject malformed text",
 "An SDP offer generated from a configuration lists exactly the configured media, codecs, channels and credentials, and parsing any text as an answer either yields an answer consistent with that text or an error, without crashing.",
 I+C, "all configurations and all answer texts",
 "There are no SDP tests; the input space is unbounded.",
 ["src/sdp_offer.cpp", "src/sdp_answer.cpp"], [("line parser", "src/sdp_answer.cpp")], [], ["SdpOffer::generate", "SdpAnswer::parse"])

prop("C91", "RTP/RTCP/SCTP/STUN serialisation round-trips",
 "Serialising and parsing any well-formed RTP, RTCP, SCTP or STUN structure (headers, extensions, padding, checksums, MACs) yields the same structure, and checksums equal their standard definitions.",
 I, "all well-formed values", "A few vectors are tested.",
 ["src/rtp_packet.cpp", "src/rtp_extension.cpp", "src/rtcp_packet.cpp", "src/sctp/sctp_crc32.cpp", "src/stun/*.cpp"], [("writers/readers", "src/byte_buffer.cpp")], [], ["generate/parse functions"])

prop("C92", "Codec bitstream inspection is correct",
 "Key-frame detection, parameter-set handling, and resolution extraction from H.264, H.265, VP8, VP9 and AV1 bitstreams give the results the codec specifications define, for any bitstream.",
 I, "all bitstreams", "Only one H.264 packetizer case is tested.",
 ["src/codec_h264.cpp", "src/codec_h265.cpp", "src/codec_vp9.cpp", "src/codec_av1.cpp", "src/bit_reader.cpp"], [("bit readers", "src/bit_reader.cpp")], [], ["codec helper functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
