// Media scenarios: C01 C02 C03 C04 C05 C06 C19 C26.
#include "scen.h"
#include "srtc/rtp_packet_source.h"

std::string describeFrame(World& w, TrackInfo& t, PubFrame& f)
{
    (void)w;
    char b[400];
    snprintf(b, sizeof b, "track %d (codec %d, %s) frame #%llu (%zu bytes, key %d, published at %.3f s, %d packets on the wire from seq %u, %d lost, last arrival %.3f s)", t.index, (int)t.codec, t.video ? "video" : "audio", (unsigned long long)f.id, f.size, f.key, (double)(f.at - 1000 * SEC) / 1e9, f.packets, f.firstSeq, f.lostPackets, f.lastArrival ? (double)(f.lastArrival - 1000 * SEC) / 1e9 : -1.0);
    return b;
}

SCENARIO(smoke)
{
    setTimeLimit(now() + 60 * SEC, "time-limit");
    Config c;
    {
        Kernel k;
        c.lines.push_back(videoLine("v", srtc::Codec::H264));
        c.lines.push_back(audioLine("a"));
        pickProfile();
        pickNet(1);
    }
    World w(c);
    w.observeWire = true;
    connectBoth(w);
    Load l(w);
    l.run(5 * SEC);
    sleepFor(SEC);
    w.finish();
}

// Every frame published in [from, to) must have been delivered; checks delivery latency too.
void completeness(World& w, const char* prop, size_t* from, i64 jb, i64 lateSlack, const std::function<bool(TrackInfo&, PubFrame&)>& excused)
{
    Kernel k;
    for (auto& t : w.tracks) {
        i64 due = 0;      // frames come in order: a late one holds up those behind it
        bool any = false; // the receiver withholds video frames until the first key frame
        for (size_t i = 0; from && i < from[t.index] && i < t.frames.size(); i++) any |= t.frames[i].delivered;
        for (size_t i = from ? from[t.index] : 0; i < t.frames.size(); i++) {
            auto& f = t.frames[i];
            if (!f.connected) continue;
            checked();
            any |= f.delivered;
            if (!f.delivered && !f.key && !any && t.video) continue;
            if (!f.delivered && excused && excused(t, f)) continue;
            if (!f.delivered) {
                size_t missing = 0;
                for (auto& g : t.frames) missing += g.connected && !g.delivered;
                w.fail(prop, "frame-missing", "%s was never delivered (%zu of %zu frames of the track missing)", describeFrame(w, t, f).c_str(), missing, t.frames.size());
            }
            if (lateSlack > 0 && f.lastArrival) {
                // a frame may be held until its playout time: the first arrival of the track plus the presentation distance plus the buffer length
                if (w.ptsJumps) due = std::max(due, f.lastArrival + SEC + jb);
                else due = std::max({ due, f.lastArrival, t.frames[0].lastArrival + (f.pts - t.frames[0].pts) * 1000 + jb });
                if (f.deliveredAt > due + lateSlack) w.fail(prop, "frame-late", "%s was delivered at %.3f s, %.1f ms after it was complete and due", describeFrame(w, t, f).c_str(), (double)(f.deliveredAt - 1000 * SEC) / 1e9, (double)(f.deliveredAt - due) / 1e6);
            }
        }
    }
}

// reordering and duplication within the jitter buffer, no loss: everything is delivered
SCENARIO(clean)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = paramBool("long_jb", 0.7) ? (int)paramRange("jb", 150, 500) : 0;
    }
    World w(c);
    w.observeWire = true;
    w.lossless = true;
    w.ptsJumps = paramBool("pts_jumps", 0.2);
    connectBoth(w);
    schedFaults(1);
    const i64 spread = c.jbLength ? (c.jbLength - 40) * MS / 2 : 3 * MS;
    const i64 flight = net::dir(1, 2).latency + net::dir(2, 1).latency + net::dir(1, 2).jitter + net::dir(2, 1).jitter;
    const i64 jbMax = c.jbLength * MS >= flight + 80 * MS ? c.jbLength * MS : std::max<i64>(c.jbLength * MS, 2 * flight + 100 * MS);
    setNet(0, paramReal("dup", 0, 0.2), paramReal("delay", 0, 0.5), spread);
    // in some runs, stretches of the media packets arrive in reverse order
    const bool rev = paramBool("reverse", 0.35);
    const double revP = rev ? paramReal("reverse_p", 0.002, 0.03) : 0;
    i64 revFrom = 0, revTo = 0;
    if (rev) net::hooks.policy = [&, spread](const net::Dgram& d) -> i64 {
        if (d.from != 1 || d.cls != net::RTP) return -2;
        if (now() > revTo && fault(F_DELAY, revP)) {
            revFrom = now();
            revTo = now() + (i64)(faultParam(F_DELAY) % (u64)std::max<i64>(1, spread / 2));
        }
        if (now() > revTo) return -2;
        probe("reversed");
        return 2 * (revTo - now());
    };
    if (paramBool("jump_wall", 0.3)) {
        const i64 d = paramRange("wall_delta", -3600, 3600) * SEC;
        at(now() + paramRange("wall_at", 0, 8) * SEC, [d] { if (fault(F_WALLJUMP, 1)) jumpWall(1 + (int)(param("wall_node") % 2), d); });
    }
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 60);
    l.keyEvery = (int)paramRange("key_every", 10, 90);
    l.bigFrames = paramBool("big", 0.3);
    if (rev && paramBool("high_rate", 0.5)) {
        l.bigFrames = true;
        l.sizeScale = 3;
    }
    if (paramBool("near_wrap", 0.3))
        for (auto& t : w.tracks) {
            w.advanceSequence(t.index, (int)paramRange("wrap_before", 100, 500), false);
            w.advanceTimestamp(t.index, paramRange("ts_before", 0, 400000));
        }
    l.run(paramRange("dur", 4, 14) * SEC);
    sleepFor(jbMax + 500 * MS);
    completeness(w, "C03", nullptr, jbMax, rate(F_OVERSLEEP) > 0 ? 150 * MS : 30 * MS);
    net::hooks.policy = nullptr;
    w.finish();
}

// anything goes on the media path
SCENARIO(lossy)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = paramBool("long_jb", 0.5) ? (int)paramRange("jb", 50, 400) : 0;
        if (paramBool("no_nack", 0.15))
            for (auto& l : c.lines) l.nack = false;
    }
    World w(c);
    w.observeWire = true;
    connectBoth(w);
    schedFaults(1);
    const int m = (int)(param("mix") % 6);
    setNet(m == 0 ? 0 : paramReal("loss", 0, m == 5 ? 0.4 : 0.12), paramReal("dup", 0, m == 1 ? 0.5 : 0.1), m == 2 ? 0 : paramReal("delay", 0, 0.3), paramRange("delay_max", 5, m == 3 ? 2500 : 150) * MS, paramReal("corrupt", 0, 0.03), paramReal("trunc", 0, 0.01), m == 4 ? 0.01 : 0);
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 60);
    l.keyEvery = (int)paramRange("key_every", 5, 60);
    l.bigFrames = paramBool("big", 0.3);
    if (paramBool("near_wrap", 0.4))
        for (auto& t : w.tracks) {
            w.advanceSequence(t.index, (int)paramRange("wrap_before", 0, 600), paramBool("rtx_wrap", 0.5), (int)paramRange("rtx_wrap_before", 0, 60));
            if (paramBool("ts_wrap", 0.5)) w.advanceTimestamp(t.index, paramRange("ts_before", 0, 500000));
        }
    l.run(paramRange("dur", 4, 16) * SEC);
    sleepFor(SEC);
    w.finish();
}

// Loss of first transmissions only: everything is requested, retransmitted and delivered
SCENARIO(nack)
{
    const bool wrapping = std::string(plan().prop) == "C06"; // the wrap of every stream, retransmissions included
    const char* const P = wrapping ? "C06" : "C04";
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    i64 rtt;
    {
        Kernel k;
        pickNet(1);
        rtt = net::dir(1, 2).latency + net::dir(2, 1).latency + 8 * MS;
        c.jbLength = (int)(rtt / MS) + (int)paramRange("jb_extra", 150, 900);
        c.nackDelay = paramBool("own_nack_delay", 0.4) ? (int)paramRange("nack_delay", 1, 60) : 0;
    }
    World w(c);
    w.observeWire = true;
    w.ownPolicy = true;
    const double p = paramReal("loss_p", 0.005, 0.25);
    const int burstLen = (int)paramRange("burst_len", 2, 60);
    const double pb = paramBool("bursts", 0.5) ? 0.004 : 0;
    const i64 rtcpDelay = paramBool("slow_rtcp", 0.3) ? paramRange("rtcp_delay", 0, std::max<i64>(0, c.jbLength * MS - rtt - 120 * MS - c.nackDelay * MS)) : 0;
    std::map<int, int> arrivedOf, burst;
    bool dropping = true;
    std::map<std::pair<int, uint16_t>, i64> lostAt; // (track, seq)
    std::map<std::pair<int, uint16_t>, int> asked, resent;
    std::map<std::pair<int, uint16_t>, const WirePkt*> original;
    u64 losses = 0;
    struct Timing {
        i64 revealed = 0, asked = 0, askArrived = 0, resent = 0;
    };
    std::map<std::pair<int, uint16_t>, Timing> timing;
    struct Base {
        i64 t = 0, pts = 0;
        uint16_t top = 0;
    };
    std::map<int, Base> base;
    std::map<std::pair<int, int>, i64> complete; // (track, frame) -> last needed arrival
    net::hooks.policy = [&](const net::Dgram& d) -> i64 {
        if (d.from == 2 && d.cls == net::RTCP && rtcpDelay) return rtcpDelay;
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end() || d.from != 1 || d.cls != net::RTP) return -2;
        auto& q = *it->second;
        if (q.track < 0 || q.retransmission) return -2;
        auto key = std::make_pair(q.track, q.rtp.seq);
        auto o = original.find(key);
        if (o != original.end() && o->second != &q && now() - o->second->t < 5 * SEC) return -2; // retransmission without RTX
        original[key] = &q;
        if (++arrivedOf[q.track] < 4 || !dropping || !w.tracks[q.track].sub->hasNack()) return -2;
        bool drop = fault(F_LOSS, p);
        if (burst[q.track] > 0) {
            burst[q.track]--;
            drop |= fault(F_BURST, 1);
        } else if (pb > 0 && fault(F_BURST, pb)) {
            burst[q.track] = (int)(faultParam(F_BURST) % (u64)burstLen);
            drop = true;
        }
        if (!drop) return -2;
        losses++;
        lostAt[key] = now();
        return -1;
    };
    w.onWire = [&](WirePkt& q) {
        if (q.node == 1 && !q.isRtcp && q.track >= 0) {
            auto& t = w.tracks[q.track];
            uint16_t seq = q.retransmission ? q.origSeq : q.rtp.seq;
            auto key = std::make_pair(q.track, seq);
            auto o = original.find(key);
            if (o == original.end() || now() - o->second->t > 5 * SEC) {
                if (q.retransmission && w.wanted("C04")) w.fail("C04", "bogus-retransmission", "track %d: a retransmission names sequence number %u, which was not sent before", q.track, seq);
                return;
            }
            auto& a = *o->second;
            resent[key]++;
            if (!timing[key].resent) timing[key].resent = now();
            probe("retransmissions");
            checked();
            if (!w.wanted("C04")) return;
            if (t.sub->getRtxPayloadId() > 0 && c.rtx && !q.retransmission && t.rtxSsrc) w.fail("C04", "not-on-rtx", "track %d packet %u was retransmitted on the media stream although RTX was negotiated", q.track, seq);
            Bytes pl = q.rtp.payload;
            if (q.retransmission) pl.erase(pl.begin(), pl.begin() + std::min<size_t>(2, pl.size()));
            if (pl != a.rtp.payload) w.fail("C04", "payload-differs", "track %d: the retransmission of packet %u carries %zu payload bytes that differ from the original's %zu", q.track, seq, pl.size(), a.rtp.payload.size());
            if (q.rtp.ts != a.rtp.ts || q.rtp.marker != a.rtp.marker) w.fail("C04", "header-differs", "track %d: the retransmission of packet %u has another timestamp or marker than the original", q.track, seq);
        }
        if (q.node == 2 && q.isRtcp)
            for (auto& r : q.rtcp)
                if (r.pt == 205 && r.rc == 1 && r.body.size() >= 8) {
                    const uint32_t ssrc = wire::be32(r.body.data());
                    for (auto& t : w.tracks)
                        if (t.ssrc == ssrc)
                            for (size_t i = 4; i + 4 <= r.body.size(); i += 4) {
                                const uint16_t pid = wire::be16(&r.body[i]), blp = wire::be16(&r.body[i + 2]);
                                for (int b = -1; b < 16; b++)
                                    if (b < 0 || (blp >> b & 1)) {
                                        const auto key = std::make_pair(t.index, (uint16_t)(pid + 1 + b));
                                        asked[key]++;
                                        auto& tm = timing[key];
                                        if (!tm.asked) tm.asked = now();
                                    }
                            }
                }
    };
    w.onDeliver = [&](const net::Dgram& d) {
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end() || d.injected || !d.genuine) return;
        auto& q = *it->second;
        if (d.to == 2 && !q.isRtcp && q.track >= 0) {
            auto& t = w.tracks[q.track];
            const uint16_t seq = q.retransmission ? q.origSeq : q.rtp.seq;
            auto o = original.find({ q.track, seq });
            if (o == original.end() || o->second->frame < 0) return;
            auto& last = complete[{ q.track, o->second->frame }];
            auto& b = base[q.track];
            if (!b.t) b = { now(), t.frames[o->second->frame].pts, seq };
            if (q.arrivals == 0 && !q.retransmission) {
                if ((int16_t)(seq - b.top) > 0) {
                    for (uint16_t x = b.top + 1; x != seq; x++)
                        if (lostAt.count({ q.track, x }) && !timing[{ q.track, x }].revealed) timing[{ q.track, x }].revealed = now();
                    b.top = seq;
                }
            }
            if (q.arrivals == 0) last = std::max(last, now());
        }
        if (d.to == 1 && q.isRtcp)
            for (auto& r : q.rtcp)
                if (r.pt == 205 && r.rc == 1 && r.body.size() >= 8)
                    for (auto& t : w.tracks)
                        if (t.ssrc == wire::be32(r.body.data()))
                            for (size_t i = 4; i + 4 <= r.body.size(); i += 4)
                                for (int b = -1; b < 16; b++)
                                    if (b < 0 || (wire::be16(&r.body[i + 2]) >> b & 1)) {
                                        auto& tm = timing[{ t.index, (uint16_t)(wire::be16(&r.body[i]) + 1 + b) }];
                                        if (!tm.askArrived) tm.askArrived = now();
                                    }
    };
    connectBoth(w);
    schedFaults(0.5);
    setNet(0, paramReal("dup", 0, 0.1), paramBool("reorder", 0.4) ? 0.2 : 0, std::min<i64>(30 * MS, 20 * MS));
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 60);
    l.keyEvery = (int)paramRange("key_every", 10, 90);
    l.bigFrames = paramBool("big", 0.2);
    if (paramBool("near_wrap", wrapping ? 1 : 0.4))
        for (auto& t : w.tracks) {
            w.advanceSequence(t.index, (int)paramRange("wrap_before", 100, 600), paramBool("rtx_wrap", wrapping ? 0.8 : 0.5), (int)paramRange("rtx_wrap_before", 20, 80));
            if (paramBool("ts_wrap", 0.4)) w.advanceTimestamp(t.index, paramRange("ts_before", 100000, 500000));
        }
    l.run(paramRange("dur", 4, 12) * SEC);
    dropping = false;
    l.run(SEC);
    sleepFor(c.jbLength * MS + SEC);
    {
        Kernel k;
        probe("lost_first_transmissions", losses);
        const i64 slack = rate(F_OVERSLEEP) > 0 ? 400 * MS : 60 * MS;
        for (auto& [key, t] : lostAt) {
            checked();
            auto& tr = w.tracks[key.first];
            if (!asked.count(key) && w.wanted("C04")) w.fail("C04", "not-requested", "track %d (codec %d) packet %u was lost at %.3f s and never requested", key.first, (int)tr.codec, key.second, (double)(t - 1000 * SEC) / 1e9);
            if (!resent.count(key) && w.wanted("C04")) w.fail("C04", "not-retransmitted", "track %d (codec %d) packet %u was lost, requested %d times and never retransmitted", key.first, (int)tr.codec, key.second, asked[key]);
            auto& tm = timing[key];
            // asked for soon after the gap became visible, answered soon after the request arrived
            if (w.wanted("C04") && tm.revealed && tm.asked > tm.revealed + std::max(c.nackDelay, 10) * MS + slack) w.fail("C04", "requested-late", "track %d packet %u was lost; the gap was visible at %.3f s, the request was sent %.1f ms later", key.first, key.second, (double)(tm.revealed - 1000 * SEC) / 1e9, (double)(tm.asked - tm.revealed) / 1e6);
            if (w.wanted("C04") && tm.askArrived && tm.resent > tm.askArrived + slack) w.fail("C04", "retransmitted-late", "track %d packet %u was requested at %.3f s, the retransmission was sent %.1f ms later", key.first, key.second, (double)(tm.askArrived - 1000 * SEC) / 1e9, (double)(tm.resent - tm.askArrived) / 1e6);
        }
    }
    // a frame can only be recovered when everything arrived before its playout time
    completeness(w, P, nullptr, c.jbLength * MS, 0, [&](TrackInfo& t, PubFrame& f) {
        auto& b = base[t.index];
        const bool late = complete[{ t.index, (int)(&f - &t.frames[0]) }] > b.t + (f.pts - b.pts) * 1000 + c.jbLength * MS - 40 * MS;
        if (late) probe("recovered_too_late");
        return late;
    });
    w.finish();
}

// Outages, loss bursts and delay bursts, with and without connection loss: media resumes
SCENARIO(outage)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = paramBool("long_jb", 0.5) ? (int)paramRange("jb", 50, 800) : 0;
    }
    World w(c);
    w.observeWire = true;
    connectBoth(w);
    schedFaults(0.5);
    Load l(w);
    l.fps = (int)paramRange("fps", 15, 60);
    l.keyEvery = (int)paramRange("key_every", 5, 40);
    l.bigFrames = paramBool("big", 0.5);
    l.sizeScale = paramBool("high_rate", 0.3) ? 3.0 : 1.0;
    if (paramBool("near_wrap", 0.3))
        for (auto& t : w.tracks) w.advanceSequence(t.index, (int)paramRange("wrap_before", 200, 3000), false);
    l.run(SEC);
    const int rounds = (int)paramRange("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        auto P_ = [&](const char* n) { return std::string(n) + std::to_string(r); };
        const int kind = (int)(param(P_("kind").c_str()) % 6);
        const i64 dur = kind == 0 ? paramRange(P_("short").c_str(), 20, 1000) * MS : kind == 1 || kind == 5 ? paramRange(P_("long").c_str(), 5000, 9600) * MS : paramRange(P_("mid").c_str(), 1000, 4900) * MS;
        const int who = (int)(param(P_("who").c_str()) % 4);
        if (kind <= 2) {
            if (who != 1) net::addWindow({ now(), now() + dur, 1, 2, net::ALL });
            if (who != 2) net::addWindow({ now(), now() + dur, 2, 1, net::ALL });
        } else if (kind == 3) {
            setNet(paramReal(P_("loss").c_str(), 0.3, 0.97), 0.1, 0.2, 300 * MS, 0, 0, 0, net::ALL);
        } else if (kind == 4) {
            setNet(0, 0.2, 0.9, paramRange(P_("dmax").c_str(), 200, 4000) * MS);
        } else {
            setNet(0.8, 0, 0.5, SEC, 0.02, 0.02, 0.02, net::RTP);
        }
        l.run(dur);
        if (kind <= 2 && paramBool(P_("skip").c_str(), 0.25)) // a fast stream: many packets fell into the outage
            for (auto& t : w.tracks) w.skipSequence(t.index, (int)paramRange(P_("skip_n").c_str(), 100, 30000));
        clearNet();
        // connected again, unless it failed for good
        const i64 heal = now();
        while (now() < heal + 10 * SEC && !w.P.terminal && !w.S.terminal && !(w.P.state == State::Connected && w.S.state == State::Connected)) l.run(50 * MS);
        if (w.P.terminal || w.S.terminal) {
            probe("outage_failed");
            break;
        }
        if (w.P.state != State::Connected || w.S.state != State::Connected) {
            if (w.wanted("C05")) w.fail("C05", "not-reconnected", "ten seconds after the network healed the peers are %s and %s", stateName(w.P.state), stateName(w.S.state));
            break;
        }
        const i64 back = now();
        l.run(4 * SEC + (i64)l.keyEvery * SEC / l.fps);
        if (w.P.terminal || w.S.terminal) {
            probe("outage_failed");
            break;
        }
        std::vector<size_t> from;
        for (auto& t : w.tracks) from.push_back(t.frames.size());
        l.run(1500 * MS);
        sleepFor(c.jbLength * MS + 700 * MS);
        Kernel k;
        bool flap = false;
        for (auto* p : { &w.P, &w.S })
            for (auto& s : p->states) flap |= s.t > back;
        if (flap) {
            probe("outage_flap");
            continue; // another property's subject
        }
        probe("outage_checked");
        for (auto& t : w.tracks)
            for (size_t i = from[t.index]; i < t.frames.size(); i++) {
                auto& f = t.frames[i];
                if (!f.connected) continue;
                checked();
                if (!f.delivered && w.wanted("C05")) {
                    size_t n = 0, m = 0;
                    for (size_t j = from[t.index]; j < t.frames.size(); j++) n += t.frames[j].connected, m += t.frames[j].connected && !t.frames[j].delivered;
                    w.fail("C05", "not-resumed", "round %d (kind %d, %.2f s): %s, published %.1f s after the network healed and the peers were connected, was not delivered (%zu of the %zu latest frames missing)", r, kind, (double)dur / 1e9, describeFrame(w, t, f).c_str(), (double)(f.at - back) / 1e9, m, n);
                }
            }
    }
    w.finish();
}

// Wrap-around under every kind of trouble
SCENARIO(wrap)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c, 1);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = (int)paramRange("jb", 250, 600);
    }
    World w(c);
    w.observeWire = true;
    connectBoth(w);
    schedFaults(0.5);
    Load l(w);
    l.fps = (int)paramRange("fps", 20, 60);
    l.keyEvery = (int)paramRange("key_every", 5, 30);
    l.bigFrames = paramBool("big", 0.3);
    const int mode = (int)(param("mode") % 3);
    for (auto& t : w.tracks) {
        // audio sends 50 packets a second, video a few hundred
        const i64 before = t.video ? paramRange("wrap_before", 150, 1500) : paramRange("wrap_before_a", 60, 200);
        w.advanceSequence(t.index, (int)before, false);
        if (paramBool("ts_wrap", 0.6)) w.advanceTimestamp(t.index, paramRange("ts_before", t.clock, t.clock * 4));
    }
    l.run(600 * MS);
    if (mode == 0) { // reordering and duplication within the buffer: everything arrives
        setNet(0, 0.2, 0.5, 90 * MS);
        l.run(paramRange("dur", 4, 8) * SEC);
    } else if (mode == 1) { // anything, then a healthy tail
        setNet(paramReal("loss", 0, 0.3), 0.2, 0.4, paramRange("dmax", 50, 3000) * MS, 0.01, 0.01, 0.003);
        l.run(paramRange("dur", 4, 8) * SEC);
        clearNet();
        l.run(4 * SEC);
    } else { // the wrap happens before, during or after a connection loss
        l.run(paramRange("pre", 0, 4000) * MS);
        const i64 d = paramRange("cut", 5200, 9000) * MS;
        net::addWindow({ now(), now() + d, 1, 2, net::ALL });
        net::addWindow({ now(), now() + d, 2, 1, net::ALL });
        l.run(d);
        const i64 heal = now();
        while (now() < heal + 10 * SEC && !w.P.terminal && !w.S.terminal && !(w.P.state == State::Connected && w.S.state == State::Connected)) l.run(50 * MS);
        l.run(5 * SEC);
    }
    const bool up = w.P.state == State::Connected && w.S.state == State::Connected;
    std::vector<size_t> from(w.tracks.size(), 0);
    if (mode != 0)
        for (auto& t : w.tracks) from[t.index] = t.frames.size();
    const size_t nStates = w.P.states.size() + w.S.states.size();
    l.run(2 * SEC);
    sleepFor(c.jbLength * MS + 600 * MS);
    {
        Kernel k;
        for (auto& t : w.tracks) {
            bool wrapped = false;
            for (auto& q : w.wirePkts) wrapped |= !q.isRtcp && q.track == t.index && !q.retransmission && (q.index >> 16) > 0;
            if (wrapped) probe("tracks_wrapped");
        }
    }
    if (up && nStates == w.P.states.size() + w.S.states.size()) completeness(w, "C06", mode == 0 ? nullptr : from.data(), c.jbLength * MS, 0);
    w.finish();
}

// The harness is an authenticated peer that asks for any of the packets the sender has to keep
SCENARIO(retx)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = (int)paramRange("jb", 50, 400);
        for (auto& l : c.lines) l.nack = l.nack || l.video;
    }
    World w(c);
    w.observeWire = true;
    struct Ask {
        int must = 0, may = 0, got = 0;
        i64 last = 0; // latest request that has to be served
        size_t back = 0;
    };
    std::map<int, std::vector<WirePkt*>> sentBy; // originals per track
    std::map<std::pair<int, WirePkt*>, Ask> asks;
    std::map<std::pair<int, uint16_t>, int> ahead;
    auto original = [&](int track, uint16_t seq) -> WirePkt* {
        auto& v = sentBy[track];
        for (size_t i = v.size(); i > 0 && i + 2000 > v.size(); i--)
            if (v[i - 1]->rtp.seq == seq) return v[i - 1];
        return nullptr;
    };
    w.onWire = [&](WirePkt& q) {
        if (q.node != 1 || q.isRtcp || q.track < 0) return;
        auto& t = w.tracks[q.track];
        const bool rtx = t.rtxSsrc && q.rtp.ssrc == t.rtxSsrc;
        if (!q.retransmission) {
            WirePkt* o = original(q.track, q.rtp.seq);
            if (!o || now() - o->t > 20 * SEC) {
                sentBy[q.track].push_back(&q);
                asks[{ q.track, &q }].may += ahead[{ q.track, q.rtp.seq }]; // requested a moment ago
                return;
            }
        }
        const uint16_t seq = rtx ? q.origSeq : q.rtp.seq;
        WirePkt* o = original(q.track, seq);
        probe("retransmissions");
        checked();
        if (!w.wanted("C04")) return;
        if (!o) w.fail("C04", "bogus-retransmission", "track %d: a retransmission names sequence number %u, which was not sent before", q.track, seq);
        auto& a = asks[{ q.track, o }];
        a.got++;
        if (a.got > a.may) w.fail("C04", "retransmitted-twice", "track %d packet %u was requested %d times and is retransmitted for the %dth time", q.track, seq, a.may, a.got);
        if (t.sub->getRtxPayloadId() > 0 && c.rtx && !rtx && t.rtxSsrc) w.fail("C04", "not-on-rtx", "track %d packet %u was retransmitted on the media stream although RTX was negotiated", q.track, seq);
        Bytes pl = q.rtp.payload;
        if (rtx) pl.erase(pl.begin(), pl.begin() + (long)std::min<size_t>(2, pl.size()));
        if (pl != o->rtp.payload) w.fail("C04", "payload-differs", "track %d: the retransmission of packet %u carries %zu payload bytes that differ from the original's %zu", q.track, seq, pl.size(), o->rtp.payload.size());
        if (q.rtp.ts != o->rtp.ts || q.rtp.marker != o->rtp.marker) w.fail("C04", "header-differs", "track %d: the retransmission of packet %u has another timestamp or marker than the original", q.track, seq);
    };
    w.onDeliver = [&](const net::Dgram& d) { // what the real receiver asks for
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end() || d.injected || d.to != 1 || !it->second->isRtcp) return;
        for (auto& r : it->second->rtcp)
            if (r.pt == 205 && r.rc == 1 && r.body.size() >= 8)
                for (auto& t : w.tracks)
                    if (t.ssrc == wire::be32(r.body.data()))
                        for (size_t i = 4; i + 4 <= r.body.size(); i += 4)
                            for (int b = -1; b < 16; b++)
                                if (b < 0 || (wire::be16(&r.body[i + 2]) >> b & 1))
                                    if (auto o = original(t.index, (uint16_t)(wire::be16(&r.body[i]) + 1 + b))) asks[{ t.index, o }].may++;
    };
    connectBoth(w);
    schedFaults(0.5);
    const double repeatP = paramBool("repeat", 0.4) ? 0.4 : 0;
    if (paramBool("near_wrap", 0.4))
        for (auto& t : w.tracks) w.advanceSequence(t.index, (int)paramRange("wrap_before", 20, 700), paramBool("rtx_wrap", 0.5), (int)paramRange("rtx_wrap_before", 1, 80));
    Load l(w);
    l.fps = (int)paramRange("fps", 20, 60);
    l.keyEvery = (int)paramRange("key_every", 10, 60);
    l.bigFrames = paramBool("big", 0.5);
    auto run = std::make_shared<bool>(true);
    uint32_t rtcpIndex = 1;
    u64 n = 0;
    const i64 gapMax = paramRange("gap", 5, 200) * MS;
    const uint32_t me = 0x5eed0000 + (uint32_t)(hash3(seed(), 0x3e, 0) & 0xffff);
    auto ask = [&] {
        Kernel k;
        Rng g(hash3(seed(), 0x3e7, n++));
        if (!fault(F_OP, 1)) return;
        net::Addr from;
        if (!net::lastPeer(1, from)) return;
        Bytes plain;
        for (u64 packets = 1 + (g(3) == 0); packets > 0; packets--) {
            auto& t = w.tracks[g(w.tracks.size())];
            if (!t.pub->hasNack() && t.pub->getRtxPayloadId() <= 0) continue;
            auto& v = sentBy[t.index];
            if (v.empty()) continue;
            Bytes body;
            std::set<uint16_t> have;
            for (u64 fci = 1 + g(4); fci > 0; fci--) {
                const size_t back = g(3) ? g(std::min<size_t>(v.size(), 500)) : g(std::min<size_t>(v.size(), 20));
                const uint16_t pid = v[v.size() - 1 - back]->rtp.seq;
                uint16_t blp = g(3) ? (uint16_t)g(65536) : g(2) ? (uint16_t)0xffff : 0;
                bool overlap = false;
                for (int b = -1; b < 16; b++)
                    if (b < 0 || (blp >> b & 1)) overlap |= have.count((uint16_t)(pid + 1 + b)) > 0;
                if (overlap) continue;
                for (int b = -1; b < 16; b++)
                    if (b < 0 || (blp >> b & 1)) {
                        const uint16_t s = (uint16_t)(pid + 1 + b);
                        have.insert(s);
                    }
                wire::put16(body, pid);
                wire::put16(body, blp);
            }
            Bytes p = { 0x81, 205 };
            wire::put16(p, (uint32_t)(2 + body.size() / 4));
            wire::put32(p, me);
            wire::put32(p, t.ssrc);
            p.insert(p.end(), body.begin(), body.end());
            if (body.empty()) continue;
            plain.insert(plain.end(), p.begin(), p.end());
        }
        Bytes out;
        if (!w.obs[2].srtp.ready()) wire::initSrtp(w.obs[2].srtp, 2, c.subIsServer);
        if (plain.empty() || !w.obs[2].srtp.protectRtcp(plain, rtcpIndex++, out)) return;
        const i64 delay = (i64)g(20 * MS);
        const u64 repeats = (double)g(1000) < repeatP * 1000 ? 1 + g(3) : 0;
        at(now() + delay, [&, plain, out, from] {
            for (auto& r : wire::parseRtcp(plain))
                for (auto& t : w.tracks)
                    if (t.ssrc == wire::be32(r.body.data()))
                        for (size_t i = 4; i + 4 <= r.body.size(); i += 4)
                            for (int b = -1; b < 16; b++)
                                if (b < 0 || (wire::be16(&r.body[i + 2]) >> b & 1)) {
                                    WirePkt* o = original(t.index, (uint16_t)(wire::be16(&r.body[i]) + 1 + b));
                                    if (!o) {
                                        ahead[{ t.index, (uint16_t)(wire::be16(&r.body[i]) + 1 + b) }]++;
                                        continue;
                                    }
                                    auto& a = asks[{ t.index, o }];
                                    a.may++;
                                    auto& v = sentBy[t.index]; // the sender keeps the last 512
                                    if (v[v.size() > 420 ? v.size() - 420 : 0]->index <= o->index) {
                                        a.must++;
                                        a.last = now();
                                        while (a.back < v.size() && v[v.size() - 1 - a.back] != o) a.back++;
                                    }
                                }
            net::inject(1, from, out, 0);
        });
        for (u64 i = 0; i < repeats; i++) net::inject(1, from, out, delay + 1 + (i64)g(50 * MS), true);
        probe("requests");
    };
    std::function<void()> step = [&, run] {
        if (!*run) return;
        ask();
        at(now() + 1 + (i64)(hash3(seed(), 0x3e8, n) % (u64)gapMax), step);
    };
    l.run(paramRange("warm", 100, 3000) * MS);
    at(now() + 1, step);
    const i64 slack = rate(F_OVERSLEEP) > 0 ? 400 * MS : 60 * MS;
    l.run(paramRange("dur", 2, 8) * SEC);
    *run = false;
    sleepFor(slack + 50 * MS);
    {
        Kernel k;
        for (auto& [key, a] : asks) {
            checked();
            if (a.got < a.must && w.wanted("C04")) w.fail("C04", "not-retransmitted", "track %d packet %u, among the last 420 sent, was requested %d times, last at %.4f s as the %zuth latest packet, and retransmitted %d times", key.first, key.second->rtp.seq, a.must, (double)(a.last - 1000 * SEC) / 1e9, a.back, a.got);
        }
    }
    w.finish();
}
