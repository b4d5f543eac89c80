// C20 (round-trip times, sender reports), C27 (traffic statistics), C25 (key-frame requests).
#include "scen.h"

namespace
{
// counts on the wire, independent of the code's own counters
struct Counter {
    u64 packets = 0, bytes = 0;
};
struct Books {
    World& w;
    struct T {
        Counter sent;                 // media and retransmissions
        u64 sentFrames = 0;           // frames whose last packet went out
        u64 retrans = 0, retransBytes = 0;
        std::deque<std::pair<i64, Counter>> arrived; // cumulative, first arrivals
        Counter arr;
        u64 lost = 0;
        std::set<u64> indices, arrivedIdx;
    };
    std::vector<T> t;
    i64 minD[3], maxD[3]; // one-way delays of control traffic from a node
    i64 lowRtt = -1, highRtt = 0;
    std::set<u64> arrivedDg;
    u64 framesHeard = 0;
    i64 connectedS = -1;
    std::map<uint32_t, std::deque<std::tuple<i64, Bytes, bool>>> srSent; // arrival time, body, announced
    u64 statsP = 0, statsS = 0, srs = 0, nacked = 0;
    srtc::PublishConnectionStats lastP{};
    srtc::SubscribeConnectionStats lastS{};
    bool clean = true; // nothing lost, late or out of order so far
    bool haveP = false, haveS = false;
    i64 slack = 40 * MS;
    i64 procSlack = 25 * MS;
    explicit Books(World& world) : w(world), t(world.tracks.size())
    {
        for (int i = 0; i < 3; i++) minD[i] = INT64_MAX, maxD[i] = 0;
        w.observeWire = true;
        w.onWire = [this](WirePkt& p) { wire(p); };
        w.onDeliver = [this](const net::Dgram& d) { deliver(d); };
        w.onDropHook = [this](const net::Dgram&, const char*) { clean = false; };
        w.onStats = [this](Peer& p) { stats(p); };
        w.onSr = [this](const Peer::Sr& s) { sr(s); };
        w.onFrame = [this](TrackInfo&, PubFrame&) { framesHeard++; };
    }
    void size()
    {
        if (t.size() < w.tracks.size()) t.resize(w.tracks.size());
    }
    void wire(WirePkt& p)
    {
        size();
        if (p.node == 1 && !p.isRtcp && p.track >= 0) {
            auto& x = t[p.track];
            x.sent.packets++;
            x.sent.bytes += p.size;
            if (p.retransmission || !x.indices.insert(p.index).second) { // without RTX it is the same packet again
                x.retrans++;
                x.retransBytes += p.size;
            } else {
                auto& tr = w.tracks[p.track];
                if (tr.video ? p.rtp.marker : true) x.sentFrames++;
            }
        }
        if (p.node == 1 && p.isRtcp)
            for (auto& r : p.rtcp)
                if (r.pt == 200) checkSr(p, r);
        if (p.node == 2 && p.isRtcp)
            for (auto& r : p.rtcp)
                if (r.pt == 205 && r.rc == 1) nacked++;
    }
    TrackInfo* bySsrc(uint32_t s)
    {
        for (auto& tr : w.tracks)
            if (tr.ssrc == s) return &tr;
        return nullptr;
    }
    // a sender report about to leave: counts, wall clock and media clock
    void checkSr(const WirePkt& p, const wire::Rtcp& r)
    {
        if (!w.wanted("C20") && !w.wanted("C27")) return;
        auto* tr = bySsrc(r.ssrc);
        if (!tr || r.body.size() < 20) w.fail("C20", "sr-malformed", "a sender report for the unknown SSRC %u", r.ssrc);
        checked();
        srs++;
        const auto& x = t[tr->index];
        const uint32_t pk = wire::be32(&r.body[12]), by = wire::be32(&r.body[16]);
        if (pk != (uint32_t)x.sent.packets && pk != (uint32_t)(x.sent.packets - x.retrans))
            w.fail(w.wanted("C20") ? "C20" : "C27", "sr-packet-count", "a sender report of track %d says %u packets; %llu were sent, %llu of them again", tr->index, pk, (unsigned long long)x.sent.packets, (unsigned long long)x.retrans);
        if (by != (uint32_t)x.sent.bytes && by != (uint32_t)(x.sent.bytes - x.retransBytes))
            w.fail(w.wanted("C20") ? "C20" : "C27", "sr-byte-count", "a sender report of track %d says %u bytes; %llu were sent", tr->index, by, (unsigned long long)x.sent.bytes);
        // NTP time
        const i64 wall = nodeWall(1);
        const double ntp = (double)wire::be32(&r.body[0]) + (double)wire::be32(&r.body[4]) / 4294967296.0;
        const double expect = (double)(wall / SEC + 2208988800LL) + (double)(wall % SEC) / 1e9;
        double off = expect - ntp;
        if (off > 2147483648.0) off -= 4294967296.0;
        if (lastJump && now() - lastJump < procSlack) off = 0; // the clock may have jumped in between
        if (w.wanted("C20") && (off < -0.001 || off > (double)procSlack / 1e9)) w.fail("C20", "sr-ntp", "a sender report's NTP time is %.6f s behind the publisher's wall clock", off);
        // RTP time: the capture clock, continued from the last frame
        const uint32_t rtp = wire::be32(&r.body[8]);
        bool ok = false, any = false;
        double best = 1e18;
        int seen = 0;
        for (int i = (int)tr->frames.size() - 1; i >= 0 && seen < 4; i--) {
            auto& f = tr->frames[i];
            if (!f.wireSeen) continue;
            if (f.at > now()) continue;
            seen++;
            any = true;
            const double since = (double)(now() - f.at) / 1e9 * tr->clock;
            const double got = (double)(int32_t)(rtp - f.rtpTs);
            const double lag = since - got; // the frame was taken over a little after the call
            const double lagMax = (double)procSlack / 1e9 * tr->clock + 2;
            if (lag >= -3 && lag <= lagMax) ok = true;
            best = std::min(best, std::abs(lag) / tr->clock * 1000);
        }
        if (any && !ok && w.wanted("C20")) w.fail("C20", "sr-rtp-time", "a sender report of track %d maps the wall clock to an RTP time which is %.2f ms off", tr->index, best);
        (void)p;
    }
    i64 lastJump = 0;
    void deliver(const net::Dgram& d)
    {
        size();
        if (d.injected || !d.genuine || d.from < 1 || d.from > 2) {
            clean = false;
            return;
        }
        if (d.cls == net::STUN || d.cls == net::RTCP) {
            const i64 x = now() - d.sentAt;
            minD[d.from] = std::min(minD[d.from], x);
            maxD[d.from] = std::max(maxD[d.from], x);
        }
        if (!arrivedDg.insert(d.id).second) return;
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end()) return;
        WirePkt& p = *it->second;
        if (d.to == 2 && !p.isRtcp && p.track >= 0) {
            auto& x = t[p.track];
            if (!p.retransmission && !x.arrivedIdx.insert(p.index).second) return;
            x.arr.packets++;
            x.arr.bytes += p.size;
            x.arrived.push_back({ now(), x.arr });
        }
        if (d.to == 2 && p.isRtcp)
            for (auto& r : p.rtcp)
                if (r.pt == 200) srSent[r.ssrc].push_back({ now(), r.body, false });
    }
    // announced to the application: exactly what was in the datagram, once, soon after its arrival
    void sr(const Peer::Sr& s)
    {
        if (!w.wanted("C20")) return;
        checked();
        auto& q = srSent[s.ssrc];
        for (auto& [t0, b, done] : q) {
            if (done) continue;
            if (wire::be32(&b[0]) != s.sr.ntp.seconds || wire::be32(&b[4]) != s.sr.ntp.fraction || wire::be32(&b[8]) != s.sr.rtp) continue;
            if (wire::be32(&b[12]) != s.sr.packet_count || wire::be32(&b[16]) != s.sr.octet_count)
                w.fail("C20", "sr-delivered-wrong", "the application was given other counts than the sender report has");
            if (now() - t0 > slack) w.fail("C20", "sr-late", "a sender report was announced %.3f s after its arrival", (double)(now() - t0) / 1e9);
            done = true;
            return;
        }
        w.fail("C20", "sr-unknown", "the application was given a sender report for SSRC %u which did not arrive, or arrived only once and was announced before", s.ssrc);
    }
    void checkAnnounced()
    {
        if (!w.wanted("C20")) return;
        for (auto& [ssrc, q] : srSent)
            for (auto& [t0, b, done] : q) {
                checked();
                if (done || t0 < connectedS || w.S.terminal) continue;
                if (now() - t0 > slack) w.fail("C20", "sr-not-announced", "a sender report for SSRC %u which arrived at %.3f s was not announced", ssrc, (double)(t0 - 1000 * SEC) / 1e9);
            }
    }
    void rtt(int node, double v)
    {
        if (v == 0 || !w.wanted("C20")) return;
        checked();
        probe("rtt_values");
        const double lo = (double)(minD[1] + minD[2]) / 1e6, hi = (double)(maxD[1] + maxD[2]) / 1e6;
        if (v < lo - 0.2 || v > hi + (double)procSlack / 1e6) w.fail("C20", "wrong-rtt", "node %d reports a round-trip time of %.2f ms; the network's was between %.2f and %.2f ms", node, v, lo, hi);
    }
    void stats(Peer& p)
    {
        size();
        if (p.node == 1) {
            const auto& s = p.pubStats.back().second;
            rtt(1, s.rtt_ms);
            if (w.wanted("C27")) {
                checked();
                statsP++;
                u64 pk = 0, by = 0, fr = 0;
                for (auto& x : t) pk += x.sent.packets, by += x.sent.bytes, fr += x.sentFrames;
                if (s.packet_count != pk) w.fail("C27", "packets-sent", "statistics say %zu packets, %llu were sent", s.packet_count, (unsigned long long)pk);
                if (s.byte_count != by) w.fail("C27", "bytes-sent", "statistics say %zu bytes, %llu were sent", s.byte_count, (unsigned long long)by);
                if (s.frame_count != fr) w.fail("C27", "frames-sent", "statistics say %zu frames, %llu were sent completely", s.frame_count, (unsigned long long)fr);
                if (haveP && (s.packet_count < lastP.packet_count || s.byte_count < lastP.byte_count || s.frame_count < lastP.frame_count)) w.fail("C27", "decreased", "the publisher's counts decreased");
                if (clean && s.packets_lost_percent != 0) w.fail("C27", "loss-invented", "the publisher reports %.2f%% of lost packets on a network without loss, delay or reordering", s.packets_lost_percent);
                if (haveP && !w.cfg.bwe && p.pubStats.size() >= 2) {
                    // without congestion control feedback: what was sent since the last report
                    const double d = (double)(p.pubStats.back().first - p.pubStats[p.pubStats.size() - 2].first) / 1e6, tol = (double)procSlack / 1e6 + 2;
                    const double bits = (double)(s.byte_count - lastP.byte_count) * 8;
                    const double v = s.bandwidth_actual_kbit_per_second;
                    if (d > tol && (v < bits / (d + tol) * 0.999 || v > bits / (d - tol) * 1.001)) w.fail("C27", "bandwidth", "the publisher reports %.1f kbit/s; %.0f bits were sent in %.1f ms", v, bits, d);
                    probe("bandwidth_checked");
                }
                if (s.packets_lost_percent < 0 || s.packets_lost_percent > 100) w.fail("C27", "loss-range", "the publisher reports %.2f%% of lost packets", s.packets_lost_percent);
            }
            lastP = s;
            haveP = true;
        } else {
            const auto& s = p.subStats.back().second;
            rtt(2, s.rtt_ms);
            if (w.wanted("C27")) {
                checked();
                statsS++;
                u64 hiP = 0, hiB = 0, loP = 0, loB = 0;
                for (auto& x : t) {
                    hiP += x.arr.packets, hiB += x.arr.bytes;
                    u64 a = 0, b = 0, preP = 0, preB = 0;
                    for (auto it = x.arrived.rbegin(); it != x.arrived.rend(); ++it)
                        if (it->first <= now() - slack) {
                            a = it->second.packets, b = it->second.bytes;
                            break;
                        }
                    for (auto& [at, c] : x.arrived) // before this side could decrypt
                        if (at < connectedS) preP = c.packets, preB = c.bytes;
                    loP += a > preP ? a - preP : 0, loB += b > preB ? b - preB : 0;
                }
                if (s.packet_count > hiP || s.packet_count < loP) w.fail("C27", "packets-received", "statistics say %zu packets, %llu arrived, %llu of them a while ago", s.packet_count, (unsigned long long)hiP, (unsigned long long)loP);
                if (s.byte_count > hiB || s.byte_count < loB) w.fail("C27", "bytes-received", "statistics say %zu bytes, %llu arrived, %llu of them a while ago", s.byte_count, (unsigned long long)hiB, (unsigned long long)loB);
                if (s.frame_count != framesHeard) w.fail("C27", "frames-received", "statistics say %zu frames, %llu were handed over", s.frame_count, (unsigned long long)framesHeard);
                if (haveS && (s.packet_count < lastS.packet_count || s.byte_count < lastS.byte_count || s.frame_count < lastS.frame_count)) w.fail("C27", "decreased", "the subscriber's counts decreased");
                if (clean && s.packets_lost_percent != 0) w.fail("C27", "loss-invented", "the subscriber reports %.2f%% of lost packets on a network without loss, delay or reordering", s.packets_lost_percent);
                if (s.packets_lost_percent < 0 || s.packets_lost_percent > 100) w.fail("C27", "loss-range", "the subscriber reports %.2f%% of lost packets", s.packets_lost_percent);
            }
            lastS = s;
            haveS = true;
        }
    }
};
} // namespace

SCENARIO(stats)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        if (paramBool("long_jb", 0.3)) c.jbLength = (int)paramRange("jb", 100, 400);
    }
    const int netKind = (int)(param("net") % 3);
    if (netKind == 0) {
        Kernel k;
        net::dir(1, 2).jitter = net::dir(2, 1).jitter = 0;
    }
    World w(c);
    Books b(w);
    connectBoth(w);
    b.connectedS = now();
    schedFaults(0.3);
    i64 lossy = 0;
    double p = 0;
    if (netKind == 1) {
        p = paramBool("much", 0.4) ? paramReal("loss", 0.2, 0.4) : paramReal("loss_small", 0, 0.15);
        setNet(p, 0.05, paramReal("late", 0, 0.1), paramRange("dmax", 1, 120) * MS);
        lossy = now();
        b.clean = false;
    }
    if (netKind == 2) b.clean = false; // latency changes disorder packets
    Load l(w);
    l.fps = (int)paramRange("fps", 5, 20);
    l.sizeScale = 0.5;
    const i64 end = now() + paramRange("run", 10500, 32000) * MS;
    int seg = 0;
    bool outage = false;
    u64 lostBefore = net::lostCount;
    while (now() < end) {
        auto P_ = [&](const char* n) { return n + std::to_string(seg); };
        l.run(std::min<i64>(paramRange(P_("seg").c_str(), 300, 6000) * MS, end - now()));
        if (w.P.terminal || w.S.terminal) simError("connection ended");
        Kernel k;
        const int what = (int)(param(P_("what").c_str()) % 6);
        if (what == 0 && fault(F_WALLJUMP, 1)) {
            jumpWall(1, (paramBool(P_("huge").c_str(), 0.2) ? 1000 : 1) * paramRange(P_("jump1").c_str(), -3600000, 3600000) * MS);
            b.lastJump = now();
        }
        if (what == 1 && fault(F_WALLJUMP, 1)) jumpWall(2, paramRange(P_("jump2").c_str(), -3600000, 3600000) * MS);
        if (what == 2 && netKind == 2) {
            net::dir(1, 2).latency = paramRange(P_("l12").c_str(), 200 * US, 250 * MS);
            net::dir(2, 1).latency = paramRange(P_("l21").c_str(), 200 * US, 250 * MS);
        }
        if (what == 3 && paramBool(P_("gap").c_str(), 0.3)) l.nextAt.clear(), l.perTrack.clear();
        seg++;
    }
    (void)outage;
    sleepFor(600 * MS);
    {
        Kernel k;
        b.checkAnnounced();
        // the last report saw enough of the loss
        const u64 lost = net::lostCount - lostBefore;
        if (netKind == 1 && p >= 0.2 && lost > 100 && w.wanted("C27") && !w.S.subStats.empty() && w.S.subStats.back().first - lossy > 4 * SEC) {
            checked();
            probe("substantial_loss");
            if (w.S.subStats.back().second.packets_lost_percent <= 0) w.fail("C27", "loss-unreported", "the subscriber reports no loss, although %.0f%% of the packets were lost", p * 100);
            if (w.cfg.bwe && !w.P.pubStats.empty() && w.P.pubStats.back().first - lossy > 4 * SEC && w.P.pubStats.back().second.packets_lost_percent <= 0)
                w.fail("C27", "loss-unreported", "the publisher reports no loss, although %.0f%% of the packets were lost", p * 100);
        }
    }
    probe("stats_checked", b.statsP + b.statsS);
    probe("sr_checked", b.srs);
    w.finish();
}
