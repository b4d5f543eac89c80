// C21: transport-wide congestion control feedback.
#include "scen.h"

namespace
{
constexpr int kTwccId = 14;
struct Feedback {
    i64 first = 0; // unwrapped transport sequence numbers covered
    int count = 0;
    bool lost = true;
    i64 sentAt = 0;
};
struct Twcc {
    World& w;
    uint16_t offset; // added to the numbers in transit, so that the subscriber sees them wrap
    // publisher's numbering
    i64 nextPub = -1;
    struct Pkt {
        i64 sentAt = 0;
        size_t payload = 0;
        std::vector<i64> read; // times at which the subscriber read a packet with this number
        i64 firstRead = -1;
        int reports = 0;
        bool reportedMissing = false;
        bool certain = true;
        int nacks = 0;
        bool lostOnce = true; // the original did not arrive in time
        bool feedbackLost = false;
    };
    std::vector<Pkt> pkts; // index = unwrapped number - first
    i64 firstNo = 0;
    std::map<u64, i64> dgNo; // RTP datagram -> unwrapped number
    std::set<u64> readOnce;
    std::map<std::pair<uint32_t, uint16_t>, i64> seqNo; // (ssrc, seq) -> number, newest
    i64 highRead = -1; // highest number read
    i64 highCovered = -1;
    i64 lastRead = 0;
    double loBase = -1e18, hiBase = 1e18; // of the subscriber's time base, in us
    i64 proc = 5 * MS;
    int nextFb = -1;
    std::deque<Feedback> fbs;
    std::map<u64, size_t> fbByDg;
    i64 lastFb = -1; // newest feedback message the publisher has read
    i64 connectedS = 0;
    u64 feedbacks = 0, reported = 0, lateReads = 0, wraps = 0;
    bool clean = true;
    i64 cleanSince = 0;
    // bandwidth
    struct Arr {
        i64 t;
        u64 cum;
    };
    std::vector<Arr> arr;
    double maxBps = 0, minBps = 1e18;

    explicit Twcc(World& world) : w(world)
    {
        offset = 0;
        w.observeWire = true;
        w.onWire = [this](WirePkt& p) { wire(p); };
        net::hooks.onRecv = [this](int node, u64 dg) { recv(node, dg); };
        net::hooks.rewrite = [this](net::Dgram& d) { rewrite(d); };
        w.onDropHook = [this](const net::Dgram&, const char*) { dirty(); };
        w.onStats = [this](Peer& p) { stats(p); };
    }
    void dirty()
    {
        clean = false;
        cleanSince = now();
    }
    static size_t extOffset(const Bytes& plain) // of the transport sequence number's two bytes
    {
        if (plain.size() < 16 || !(plain[0] & 0x10)) return 0;
        size_t o = 12 + (size_t)(plain[0] & 15) * 4;
        const uint16_t prof = wire::be16(&plain[o]);
        const size_t end = o + 4 + (size_t)wire::be16(&plain[o + 2]) * 4;
        o += 4;
        while (o < end && end <= plain.size()) {
            if (plain[o] == 0) {
                o++;
                continue;
            }
            const int id = prof == 0xBEDE ? plain[o] >> 4 : plain[o];
            const size_t len = prof == 0xBEDE ? (plain[o] & 15) + 1 : plain[o + 1];
            const size_t h = prof == 0xBEDE ? 1 : 2;
            if (id == kTwccId && len == 2) return o + h;
            o += h + len;
        }
        return 0;
    }
    Pkt* pkt(i64 no) { return no >= firstNo && no < firstNo + (i64)pkts.size() ? &pkts[no - firstNo] : nullptr; }
    i64 unwrap(uint16_t v, i64 near) { return near + (int16_t)(uint16_t)(v - (uint16_t)near); }
    void wire(WirePkt& p)
    {
        if (p.node == 1 && !p.isRtcp && p.track >= 0) {
            auto m = p.rtp.extMap();
            auto it = m.find(kTwccId);
            if (it == m.end() || it->second.size() != 2) w.fail("C21", "no-number", "a media packet was sent without a transport-wide sequence number although it was negotiated");
            const uint16_t v = wire::be16(it->second.data());
            checked();
            const auto key = std::make_pair(p.rtp.ssrc, p.rtp.seq);
            const bool again = p.retransmission || (seqNo.count(key) && pkt(seqNo[key]) && nextPub - seqNo[key] < 30000);
            if (again) {
                dgNo[p.dg] = unwrap(v, nextPub - 1);
                return;
            }
            if (nextPub < 0) nextPub = firstNo = 0x10000 + v;
            if (v != (uint16_t)nextPub) w.fail("C21", "numbering", "a packet was sent with the transport-wide sequence number %u after %u", v, (uint16_t)(nextPub - 1));
            Pkt k;
            k.sentAt = now();
            k.payload = p.rtp.payload.size();
            pkts.push_back(k);
            dgNo[p.dg] = nextPub;
            seqNo[key] = nextPub;
            nextPub++;
        }
        if (p.node == 2 && p.isRtcp)
            for (auto& r : p.rtcp) {
                if (r.pt == 205 && r.rc == 15) feedback(p, r);
                if (r.pt == 205 && r.rc == 1)
                    for (size_t i = 4; i + 4 <= r.body.size(); i += 4) nack(wire::be32(&r.body[0]), wire::be16(&r.body[i]), wire::be16(&r.body[i + 2]));
            }
    }
    void nack1(uint32_t ssrc, uint16_t seq)
    {
        auto it = seqNo.find({ ssrc, seq });
        if (it == seqNo.end()) return;
        if (auto k = pkt(it->second)) k->nacks++;
    }
    void nack(uint32_t, uint16_t pid, uint16_t blp)
    {
        for (auto& t : w.tracks) {
            nack1(t.ssrc, pid);
            for (int i = 0; i < 16; i++)
                if (blp & (1 << i)) nack1(t.ssrc, (uint16_t)(pid + i + 1));
        }
    }
    void recv(int node, u64 dg)
    {
        if (node == 1) {
            auto it = fbByDg.find(dg);
            // one that was overtaken is as good as lost: the publisher has passed its judgement on the older packets already
            if (it != fbByDg.end()) {
                if ((i64)it->second >= lastFb) fbs[it->second].lost = false;
                lastFb = std::max<i64>(lastFb, (i64)it->second);
            }
            return;
        }
        auto it = dgNo.find(dg);
        if (it == dgNo.end()) return;
        if (!readOnce.insert(dg).second) return; // rejected as a replay
        auto k = pkt(it->second);
        if (!k) return;
        if (k->firstRead < 0) {
            k->firstRead = now();
            if (now() - k->sentAt > net::dir(1, 2).latency + net::dir(1, 2).jitter + 60 * MS) k->lostOnce = true;
            else k->lostOnce = false;
            if (it->second < highRead - 400 || (highRead >= 0 && it->second > highRead + 400)) k->certain = false;
            if (it->second > highRead + 200 && now() - lastRead > 1900 * MS) k->certain = true;
            if (it->second < highCovered) lateReads++;
            arr.push_back({ now(), (arr.empty() ? 0 : arr.back().cum) + k->payload });
            bandwidth();
        }
        if (highRead < 0 || it->second > highRead) {
            if (highRead >= 0 && (uint16_t)(it->second + offset) < (uint16_t)(highRead + offset)) wraps++;
            highRead = it->second;
        }
        lastRead = now();
        k->read.push_back(now());
    }
    void bandwidth()
    {
        const size_t m = arr.size() - 1;
        bool first = true;
        for (size_t j = m; j-- > 0;) {
            const i64 d = arr[m].t - arr[j].t;
            if (d > 2500 * MS && !first) break;
            if (d < 980 * MS || m - j + 1 < 30) continue;
            const double bps = (double)(arr[m].cum - (j ? arr[j - 1].cum : 0)) * 8e9 / (double)d;
            maxBps = std::max(maxBps, bps);
            if (d >= 1000 * MS && first) {
                minBps = std::min(minBps, bps);
                first = false;
            }
        }
    }
    // move the numbers
    void rewrite(net::Dgram& d)
    {
        if (!offset || !d.genuine || d.injected) return;
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end()) return;
        const WirePkt& p = *it->second;
        auto& srtp = w.obs[d.from].srtp;
        Bytes plain, out;
        if (d.from == 1 && !p.isRtcp && p.track >= 0) {
            const uint32_t roc = (uint32_t)(p.index >> 16);
            if (!srtp.unprotectRtp(d.data, roc, plain)) return;
            const size_t o = extOffset(plain);
            if (!o) return;
            const uint16_t v = (uint16_t)(wire::be16(&plain[o]) + offset);
            plain[o] = (uint8_t)(v >> 8);
            plain[o + 1] = (uint8_t)v;
            if (srtp.protectRtp(plain, roc, out)) d.data = out;
        }
        if (d.from == 2 && p.isRtcp) {
            uint32_t idx = 0;
            if (!srtp.unprotectRtcp(d.data, plain, idx)) return;
            size_t o = 0;
            bool any = false;
            while (o + 8 <= plain.size()) {
                const size_t len = ((size_t)wire::be16(&plain[o + 2]) + 1) * 4;
                if (plain[o + 1] == 205 && (plain[o] & 31) == 15 && o + 14 <= plain.size()) {
                    const uint16_t v = (uint16_t)(wire::be16(&plain[o + 12]) - offset);
                    plain[o + 12] = (uint8_t)(v >> 8);
                    plain[o + 13] = (uint8_t)v;
                    any = true;
                }
                o += len;
            }
            if (any && srtp.protectRtcp(plain, idx, out)) d.data = out;
        }
    }
    void feedback(const WirePkt& p, const wire::Rtcp& r)
    {
        const Bytes& b = r.body;
        if (!w.wanted("C21")) return;
        checked();
        feedbacks++;
        if (b.size() < 14) w.fail("C21", "malformed", "a feedback message of %zu bytes", b.size());
        const uint16_t base = wire::be16(&b[4]), count = wire::be16(&b[6]);
        const u64 ref = (u64)b[8] << 16 | (u64)b[9] << 8 | b[10];
        const int fb = b[11];
        if (nextFb >= 0 && fb != nextFb) w.fail("C21", "feedback-count", "feedback message number %d follows number %d", fb, (nextFb + 255) & 255);
        nextFb = (fb + 1) & 255;
        if (!count) w.fail("C21", "malformed", "a feedback message about no packets");
        std::vector<int> st;
        size_t o = 12;
        while (st.size() < count) {
            if (o + 2 > b.size()) w.fail("C21", "malformed", "a feedback message about %u packets has chunks for %zu", count, st.size());
            const uint16_t h = wire::be16(&b[o]);
            o += 2;
            if (!(h & 0x8000)) {
                for (int i = 0; i < (h & 0x1fff) && st.size() < count; i++) st.push_back((h >> 13) & 3);
            } else if (!(h & 0x4000)) {
                for (int i = 13; i >= 0 && st.size() < count; i--) st.push_back((h >> i) & 1);
            } else {
                for (int i = 12; i >= 0 && st.size() < count; i -= 2) st.push_back((h >> i) & 3);
            }
        }
        const i64 first = unwrap((uint16_t)(base - offset), highRead);
        double us = (double)ref * 64000.0;
        for (int i = 0; i < count; i++) {
            const i64 no = first + i;
            auto k = pkt(no);
            checked();
            if (st[i] == 3) w.fail("C21", "malformed", "a packet status with the reserved value 3");
            if (st[i] == 0) {
                if (k && k->certain && !k->read.empty() && k->read.front() < now() - proc)
                    w.fail("C21", "received-reported-missing", "packet %u was read %.3f s ago and is reported as not received%s", (uint16_t)(no + offset), (double)(now() - k->read.front()) / 1e9, k->reports ? ", after it was reported as received" : "");
                continue;
            }
            int delta = 0;
            if (st[i] == 1) {
                if (o + 1 > b.size()) w.fail("C21", "malformed", "a feedback message ends within its time deltas");
                delta = b[o++];
            } else {
                if (o + 2 > b.size()) w.fail("C21", "malformed", "a feedback message ends within its time deltas");
                delta = (int16_t)wire::be16(&b[o]);
                o += 2;
            }
            us += 250.0 * delta;
            if (!k || k->read.empty()) w.fail("C21", "phantom", "packet %u is reported as received; it did not arrive", (uint16_t)(no + offset));
            if (++k->reports > (int)k->read.size()) w.fail("C21", "reported-twice", "packet %u is reported as received %d times; it arrived %zu times", (uint16_t)(no + offset), k->reports, k->read.size());
            reported++;
            // its arrival time, against the time base common to all reports
            double bestErr = 1e18, bl = 0, bh = 0;
            for (i64 t : k->read) {
                const double lo = (double)t / 1000.0 - us - 500, hi = (double)t / 1000.0 + (double)proc / 1000.0 - us + 250;
                const double err = std::max(0.0, std::max(lo - hiBase, loBase - hi));
                if (err < bestErr) bestErr = err, bl = lo, bh = hi;
            }
            if (bestErr > 0) w.fail("C21", "wrong-time", "the reported arrival time of packet %u is off by more than %.3f ms", (uint16_t)(no + offset), bestErr / 1000);
            if (k->read.size() == 1) {
                loBase = std::max(loBase, bl);
                hiBase = std::min(hiBase, bh);
            }
        }
        if (b.size() - o > 3) w.fail("C21", "malformed", "%zu bytes are left at the end of a feedback message", b.size() - o);
        highCovered = std::max(highCovered, first + count);
        Feedback f;
        f.first = first;
        f.count = count;
        f.sentAt = now();
        fbByDg[p.dg] = fbs.size();
        fbs.push_back(f);
    }
    void complete()
    {
        if (!w.wanted("C21")) return;
        for (auto& k : pkts) {
            if (!k.certain || k.firstRead < connectedS || k.firstRead > now() - 350 * MS) continue;
            checked();
            if (!k.reports) w.fail("C21", "not-reported", "packet %u arrived %.3f s ago and was never reported", (uint16_t)(firstNo + (&k - pkts.data()) + offset), (double)(now() - k.firstRead) / 1e9);
        }
    }
    double lossBound()
    {
        std::vector<int> bad(pkts.size());
        for (size_t i = 0; i < pkts.size(); i++) bad[i] = (pkts[i].lostOnce ? 1 : 0) + pkts[i].nacks;
        for (auto& f : fbs)
            if (f.lost || now() - f.sentAt < 300 * MS)
                for (int i = 0; i < f.count; i++)
                    if (f.first + i >= firstNo && f.first + i < firstNo + (i64)bad.size()) bad[f.first + i - firstNo] += 1;
        // the worst 2047 (or first n) packets; numbers not older than the packets in flight
        double worst = 0;
        i64 sum = 0;
        for (size_t i = 0; i < bad.size(); i++) {
            sum += bad[i];
            if (i >= 2047) sum -= bad[i - 2047];
            if (i >= 28) worst = std::max(worst, 100.0 * (double)sum / (double)std::min<size_t>(i + 1, 2047));
        }
        return std::min(100.0, worst);
    }
    void stats(Peer& p)
    {
        if (p.node != 1 || !w.wanted("C21")) return;
        const auto& s = p.pubStats.back().second;
        checked(3);
        const double bw = s.bandwidth_actual_kbit_per_second;
        if (s.packets_lost_percent > lossBound() + 0.6) w.fail("C21", "loss-overstated", "the publisher reports %.2f%% of lost packets; at no time more than %.2f%% of those it looks at were lost, late or asked for again", s.packets_lost_percent, lossBound());
        if (bw > maxBps * 1.06 / 1024 + 5) w.fail("C21", "bandwidth-overstated", "the publisher reports %.1f kbit/s; no more than %.1f kbit/s arrived", bw, maxBps / 1024);
        if (bw != 0 && clean && bw < minBps * 0.94 / 1024 - 5) w.fail("C21", "bandwidth-understated", "the publisher reports %.1f kbit/s; never less than %.1f kbit/s arrived", bw, minBps / 1024);
        if (bw == 0 && clean && arr.size() > 2 && now() - arr.back().t < 300 * MS && cleanSince < now() - 4500 * MS) {
            size_t n = 0;
            for (size_t j = arr.size(); j-- > 0 && arr[j].t > now() - 4 * SEC;) n++;
            // (the publisher remembers 2048 packets and needs a second's worth of them)
            const bool sparse = arr.size() < 1900 || arr.back().t - arr[arr.size() - 1900].t > 4 * SEC;
            if (sparse && n > 240 && arr.front().t < now() - 4 * SEC) w.fail("C21", "no-bandwidth", "no bandwidth is reported although %zu packets were acknowledged during the last four seconds", n);
        }
        const double sug = s.bandwidth_suggested_kbit_per_second;
        if (sug < bw * 0.899 - 0.1) w.fail("C21", "suggestion", "%.1f kbit/s are suggested while %.1f kbit/s get through", sug, bw);
        if (clean && bw != 0) probe("bandwidth_exact");
    }
};
} // namespace

SCENARIO(twcc)
{
    setTimeLimit(now() + 300 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        c.bwe = true;
        pickNet(1);
    }
    const int netKind = (int)(param("net") % 4);
    if (netKind == 0) {
        Kernel k;
        net::dir(1, 2).jitter = net::dir(2, 1).jitter = 0;
    }
    World w(c);
    Twcc x(w);
    if (paramBool("wrap", 0.5)) x.offset = (uint16_t)(65536 - paramRange("wrap_at", 1, 2500));
    connectBoth(w);
    x.connectedS = now();
    x.cleanSince = now();
    if (netKind) schedFaults(0.3);
    setRate(F_STALL, 0);
    if (netKind >= 2) {
        const double p = paramBool("much", 0.3) ? paramReal("loss", 0.1, 0.5) : paramReal("loss_small", 0, 0.1);
        setNet(p, paramReal("dup", 0, 0.1), paramReal("late", 0, 0.15), paramRange("dmax", 1, 400) * MS, 0, 0, paramBool("bursts", 0.4) ? 0.005 : 0, paramBool("control", 0.6) ? net::RTP | net::RTCP : net::RTP);
        if (paramBool("long_bursts", 0.2)) {
            Kernel k;
            net::dir(1, 2).burstMax = 150;
        }
        x.dirty();
    }
    Load l(w);
    l.fps = (int)paramRange("fps", 1, 60);
    l.bigFrames = paramBool("big", 0.3);
    l.keyEvery = (int)paramRange("key_every", 5, 120);
    l.sizeScale = paramReal("scale", 0.1, 1.6);
    const i64 end = now() + paramRange("run", 3000, paramBool("long", 0.3) ? 24000 : 9000) * MS;
    int seg = 0, hugeTrack = 0;
    size_t hugeSize = 0;
    i64 pause = 0;
    while (now() < end) {
        auto P_ = [&](const char* n) { return n + std::to_string(seg); };
        l.run(std::min<i64>(paramRange(P_("seg").c_str(), 100, 3000) * MS, end - now()));
        if (w.P.terminal || w.S.terminal) simError("connection ended");
        if (pause) sleepFor(pause);
        pause = 0;
        if (hugeSize) w.publish(hugeTrack, false, hugeSize);
        hugeSize = 0;
        Kernel k;
        x.complete();
        const int what = (int)(param(P_("what").c_str()) % 8);
        if (what == 0 && netKind == 3 && fault(F_WINDOW, 1)) {
            const i64 len = paramRange(P_("cut").c_str(), 50, 4200) * MS;
            net::addWindow({ now(), now() + len, 1, 2, net::RTP | net::RTCP });
            if (paramBool(P_("both").c_str(), 0.3)) net::addWindow({ now(), now() + len, 2, 1, net::RTP | net::RTCP });
        }
        if (what == 1) { // silence
            pause = paramRange(P_("pause").c_str(), 50, 3600) * MS;
            l.nextAt.clear(), l.perTrack.clear();
        }
        if (what == 2) jumpWall((int)paramRange(P_("jn").c_str(), 1, 2), paramRange(P_("jump").c_str(), -3600000, 3600000) * MS);
        if (what == 3 && netKind >= 1) {
            net::dir(1, 2).latency = paramRange(P_("l12").c_str(), 200 * US, 300 * MS);
            x.dirty();
        }
        const bool huge = what == 5 || what == 6;
        if (huge) { // a large frame whose middle is lost
            int v = 0;
            while (v < (int)w.tracks.size() && !w.tracks[v].video) v++;
            const i64 at0 = now() + paramRange(P_("hole_at").c_str(), 1, 14) * MS, len = paramRange(P_("hole").c_str(), 2, 40) * MS;
            if (what == 5 && netKind >= 2 && fault(F_WINDOW, 1)) {
                net::addWindow({ at0, at0 + len, 1, 2, net::RTP });
                x.dirty();
            }
            hugeTrack = v;
            hugeSize = (size_t)paramRange(P_("huge").c_str(), 100000, 480000);
        }
        if (what == 4) l.fps = (int)paramRange(P_("fps").c_str(), 1, 60);
        seg++;
    }
    clearNet();
    sleepFor(700 * MS);
    {
        Kernel k;
        x.complete();
        probe("feedbacks", x.feedbacks);
        probe("reported", x.reported);
        probe("late_reads", x.lateReads);
        probe("transport_wraps", x.wraps);
    }
    w.finish();
}

// the publisher's own numbers wrap: more than 65536 packets
SCENARIO(twccwrap)
{
    setTimeLimit(now() + 400 * SEC, "time-limit");
    Config c;
    mediaConfig(c, 1);
    {
        Kernel k;
        c.bwe = true;
        c.absCap = false;
        for (auto& ln : c.lines) ln.layers.clear();
        pickNet(1);
    }
    World w(c);
    Twcc x(w);
    connectBoth(w);
    x.connectedS = now();
    x.cleanSince = now();
    const double loss = paramBool("lossy", 0.5) ? paramReal("loss", 0, 0.05) : 0;
    int v = 0;
    while (!w.tracks[v].video) v++;
    const size_t big = (size_t)paramRange("big", 40000, 110000);
    bool key = true;
    // most of the numbers are used up quickly
    while (x.nextPub < x.firstNo + 64500) {
        if (w.P.terminal || w.S.terminal) simError("connection ended");
        w.publish(v, key, big, 1, false, 10000);
        key = false;
        sleepFor(16 * MS);
    }
    setNet(loss, loss / 2, loss, paramRange("dmax", 1, 100) * MS);
    x.dirty();
    Load l(w);
    l.fps = (int)paramRange("fps", 20, 60);
    l.sizeScale = paramReal("scale", 0.3, 1);
    l.bigFrames = true;
    const i64 end = now() + 60 * SEC;
    while (now() < end && x.nextPub < x.firstNo + 68500) {
        l.run(500 * MS);
        if (w.P.terminal || w.S.terminal) simError("connection ended");
        Kernel k;
        x.complete();
    }
    clearNet();
    sleepFor(5300 * MS);
    {
        Kernel k;
        x.complete();
        probe("publisher_numbers", (u64)(x.nextPub - x.firstNo));
        if (x.nextPub > x.firstNo + 65600) probe("publisher_wraps");
    }
    w.finish();
}
