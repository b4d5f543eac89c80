// SRTP scenarios: C07 (forgeries), C08 (replays), C09 (nonces).
#include "scen.h"

namespace
{
// counts what genuinely arrived, to compare with what the library acted upon
struct Genuine {
    World& w;
    std::set<u64> seen;
    u64 pli = 0, sr = 0, packets = 0, bytes = 0;
    std::map<uint32_t, u64> srOf;
    explicit Genuine(World& world) : w(world) {}
    void deliver(const net::Dgram& d, u64 dgOverride = 0)
    {
        const u64 id = dgOverride ? dgOverride : d.id;
        if (!d.genuine || !seen.insert(id).second) return;
        auto it = w.byDg.find(id);
        if (it == w.byDg.end()) return;
        auto& q = *it->second;
        if (q.isRtcp) {
            for (auto& r : q.rtcp) {
                if (d.to == 1 && r.pt == 206 && (r.rc == 1 || r.rc == 4)) pli++;
                if (d.to == 2 && r.pt == 200) sr++;
            }
        } else if (d.to == 2) {
            packets++;
            bytes += q.size;
        }
    }
    void check(const char* prop)
    {
        Kernel k;
        checked(3);
        if (!w.wanted(prop)) return;
        if (w.P.keyReq > pli) w.fail(prop, "key-frame-requests", "the publisher was asked for %llu key frames, but only %llu genuine requests arrived", (unsigned long long)w.P.keyReq, (unsigned long long)pli);
        if (w.S.srs.size() > sr) w.fail(prop, "sender-reports", "%zu sender reports were announced, but only %llu genuine ones arrived", w.S.srs.size(), (unsigned long long)sr);
        if (!w.S.subStats.empty()) {
            auto& s = w.S.subStats.back().second;
            if (s.packet_count > packets) w.fail(prop, "statistics", "the subscriber counts %zu received packets, but only %llu genuine ones arrived", s.packet_count, (unsigned long long)packets);
        }
    }
};
struct Recorded {
    u64 id;
    int from, to, cls;
    Bytes data;
};
// repeats fn at random intervals while *run
void repeat(std::shared_ptr<bool> run, const char* name, i64 meanGap, std::function<void(u64)> fn)
{
    auto n = std::make_shared<u64>(0);
    auto step = std::make_shared<std::function<void()>>();
    *step = [=] {
        if (!*run) return;
        const u64 h = hash3(seed(), hashStr(name), (*n)++);
        fn(h);
        at(now() + 1 + (i64)(mix(h) % (u64)(2 * meanGap)), *step);
    };
    at(now() + meanGap, *step);
}
net::Addr addrOf(World& w, int asSeenBy)
{
    net::Addr a;
    (void)w;
    net::lastPeer(asSeenBy, a); // where the node sends to is where its peer's datagrams come from
    return a;
}
} // namespace

// forged datagrams beside genuine traffic, or instead of it
SCENARIO(forge)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = (int)paramRange("jb", 150, 400);
    }
    World w(c);
    w.observeWire = true;
    w.also = { "C01", "C02", "C26" };
    Genuine g(w);
    std::deque<Recorded> rec;
    w.onSend = [&](const net::Dgram& d) {
        if (d.cls != net::RTP && d.cls != net::RTCP) return;
        rec.push_back({ d.id, d.from, d.to, d.cls, d.data });
        if (rec.size() > 200) rec.pop_front();
    };
    w.onDeliver = [&](const net::Dgram& d) {
        if (!d.injected) g.deliver(d);
    };
    connectBoth(w);
    schedFaults(0.5);
    wire::Srtp wrong;
    {
        Kernel k;
        Bytes key(16, 0), salt(14, 0);
        for (auto& b : key) b = (uint8_t)(param("forge_key") >> (8 * (&b - &key[0]) % 64));
        wrong.init(0x0001, key, salt);
    }
    auto run = std::make_shared<bool>(true);
    auto forgeOne = [&](u64 h) {
        if (rec.empty() || !fault(F_INJECT, 1)) return;
        Kernel k;
        u64 r = h;
        auto next = [&](u64 m) { return (r = mix(r + 77)) % m; };
        // mostly recent packets: their neighbourhood is what a receiver would accept
        const auto& t = rec[next(4) ? rec.size() - 1 - next(std::min<size_t>(rec.size(), 12)) : next(rec.size())];
        Bytes b = t.data;
        int to = t.to;
        const int kind = (int)next(11);
        auto flip = [&](size_t lo, size_t hi) {
            if (hi > b.size()) hi = b.size();
            if (lo >= hi) return;
            const size_t bit = lo * 8 + next((hi - lo) * 8);
            b[bit / 8] ^= (uint8_t)(1 << (bit % 8));
        };
        switch (kind) {
        case 0:
            b.resize(12 + next(1200));
            for (auto& x : b) x = (uint8_t)next(256);
            b[0] = (uint8_t)(0x80 | (b[0] & 0x3f));
            break;
        case 1:
            for (u64 n = 1 + next(6), i = 0; i < n; i++) flip(0, b.size());
            break;
        case 2:
            if (next(2))
                b.resize(next(b.size() + 1));
            else
                b.resize(b.size() + 1 + next(60), (uint8_t)next(256));
            break;
        case 3: // another sequence number or timestamp, everything else genuine
            if (b.size() >= 12 && t.cls == net::RTP) {
                const uint16_t s = (uint16_t)(wire::be16(&b[2]) + (next(2) ? 1 + next(64) : next(65536)));
                b[2] = (uint8_t)(s >> 8);
                b[3] = (uint8_t)s;
            } else {
                flip(b.size() > 14 ? b.size() - 14 : 0, b.size());
            }
            break;
        case 4: // reflected to its sender
            to = t.from;
            break;
        case 5: // wrong key
            if (t.cls == net::RTP) {
                Bytes pl(12 + next(800), 0x41);
                std::copy(b.begin(), b.begin() + std::min<size_t>(12, b.size()), pl.begin());
                pl[0] = 0x80;
                wrong.protectRtp(pl, 0, b);
            } else {
                Bytes pl = { 0x81, 206, 0, 2 };
                wire::put32(pl, w.tracks[0].ssrc);
                wire::put32(pl, w.tracks[0].ssrc);
                wrong.protectRtcp(pl, (uint32_t)next(1 << 16), b);
            }
            break;
        case 6: // tag only
            flip(b.size() > 10 ? b.size() - 10 : 0, b.size());
            break;
        case 7: // payload only
            flip(12, b.size() > 10 ? b.size() - 10 : b.size());
            break;
        case 8: { // plain RTCP without protection
            b.clear();
            const int what = (int)next(3);
            b.push_back(0x81);
            b.push_back(what == 0 ? 206 : what == 1 ? 205 : 200);
            wire::put16(b, what == 1 ? 3 : what == 0 ? 2 : 6);
            wire::put32(b, w.tracks[0].ssrc);
            wire::put32(b, w.tracks[0].ssrc);
            for (int i = 0; i < (what == 1 ? 1 : what == 2 ? 4 : 0); i++) wire::put32(b, (uint32_t)next(1u << 31));
            wire::put32(b, next(2) ? 0x80000000u | (uint32_t)next(1000) : (uint32_t)next(1000));
            for (u64 n = next(17), i = 0; i < n; i++) b.push_back(0);
            break;
        }
        case 9: // header only
            flip(0, 12);
            break;
        case 10: // the trailer of RTCP: index and encryption bit
            flip(b.size() > 18 ? b.size() - 18 : 0, b.size() > 10 ? b.size() - 4 : b.size());
            break;
        }
        if (b == t.data && to == t.to) return;
        net::inject(to, addrOf(w, to), b, (i64)next(30 * MS), false);
        probe("forged");
    };
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 40);
    l.keyEvery = (int)paramRange("key_every", 10, 60);
    if (paramBool("near_wrap", 0.5))
        for (auto& t : w.tracks) w.advanceSequence(t.index, (int)paramRange("wrap_before", 100, 600), paramBool("rtx_wrap", 0.5), (int)paramRange("rtx_wrap_before", 0, 60));
    repeat(run, "forge", paramRange("gap", 500, 60000) * US, forgeOne);
    const bool lossy = paramBool("lossy", 0.3);
    if (lossy) setNet(0.05, 0.02, 0.1, 60 * MS);
    l.run(paramRange("dur", 3, 9) * SEC);
    const size_t states = w.P.states.size() + w.S.states.size();
    sleepFor(c.jbLength * MS + 500 * MS);
    g.check("C07");
    if (w.wanted("C07") && states > 4) w.fail("C07", "state-change", "forged datagrams made a peer leave the Connected state");
    if (!lossy && w.wanted("C07")) completeness(w, "C07", nullptr, c.jbLength * MS, 0);
    if (paramBool("cut", 0.3)) {
        // only forgeries from now on: they must not keep the connection alive
        const i64 t0 = now();
        net::addWindow({ t0, t0 + 60 * SEC, 1, 2, net::ALL });
        net::addWindow({ t0, t0 + 60 * SEC, 2, 1, net::ALL });
        sleepFor(7 * SEC);
        checked();
        probe("cut_checked");
        if (w.wanted("C07") && (w.P.state == State::Connected || w.S.state == State::Connected)) w.fail("C07", "kept-alive", "seven seconds after the last genuine datagram the peers are %s and %s: forgeries keep the connection alive", stateName(w.P.state), stateName(w.S.state));
        g.check("C07");
    }
    *run = false;
    w.finish();
}

// genuine datagrams captured and sent again
SCENARIO(replay)
{
    setTimeLimit(now() + 150 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = (int)paramRange("jb", 150, 400);
    }
    World w(c);
    w.observeWire = true;
    w.also = { "C01", "C02", "C26" };
    Genuine g(w);
    std::deque<Recorded> rec;
    u64 nackedSeqs = 0, resent = 0;
    std::set<u64> nackSeen;
    const size_t keep = (size_t)paramRange("keep", 50, 9000);
    bool recording = true;
    w.onSend = [&](const net::Dgram& d) {
        if (!recording || (d.cls != net::RTP && d.cls != net::RTCP)) return;
        rec.push_back({ d.id, d.from, d.to, d.cls, d.data });
        if (rec.size() > keep) rec.pop_front();
    };
    auto nackArrived = [&](u64 id) {
        if (!nackSeen.insert(id).second) return;
        auto it = w.byDg.find(id);
        if (it == w.byDg.end() || !it->second->isRtcp || it->second->node != 2) return;
        for (auto& r : it->second->rtcp)
            if (r.pt == 205 && r.rc == 1)
                for (size_t i = 4; i + 4 <= r.body.size(); i += 4) nackedSeqs += 1 + __builtin_popcount(wire::be16(&r.body[i + 2]));
    };
    std::set<u64> arrived;
    std::map<u64, u64> injectedOf; // content hash -> id of the original
    w.onDeliver = [&](const net::Dgram& d) {
        u64 id = d.id;
        if (!d.injected && recording && (d.to == 1 ? w.P : w.S).state == State::Connected) arrived.insert(id);
        if (d.injected) {
            auto it = injectedOf.find(hashBytes(d.data.data(), d.data.size()));
            if (it == injectedOf.end()) return;
            id = it->second;
        }
        g.deliver(d, id);
        if (d.to == 1) nackArrived(id);
    };
    w.onWire = [&](WirePkt& q) {
        if (q.node == 1 && !q.isRtcp && q.retransmission) resent++;
    };
    connectBoth(w);
    schedFaults(0.5);
    auto run = std::make_shared<bool>(true);
    const i64 maxAge = paramRange("max_delay", 1, 4000) * MS;
    auto replayOne = [&](u64 h) {
        if (rec.empty() || !fault(F_REPLAY, 1)) return;
        Kernel k;
        u64 r = h;
        auto next = [&](u64 m) { return (r = mix(r + 77)) % m; };
        const int mode = (int)next(4);
        size_t i = mode == 0 ? rec.size() - 1 : mode == 1 ? rec.size() - 1 - next(std::min<size_t>(rec.size(), 300)) : next(rec.size());
        if (mode == 3) // prefer control packets
            for (size_t j = 0; j < rec.size() && rec[i].cls != net::RTCP; j++) i = (i + 1) % rec.size();
        auto& t = rec[i];
        injectedOf[hashBytes(t.data.data(), t.data.size())] = t.id;
        for (u64 n = 1 + (next(5) == 0 ? next(4) : 0), j = 0; j < n; j++) net::inject(t.to, addrOf(w, t.to), t.data, (i64)next((u64)maxAge), true);
        probe("replayed");
    };
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 40);
    l.keyEvery = (int)paramRange("key_every", 10, 60);
    if (paramBool("high_rate", 0.3)) { // beyond the size of any window
        l.bigFrames = true;
        l.sizeScale = 3;
        l.fps = 50;
    }
    if (paramBool("near_wrap", 0.6))
        for (auto& t : w.tracks) w.advanceSequence(t.index, (int)paramRange("wrap_before", 100, 600), paramBool("rtx_wrap", 0.5), (int)paramRange("rtx_wrap_before", 0, 60));
    repeat(run, "replay", paramRange("gap", 500, 40000) * US, replayOne);
    const bool lossy = paramBool("lossy", 0.5);
    if (lossy) setNet(paramReal("loss", 0, 0.15), 0.02, 0.1, 60 * MS);
    l.run(paramRange("dur", 3, 9) * SEC);
    auto checkAll = [&] {
        g.check("C08");
        Kernel k;
        checked();
        if (c.rtx && w.wanted("C08") && resent > nackedSeqs) w.fail("C08", "retransmissions", "%llu packets were retransmitted but only %llu requested: a repeated request was answered again", (unsigned long long)resent, (unsigned long long)nackedSeqs);
    };
    if (!lossy) {
        sleepFor(c.jbLength * MS + 500 * MS);
        if (w.wanted("C08")) completeness(w, "C08", nullptr, c.jbLength * MS, 0);
    }
    checkAll();
    clearNet();
    const int tail = (int)(param("tail") % 3);
    if (tail == 1) {
        // replays only: they must not keep the connection alive
        const i64 t0 = now();
        recording = false;
        {
            Kernel k; // only what has arrived already is a replay
            std::deque<Recorded> r2;
            for (auto& r : rec)
                if (arrived.count(r.id)) r2.push_back(r);
            rec.swap(r2);
        }
        net::addWindow({ t0, t0 + 60 * SEC, 1, 2, net::ALL });
        net::addWindow({ t0, t0 + 60 * SEC, 2, 1, net::ALL });
        // what was sent before the cut may still arrive for the first time as a replay
        sleepFor(maxAge + 7 * SEC);
        probe("cut_checked");
        checked();
        if (w.wanted("C08") && (w.P.state == State::Connected || w.S.state == State::Connected)) {
            if (!lossy) w.fail("C08", "kept-alive", "long after the last new datagram the peers are %s and %s: replays keep the connection alive", stateName(w.P.state), stateName(w.S.state));
        }
        checkAll();
    } else if (tail == 2) {
        // replay across a reconnection
        const i64 d = paramRange("cut_len", 5200, 9000) * MS;
        net::addWindow({ now(), now() + d, 1, 2, net::ALL });
        net::addWindow({ now(), now() + d, 2, 1, net::ALL });
        l.run(d);
        l.run(3 * SEC);
        sleepFor(SEC);
        checkAll();
    }
    *run = false;
    w.finish();
}

// every protected packet uses its own nonce
SCENARIO(nonce)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = paramBool("long_jb", 0.5) ? (int)paramRange("jb", 50, 800) : 0;
        c.bwe = paramBool("bwe2", 0.6);
        c.rtx = paramBool("rtx2", 0.6);
        if (paramBool("simulcast", 0.25)) {
            c.rfc8851 = true;
            for (auto& ln : c.lines)
                if (ln.video && ln.layers.empty()) {
                    ln.layers = { { "lo", 320, 180, 15, 400 }, { "hi", 1280, 720, 30, 2500 } };
                    break;
                }
        }
    }
    World w(c);
    w.observeWire = true;
    struct Used {
        u64 hash, dg;
        i64 t;
    };
    std::map<std::pair<int, std::pair<uint32_t, u64>>, Used> usedRtp, usedRtcp;
    w.onWire = [&](WirePkt& q) {
        if (!w.wanted("C09")) return;
        const auto& sent = net::sent();
        const auto& data = sent.back().data;
        const u64 h = hashBytes(data.data(), data.size());
        checked();
        uint32_t ssrc = q.isRtcp ? wire::be32(&data[4]) : q.rtp.ssrc;
        const u64 index = q.isRtcp ? q.rtcpIndex : q.index;
        auto& m = q.isRtcp ? usedRtcp : usedRtp;
        auto [it, fresh] = m.insert({ { q.node, { ssrc, index } }, { h, q.dg, now() } });
        if (fresh || it->second.hash == h) return;
        w.fail("C09", q.isRtcp ? "srtcp-index-reused" : "srtp-index-reused", "node %d protected two different %s packets of SSRC %u with index %llu (datagrams %llu at %.3f s and %llu at %.3f s)", q.node, q.isRtcp ? "RTCP" : "RTP", ssrc, (unsigned long long)index, (unsigned long long)it->second.dg, (double)(it->second.t - 1000 * SEC) / 1e9, (unsigned long long)q.dg, (double)(now() - 1000 * SEC) / 1e9);
    };
    net::keepSent = true;
    connectBoth(w);
    schedFaults(paramBool("hot", 0.3) ? 3 : 1);
    Load l(w);
    l.fps = (int)paramRange("fps", 10, 60);
    l.keyEvery = (int)paramRange("key_every", 5, 40);
    l.bigFrames = paramBool("big", 0.4);
    for (auto& t : w.tracks)
        if (paramBool(("near_wrap" + std::to_string(t.index)).c_str(), 0.5)) w.advanceSequence(t.index, (int)paramRange("wrap_before", 10, 800), paramBool("rtx_wrap", 0.6), (int)paramRange("rtx_wrap_before", 0, 60));
    setNet(paramReal("loss", 0, 0.25), 0.05, 0.2, 80 * MS);
    l.run(paramRange("dur", 3, 10) * SEC);
    const int rounds = (int)paramRange("rounds", 0, 2);
    for (int r = 0; r < rounds; r++) {
        const i64 d = paramRange(r ? "cut1" : "cut0", 5100, 9000) * MS;
        clearNet();
        net::addWindow({ now(), now() + d, 1, 2, net::ALL });
        net::addWindow({ now(), now() + d, 2, 1, net::ALL });
        l.run(d + 2 * SEC);
        setNet(paramReal("loss", 0, 0.25), 0.05, 0.2, 80 * MS);
        l.run(2 * SEC);
    }
    if (w.undecodable && w.wanted("C09")) w.fail("C09", "undecodable", "a packet was not protected with the index its position in the stream implies");
    w.finish();
}
