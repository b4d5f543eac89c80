// C19 (emission of published packets) and C25 (key-frame requests).
#include "scen.h"

namespace
{
// ---- C19
struct Emission {
    World& w;
    struct T {
        bool any = false, rtxAny = false;
        u64 next = 0; // packet index expected
        u64 rtxNext = 0;
        int frame = -1;
        bool lastMarker = true;
        int inFrame = 0;
        size_t bytes = 0;
        std::map<uint16_t, int> emitted, asked;
    };
    std::vector<T> t;
    u64 emitted = 0;
    i64 calm = 40 * MS; // longest delay from publishing to emission beyond the pacing
    int stalls0 = 0;
    i64 lastStall = 0;
    explicit Emission(World& world) : w(world), t(world.tracks.size())
    {
        w.observeWire = true;
        w.onWire = [this](WirePkt& p) { wire(p); };
        w.onDeliver = [this](const net::Dgram& d) { deliver(d); };
    }
    void deliver(const net::Dgram& d) // requests for packets, as they reach the publisher
    {
        if (d.to != 1 || d.injected || !d.genuine) return;
        t.resize(w.tracks.size());
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end() || !it->second->isRtcp) return;
        for (auto& r : it->second->rtcp) {
            if (r.pt != 205 || r.rc != 1 || r.body.size() < 4) continue;
            const uint32_t ssrc = wire::be32(&r.body[0]);
            for (auto& tr : w.tracks) {
                if (tr.ssrc != ssrc) continue;
                auto& x = t[tr.index];
                for (size_t i = 4; i + 4 <= r.body.size(); i += 4) {
                    const uint16_t pid = wire::be16(&r.body[i]), blp = wire::be16(&r.body[i + 2]);
                    x.asked[pid]++;
                    for (int k = 0; k < 16; k++)
                        if (blp >> k & 1) x.asked[(uint16_t)(pid + k + 1)]++;
                }
            }
        }
    }
    bool stalledLately()
    {
        if (stallVictims() != stalls0) {
            stalls0 = stallVictims();
            lastStall = now();
        }
        return lastStall && now() - lastStall < 3300 * MS;
    }
    void endOfFrame(TrackInfo& tr, T& x)
    {
        if (x.frame < 0) return;
        auto& f = tr.frames[x.frame];
        checked();
        if (tr.video && !x.lastMarker) w.fail("C19", "no-marker", "the last packet of %s has no marker", describeFrame(w, tr, f).c_str());
        // roughly, content is the subject of other properties
        if (x.bytes + 100 + f.size / 50 < f.size) w.fail("C19", "packets-missing", "only %zu bytes of payload were sent of %s", x.bytes, describeFrame(w, tr, f).c_str());
    }
    void wire(WirePkt& p)
    {
        if (p.node != 1 || p.isRtcp || p.track < 0 || !w.wanted("C19")) return;
        t.resize(w.tracks.size());
        auto& tr = w.tracks[p.track];
        auto& x = t[p.track];
        checked();
        if (p.retransmission) {
            if (x.rtxAny && p.index != x.rtxNext) w.fail("C19", "rtx-sequence", "a retransmission has packet index %llu after %llu", (unsigned long long)p.index, (unsigned long long)(x.rtxNext - 1));
            x.rtxAny = true;
            x.rtxNext = p.index + 1;
            if (++x.emitted[p.origSeq] > 1 + x.asked[p.origSeq]) w.fail("C19", "sent-again", "packet %u of track %d was sent %d times and asked for %d times", p.origSeq, tr.index, x.emitted[p.origSeq], x.asked[p.origSeq]);
            return;
        }
        if (x.any && p.index != x.next) {
            if (p.index > x.next) w.fail("C19", "sequence-gap", "packet index %llu of track %d was sent after %llu", (unsigned long long)p.index, tr.index, (unsigned long long)(x.next - 1));
            if (++x.emitted[p.rtp.seq] > 1 + x.asked[p.rtp.seq]) w.fail("C19", "sent-again", "packet %u of track %d was sent %d times and asked for %d times", p.rtp.seq, tr.index, x.emitted[p.rtp.seq], x.asked[p.rtp.seq]);
            return;
        }
        x.any = true;
        x.next = p.index + 1;
        x.emitted[p.rtp.seq]++;
        emitted++;
        if (p.frame < 0) w.fail("C19", "unknown-timestamp", "a packet of track %d has the RTP timestamp %u of no published frame", tr.index, p.rtp.ts);
        auto& f = tr.frames[p.frame];
        if (p.frame != x.frame) {
            endOfFrame(tr, x);
            // frames handed over while not connected are not sent
            int want = x.frame + 1;
            while (want < (int)tr.frames.size() && !tr.frames[want].connected && want < p.frame) want++;
            if (p.frame != want) w.fail("C19", p.frame < want ? "frame-order" : "frame-skipped", "a packet of %s was sent where one of frame #%d was due", describeFrame(w, tr, f).c_str(), want);
            x.frame = p.frame;
            x.inFrame = 0;
            x.bytes = 0;
        } else {
            if (tr.video && x.lastMarker) w.fail("C19", "early-marker", "a packet of %s follows one with the marker", describeFrame(w, tr, f).c_str());
            if (p.rtp.ts != f.rtpTs) w.fail("C19", "timestamp-changes", "the packets of %s have different RTP timestamps", describeFrame(w, tr, f).c_str());
        }
        x.lastMarker = p.rtp.marker;
        x.inFrame++;
        x.bytes += p.rtp.payload.size();
        const i64 ret = f.ret ? f.ret : now();
        if (now() - ret > 54 * MS + calm && !stalledLately()) w.fail("C19", "sent-late", "a packet of %s was sent %.1f ms after it was handed over", describeFrame(w, tr, f).c_str(), (double)(now() - ret) / 1e6);
    }
    // everything handed over long enough ago has left
    void complete()
    {
        t.resize(w.tracks.size());
        if (!w.wanted("C19") || stalledLately()) return;
        for (auto& tr : w.tracks) {
            auto& x = t[tr.index];
            for (auto& f : tr.frames) {
                if (!f.connected || !f.ret || now() - f.ret < 54 * MS + calm) continue;
                checked();
                if (!f.wireSeen) w.fail("C19", "never-sent", "%s was handed over %.3f s ago and nothing of it was sent", describeFrame(w, tr, f).c_str(), (double)(now() - f.ret) / 1e9);
                if ((int)f.id == x.frame && tr.video && !x.lastMarker) w.fail("C19", "not-sent-completely", "%s was handed over %.3f s ago and the last packet sent of it (number %d) has no marker", describeFrame(w, tr, f).c_str(), (double)(now() - f.ret) / 1e9, x.inFrame);
            }
        }
    }
};

// ---- C25
struct Requests {
    World& w;
    struct Req {
        i64 at, ret;
        bool certain;
    };
    struct T {
        std::deque<Req> asked;
        std::deque<i64> sent;
    };
    std::map<uint32_t, T> t; // by media SSRC
    std::map<u64, int> dg;   // datagram -> requests in it
    std::set<u64> read;
    u64 certain = 0, possible = 0, total = 0;
    std::deque<std::pair<i64, bool>> pendingReads;
    bool connP = false, connS = false;
    std::vector<std::pair<i64, bool>> histS; // changes of the subscriber's state
    i64 slack = 150 * MS;
    int stalls0 = 0;
    explicit Requests(World& world) : w(world)
    {
        w.observeWire = true;
        w.onWire = [this](WirePkt& p) { wire(p); };
        net::hooks.onRecv = [this](int node, u64 id) { recv(node, id); };
        w.onState = [this](Peer& p, State s) {
            if (p.node == 1) connP = s == State::Connected;
            if (p.node == 2) {
                connS = s == State::Connected;
                histS.push_back({ now(), connS });
            }
        };
        w.onKeyReq = [this](Peer& p) { called(p); };
    }
    void wire(WirePkt& p)
    {
        if (p.node != 2 || !p.isRtcp) return;
        int n = 0;
        for (auto& r : p.rtcp)
            if (r.pt == 206 && r.rc == 1 && r.body.size() >= 4) {
                n++;
                total++;
                const uint32_t ssrc = wire::be32(&r.body[0]);
                bool known = false;
                for (auto& tr : w.tracks)
                    if (tr.ssrc == ssrc) {
                        known = true;
                        if (w.wanted("C25") && (!tr.video || !w.cfg.lines[tr.line].pli)) w.fail("C25", "wrong-track", "a key frame of track %d was requested, which has none or does not support requests", tr.index);
                    }
                if (!known && w.wanted("C25")) w.fail("C25", "unknown-ssrc", "a key frame of the unknown SSRC %u was requested", ssrc);
                t[ssrc].sent.push_back(now());
            }
        if (n) dg[p.dg] = n;
    }
    void recv(int node, u64 id)
    {
        if (node != 1) return;
        auto it = dg.find(id);
        if (it == dg.end() || !read.insert(id).second) return;
        possible += it->second;
        if (connP) certain += it->second;
        checked();
    }
    void called(Peer& p)
    {
        if (!w.wanted("C25")) return;
        checked();
        if (p.keyReq > possible) w.fail("C25", "not-requested", "the key-frame listener was called %llu times; %llu requests arrived", (unsigned long long)p.keyReq, (unsigned long long)possible);
    }
    // called when nothing has been in flight for a while
    void settled()
    {
        if (!w.wanted("C25")) return;
        checked();
        if (w.P.keyReq < certain) w.fail("C25", "request-lost", "%llu key-frame requests arrived while connected, the listener was called %llu times", (unsigned long long)certain, (unsigned long long)w.P.keyReq);
    }
    bool steady(i64 from, i64 to) // connected throughout
    {
        bool c = false;
        for (auto& [at, s] : histS) {
            if (at <= from) c = s;
            else if (at <= to) return false;
        }
        return c;
    }
    bool must(const Req& r) { return r.certain && steady(r.at, r.ret + slack); }
    void ask(TrackInfo& tr)
    {
        Use use(w.S);
        if (!use.ok || !op()) return;
        Req r{ now(), 0, connS };
        {
            NodeScope ns(2);
            (void)w.S.pc->requestPictureLossIndicator(tr.sub);
        }
        Kernel k;
        r.ret = now();
        tlog("key frame of track %d requested", tr.index);
        if (!connS) r.certain = false;
        if (tr.video && w.cfg.lines[tr.line].pli) t[tr.ssrc].asked.push_back(r);
    }
    // the requests on the wire are the explicit ones and the periodic ones
    void account(i64 end)
    {
        if (!w.wanted("C25") || stallVictims() != 0) return;
        const i64 interval = w.cfg.pliInterval ? std::clamp(w.cfg.pliInterval, 500, 4000) * MS : 0;
        for (auto& tr : w.tracks) {
            if (!tr.video || !w.cfg.lines[tr.line].pli) continue;
            auto& x = t[tr.ssrc];
            std::vector<i64> rest(x.sent.begin(), x.sent.end());
            // those which had to be sent first, what is left over may belong to others
            std::stable_sort(x.asked.begin(), x.asked.end(), [&](const Req& a, const Req& b) { return must(a) > must(b); });
            for (auto& r : x.asked) {
                checked();
                size_t i = 0;
                while (i < rest.size() && rest[i] < r.at) i++;
                if (i < rest.size() && rest[i] <= r.ret + slack) rest.erase(rest.begin() + (long)i);
                else if (must(r) && r.ret + slack < end)
                    w.fail("C25", "request-not-sent", "the key frame of track %d requested at %.3f s was not asked for within %.0f ms", tr.index, (double)(r.at - 1000 * SEC) / 1e9, (double)slack / 1e6);
            }
            if (!interval) {
                if (!rest.empty()) w.fail("C25", "unwanted-request", "%zu key-frame requests for track %d were sent although nobody asked and periodic requests are off", rest.size(), tr.index);
                continue;
            }
            // periodic: within every connected stretch
            for (size_t s = 0; s < histS.size(); s++) {
                if (!histS[s].second) continue;
                const i64 from = histS[s].first, to = s + 1 < histS.size() ? histS[s + 1].first : end;
                i64 prev = from;
                bool first = true;
                for (i64 at : rest) {
                    if (at < from - slack || at > to) continue;
                    checked();
                    if (!first && at - prev < interval - slack) w.fail("C25", "too-often", "key-frame requests for track %d were sent %.3f s apart, every %.3f s is configured", tr.index, (double)(at - prev) / 1e9, (double)interval / 1e9);
                    if (at - prev > interval + slack) w.fail("C25", "period-missed", "no key-frame request for track %d for %.3f s, every %.3f s is configured", tr.index, (double)(at - prev) / 1e9, (double)interval / 1e9);
                    prev = at;
                    first = false;
                }
                if (to - prev > interval + slack) w.fail("C25", "period-missed", "no key-frame request for track %d for %.3f s, every %.3f s is configured", tr.index, (double)(to - prev) / 1e9, (double)interval / 1e9);
            }
        }
    }
};

// ---- C29
struct Layers {
    World& w;
    struct T {
        u64 sent = 0;
        int frame = -1;
        bool must = false;
        int keyFrames = 0;
    };
    std::vector<T> t;
    u64 tagged = 0, untagged = 0, repaired = 0;
    // the layers of each media line, as configured from some time on
    struct Version {
        i64 from;
        std::vector<srtc::SimulcastLayer> layers;
    };
    std::vector<std::vector<Version>> versions;
    explicit Layers(World& world) : w(world)
    {
        w.observeWire = true;
        w.onWire = [this](WirePkt& p) { wire(p); };
        for (auto& l : w.cfg.lines) versions.push_back({ { 0, l.layers } });
    }
    void update(u64 h) // change the size and rates of a layer
    {
        auto& tr = w.tracks[h % w.tracks.size()];
        if (tr.layer.empty() || !op()) return;
        srtc::SimulcastLayer l;
        {
            Kernel k;
            if (w.P.terminal || w.P.states.empty() || w.P.states.back().s != State::Connected) return;
            auto& v = versions[tr.line];
            v.push_back(v.back());
            v.back().from = now();
            for (auto& x : v.back().layers)
                if (x.name == tr.layer) {
                    x.width = (uint16_t)(2 + mix(h) % 4000);
                    x.height = (uint16_t)(2 + mix(h ^ 1) % 4000);
                    x.frames_per_second = (uint16_t)(1 + mix(h ^ 2) % 300);
                    x.kilobits_per_second = (uint32_t)(1 + mix(h ^ 3) % 30000);
                    l = x;
                }
            tlog("layer '%s' changes", tr.layer.c_str());
            probe("layer_updates");
        }
        auto e = w.P.pc->updateVideoSimulcastLayer(tr.pub, l);
        if (e.isError()) w.fail("C29", "update-rejected", "an update of layer '%s' was rejected: %s", tr.layer.c_str(), e.message.c_str());
    }
    static std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
    // does the video-layers-allocation extension describe the layers as configured between the publishing of a frame and now?
    bool described(const TrackInfo& tr, const Bytes& vla, i64 published)
    {
        auto& v = versions[tr.line];
        for (size_t i = 0; i < v.size(); i++)
            if ((i + 1 == v.size() || v[i + 1].from >= published) && vla == allocation(tr, v[i].layers)) return true;
        return false;
    }
    Bytes allocation(const TrackInfo& tr, const std::vector<srtc::SimulcastLayer>& ls)
    {
        Bytes b;
        unsigned own = 0;
        for (size_t i = 0; i < ls.size(); i++)
            if (ls[i].name == tr.layer) own = (unsigned)i;
        b.push_back((uint8_t)(own << 6 | (ls.size() - 1) << 4 | 1));
        b.push_back(0);
        for (auto& l : ls) {
            unsigned v = l.kilobits_per_second;
            do {
                b.push_back((uint8_t)((v & 127) | (v > 127 ? 128 : 0)));
                v >>= 7;
            } while (v);
        }
        for (auto& l : ls) {
            b.push_back((uint8_t)((l.width - 1) >> 8));
            b.push_back((uint8_t)(l.width - 1));
            b.push_back((uint8_t)((l.height - 1) >> 8));
            b.push_back((uint8_t)(l.height - 1));
            b.push_back((uint8_t)std::min<int>(l.frames_per_second, 255));
        }
        return b;
    }
    void wire(WirePkt& p)
    {
        if (p.node != 1 || p.isRtcp || p.track < 0 || !w.wanted("C29")) return;
        t.resize(w.tracks.size());
        auto& tr = w.tracks[p.track];
        auto& x = t[p.track];
        auto m = p.rtp.extMap();
        checked();
        for (auto& [id, v] : m) {
            const bool ok = (id == kTwcc && w.cfg.bwe) || (id == kAbsCap && w.cfg.absCap) || (!tr.layer.empty() && (id == kMid || id == kRid || id == kVla || (id == kRrid && w.cfg.rtx)));
            if (!ok) w.fail("C29", "not-negotiated", "a packet of track %d carries the header extension %d, which was not negotiated for it", tr.index, id);
        }
        if (tr.layer.empty()) return;
        auto mid = m.find(kMid), rid = m.find(kRid), rrid = m.find(kRrid), vla = m.find(kVla);
        if (mid != m.end() && str(mid->second) != tr.pubId) w.fail("C29", "wrong-mid", "a packet of layer '%s' of '%s' names the media '%s'", tr.layer.c_str(), tr.pubId.c_str(), str(mid->second).c_str());
        if (rid != m.end() && str(rid->second) != tr.layer) w.fail("C29", "wrong-layer", "a packet of layer '%s' names the layer '%s'", tr.layer.c_str(), str(rid->second).c_str());
        if (rrid != m.end() && str(rrid->second) != tr.layer) w.fail("C29", "wrong-repaired-layer", "a retransmission of layer '%s' names the layer '%s'", tr.layer.c_str(), str(rrid->second).c_str());
        if (vla != m.end() && !described(tr, vla->second, p.frame >= 0 ? tr.frames[p.frame].at : 0)) w.fail("C29", "wrong-allocation", "a packet of layer '%s' describes the layers of '%s' wrongly", tr.layer.c_str(), tr.pubId.c_str());
        if (p.retransmission && w.cfg.rtx) {
            repaired++;
            x.sent++;
            if (mid == m.end() || rrid == m.end()) w.fail("C29", "repair-not-attributed", "a retransmission of layer '%s' does not say which layer it belongs to", tr.layer.c_str());
            return;
        }
        if (p.retransmission || p.frame < x.frame) {
            x.sent++;
            return;
        }
        if (p.frame >= 0 && p.frame != x.frame) {
            x.frame = p.frame;
            x.must = x.sent < 100 || tr.frames[p.frame].key;
            x.keyFrames += tr.frames[p.frame].key;
        }
        x.sent++;
        const bool any = mid != m.end() || rid != m.end() || vla != m.end();
        const bool all = mid != m.end() && rid != m.end() && vla != m.end();
        if (any && !all) w.fail("C29", "incomplete", "a packet of layer '%s' carries only some of the extensions which describe it", tr.layer.c_str());
        if (x.must && !all) w.fail("C29", "not-attributed", "a packet of %s of layer '%s' (%llu packets sent before) does not say which layer it belongs to", describeFrame(w, tr, tr.frames[p.frame]).c_str(), tr.layer.c_str(), (unsigned long long)x.sent - 1);
        (all ? tagged : untagged)++;
    }
    enum { kMid = 1, kRid = 2, kRrid = 3, kVla = 4, kAbsCap = 12, kTwcc = 14 };
};
} // namespace

SCENARIO(pace)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = 300;
    }
    const bool lossless = paramBool("lossless", 0.4);
    World w(c);
    Emission x(w);
    connectBoth(w);
    schedFaults(0.3);
    setRate(F_STALL, paramBool("stalls", 0.25) ? 0.0002 : 0);
    if (!lossless) setNet(paramReal("loss", 0, 0.2), paramReal("dup", 0, 0.1), paramReal("late", 0, 0.1), paramRange("dmax", 1, 100) * MS);
    const i64 end = now() + paramRange("run", 1000, paramBool("long", 0.2) ? 16000 : 4000) * MS;
    const double keyP = paramReal("keys", 0.02, 0.5);
    const int maxSize = paramBool("big", 0.3) ? 200000 : 12000;
    u64 n = 0;
    while (now() < end) {
        const u64 h = hash3(seed(), 0x9ace, n++);
        if (w.P.terminal || w.S.terminal) simError("connection ended");
        // a group of frames, handed over back to back or a few milliseconds apart, on one track or across all
        const int frames = h % 5 == 0 ? 1 + (int)(mix(h) % 12) : 1;
        for (int i = 0; i < frames; i++) {
            const u64 g = hash3(h, 0xf7, i);
            auto& tr = w.tracks[(h >> 8) % 3 == 0 ? (h >> 16) % w.tracks.size() : g % w.tracks.size()];
            const bool key = unit(mix(g)) < keyP || tr.frames.empty();
            const size_t size = tr.video ? 8 + (mix(g ^ 2) % 4 ? mix(g ^ 1) % 3000 : mix(g ^ 1) % (u64)maxSize) : 8 + mix(g ^ 1) % 400;
            w.publish(tr.index, key || !tr.video, size, tr.video && mix(g ^ 3) % 4 == 0 ? 2 + (int)(mix(g ^ 4) % 4) : 1, mix(g ^ 5) % 8 == 0, tr.video ? 5000 + (i64)(mix(g ^ 6) % 60000) : 20000);
            if (mix(g ^ 7) % 4 == 0) sleepFor((i64)(mix(g ^ 8) % (4 * MS)));
        }
        sleepFor((i64)(mix(h ^ 9) % (u64)((h >> 40) % 3 == 0 ? 80 * MS : 20 * MS)));
        Kernel k;
        if (n % 16 == 0) x.complete();
    }
    clearNet();
    sleepFor(1200 * MS);
    setRate(F_STALL, 0);
    sleepFor(3400 * MS);
    {
        Kernel k;
        x.complete();
        probe("emitted", x.emitted);
    }
    w.finish();
}

SCENARIO(pli)
{
    setTimeLimit(now() + 300 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        if (paramBool("odd_interval", 0.3)) c.pliInterval = (int)paramRange("odd_ms", 1, 8000);
        for (auto& l : c.lines)
            if (l.video) {
                l.pli = paramBool(("pli_" + l.id).c_str(), 0.85);
                l.nack = paramBool(("nack_" + l.id).c_str(), 0.8);
            }
    }
    World w(c);
    Requests x(w);
    // some peers ask with a Full Intra Request (RFC 5104) instead of a Picture Loss Indication
    if (paramBool("fir", 0.3)) {
        w.observeWire = true;
        net::hooks.rewrite = [&w, n = (uint8_t)0](net::Dgram& d) mutable {
            if (d.injected || !d.genuine || d.cls != net::RTCP) return;
            auto it = w.byDg.find(d.id);
            if (it == w.byDg.end() || it->second->rtcp.size() != 1) return;
            Bytes plain, out;
            uint32_t idx = 0;
            if (!w.obs[d.from].srtp.unprotectRtcp(d.data, plain, idx) || plain.size() != 12 || plain[1] != 206 || (plain[0] & 31) != 1) return;
            plain[0] = 0x84; // FMT 4
            plain[3] = 4;
            plain.insert(plain.end(), plain.begin() + 8, plain.begin() + 12); // whose key frame: the media source
            std::fill(plain.begin() + 8, plain.begin() + 12, 0);
            plain.insert(plain.end(), { n++, 0, 0, 0 });
            if (w.obs[d.from].srtp.protectRtcp(plain, idx, out)) d.data = out, probe("fir");
        };
    }
    connectBoth(w);
    schedFaults(0.3);
    const int netKind = (int)(param("net") % 3);
    if (netKind) setNet(paramReal("loss", 0, 0.4), paramReal("dup", 0, 0.3), paramReal("late", 0, 0.2), paramRange("dmax", 1, 300) * MS);
    Load l(w);
    l.fps = (int)paramRange("fps", 2, 15);
    l.sizeScale = 0.2;
    i64 end = now() + paramRange("run", 1500, paramBool("long", 0.2) ? 40000 : 12000) * MS;
    i64 planned = paramBool("planned", 0.2) ? now() + paramRange("planned_ms", 100, 4000) * MS : 0;
    int seg = 0, outages = 0;
    while (now() < end) {
        auto P_ = [&](const char* n) { return n + std::to_string(seg); };
        l.run(std::min<i64>(paramRange(P_("seg").c_str(), 5, 1200) * MS, end - now()));
        if (w.P.terminal || w.S.terminal) break; // given up after outages in a row
        const int what = (int)(param(P_("what").c_str()) % 10);
        if (what < 5) {
            const int n = what == 0 ? (int)paramRange(P_("n").c_str(), 2, 10) : 1;
            for (int i = 0; i < n; i++) {
                x.ask(w.tracks[hash3(seed(), seg, i) % w.tracks.size()]);
                if (hash3(seed(), seg, 100 + i) % 3 == 0) sleepFor((i64)(hash3(seed(), seg, 200 + i) % (u64)(30 * MS)));
            }
        }
        Kernel k;
        if (planned > 0 && now() > planned) { // long enough to lose the connection, with time to see it work again
            planned = 0;
            const i64 len = paramRange("lost_ms", 4500, 9200) * MS;
            net::addWindow({ now(), now() + len, 1, 2, net::ALL });
            net::addWindow({ now(), now() + len, 2, 1, net::ALL });
            end = std::max(end, now() + len + paramRange("after_ms", 2000, 9000) * MS);
        } else if (what == 6 && netKind == 2 && outages < 2) {
            const i64 len = paramRange(P_("cut").c_str(), 50, 8500) * MS;
            net::addWindow({ now(), now() + len, 1, 2, net::ALL });
            net::addWindow({ now(), now() + len, 2, 1, net::ALL });
            outages++;
        }
        if (what == 7) jumpWall((int)paramRange(P_("jn").c_str(), 1, 2), paramRange(P_("jump").c_str(), -3600000, 3600000) * MS);
        seg++;
    }
    clearNet();
    const i64 quietFrom = now();
    sleepFor(700 * MS);
    {
        Kernel k;
        x.account(quietFrom);
        probe("requests", x.total);
        probe("requests_arrived", x.possible);
    }
    // no more requests: close the subscriber first, then look at what the publisher heard
    w.close(w.S);
    sleepFor(700 * MS);
    {
        Kernel k;
        x.settled();
    }
    w.finish();
}

// simulcast layers and the header extensions which tell them apart
SCENARIO(simul)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = 300;
        c.rfc8851 = paramBool("rfc8851", 0.7);
        int v = 0;
        for (auto& ln : c.lines)
            if (ln.video) {
                v++;
                if (v > 1 && !paramBool("both", 0.5)) continue;
                ln.layers.clear();
                const int n = (int)paramRange(("layers" + std::to_string(v)).c_str(), 1, 4);
                for (int i = 0; i < n; i++) {
                    const u64 h = hash3(seed(), 0x1a7e, v * 8 + i);
                    ln.layers.push_back({ (h & 1 ? "q" : "layer-") + std::to_string(i), (uint16_t)(2 + h % 4000), (uint16_t)(2 + mix(h) % 4000), (uint16_t)(1 + mix(h ^ 1) % 300), (uint32_t)(1 + mix(h ^ 2) % (mix(h ^ 3) % 2 ? 300 : 30000)) });
                }
            }
    }
    World w(c);
    Layers x(w);
    connectBoth(w);
    schedFaults(0.3);
    setNet(paramReal("loss", 0, 0.3), paramReal("dup", 0, 0.1), paramReal("late", 0, 0.1), paramRange("dmax", 1, 100) * MS, 0, 0, paramBool("bursts", 0.4) ? 0.01 : 0);
    Load l(w);
    l.fps = (int)paramRange("fps", 5, 40);
    l.keyEvery = (int)paramRange("key_every", 3, 60);
    l.sizeScale = paramReal("scale", 0.1, 1.2);
    const double changes = paramBool("changes", 0.5) ? paramReal("change_rate", 0.005, 0.1) : 0;
    u64 tick = 0;
    l.run(paramRange("run", 1500, 6000) * MS, [&] {
        const u64 h = hash3(seed(), 0xc4a6e, tick++);
        if (unit(h) < changes) x.update(mix(h));
    });
    if (w.P.terminal || w.S.terminal) simError("connection ended");
    if (paramBool("outage", 0.3) && fault(F_WINDOW, 1)) {
        const i64 len = paramRange("cut", 100, 8000) * MS;
        {
            Kernel k;
            net::addWindow({ now(), now() + len, 1, 2, net::ALL });
            net::addWindow({ now(), now() + len, 2, 1, net::ALL });
        }
        l.run(len + 1500 * MS);
    }
    clearNet();
    sleepFor(700 * MS);
    {
        Kernel k;
        probe("tagged", x.tagged);
        probe("untagged", x.untagged);
        probe("repaired", x.repaired);
    }
    w.finish();
}
