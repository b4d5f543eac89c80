// C18: hostile datagrams from outsiders, malformed content from the authenticated peer.
#include "scen.h"

namespace
{
net::Addr peerAddr(World& w, int node)
{
    net::Addr a;
    if (!net::lastPeer(node, a)) a = w.cfg.cands.empty() ? net::Addr{ "10.0.0.1", 5000 } : node == 1 ? w.cfg.cands[0].dialedByP : w.cfg.cands[0].dialedByS;
    return a;
}
uint16_t odd16(Rng& g, size_t len)
{
    static const uint16_t v[] = { 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 20, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff };
    const u64 k = g(24);
    return k < 19 ? v[k] : k < 22 ? (uint16_t)(len - 3 + g(7)) : (uint16_t)g(65536);
}
uint8_t odd8(Rng& g)
{
    static const uint8_t v[] = { 0, 1, 2, 3, 4, 8, 0x0f, 0x10, 0x1f, 0x20, 0x40, 0x60, 0x7f, 0x80, 0xbf, 0xc0, 0xfe, 0xff };
    const u64 k = g(26);
    return k < 18 ? v[k] : (uint8_t)g(256);
}
// damage bytes from `lo` on
void mutate(Bytes& b, Rng& g, size_t lo = 0, size_t maxSize = 9000)
{
    const int n = 1 + (int)g(3);
    for (int i = 0; i < n; i++) {
        if (b.size() <= lo) {
            for (u64 k = g(20); k > 0; k--) b.push_back((uint8_t)g(256));
            continue;
        }
        const size_t span = b.size() - lo;
        const size_t near = std::min<size_t>(span, g(2) ? 28 : span);
        const size_t at = lo + g(near);
        switch (g(11)) {
        case 0:
            for (u64 k = 1 + g(5); k > 0; k--) b[lo + g(near)] ^= (uint8_t)(1 << g(8));
            break;
        case 1:
            b[at] = odd8(g);
            break;
        case 2:
        case 3:
            if (at + 2 <= b.size()) {
                const uint16_t v = odd16(g, b.size());
                b[at] = (uint8_t)(v >> 8);
                b[at + 1] = (uint8_t)v;
            }
            break;
        case 4: {
            const uint32_t v = g(2) ? (uint32_t)g(1ull << 32) : g(2) ? 0xffffffffu - (uint32_t)g(3) : (uint32_t)g(3);
            for (size_t k = 0; k < 4 && at + k < b.size(); k++) b[at + k] = (uint8_t)(v >> (24 - 8 * k));
            break;
        }
        case 5:
            b.resize(lo + g(span));
            break;
        case 6:
            b.resize(lo + std::min<size_t>(span, g(24)));
            break;
        case 7:
            for (u64 k = 1 + g(g(4) ? 40 : 1400); k > 0; k--) b.push_back((uint8_t)g(256));
            break;
        case 8:
            b.erase(b.begin() + (long)at, b.begin() + (long)std::min(b.size(), at + 1 + g(16)));
            break;
        case 9: {
            Bytes part(b.begin() + (long)at, b.begin() + (long)std::min(b.size(), at + 1 + g(64)));
            b.insert(b.begin() + (long)(lo + g(span)), part.begin(), part.end());
            break;
        }
        case 10:
            for (size_t k = at; k < b.size(); k++) b[k] = (uint8_t)g(256);
            break;
        }
    }
    if (b.size() > maxSize) b.resize(maxSize);
}
// ---- an outsider
Bytes hostileDatagram(const std::deque<Bytes>& rec, Rng& g, bool noDtls)
{
    for (int tries = 0; tries < 20; tries++) {
        Bytes b;
        if (!rec.empty() && g(4)) {
            b = rec[g(3) ? rec.size() - 1 - g(std::min<size_t>(rec.size(), 10)) : g(rec.size())];
            mutate(b, g);
        } else {
            b.resize(g(3) ? g(80) : g(4) ? g(1500) : g(65000));
            for (auto& x : b) x = (uint8_t)g(256);
            static const uint8_t first[] = { 0, 1, 2, 3, 19, 20, 21, 22, 23, 24, 63, 64, 79, 80, 127, 128, 129, 130, 144, 159, 176, 191, 192, 255 };
            if (!b.empty() && g(4)) b[0] = first[g(sizeof first)];
            if (b.size() > 20 && b[0] < 2 && g(3)) { // STUN look-alike
                b[4] = 0x21, b[5] = 0x12, b[6] = 0xa4, b[7] = 0x42;
                b[1] = g(2) ? 1 : odd8(g);
                const uint16_t len = g(2) ? (uint16_t)(b.size() - 20) : odd16(g, b.size());
                b[2] = (uint8_t)(len >> 8), b[3] = (uint8_t)len;
                size_t o = 20; // attributes
                while (o + 4 <= b.size() && g(8)) {
                    static const uint16_t at[] = { 0x0001, 0x0006, 0x0008, 0x0009, 0x000a, 0x0014, 0x0015, 0x0020, 0x0024, 0x0025, 0x8028, 0x8029, 0x802a, 0x8022, 0x8030 };
                    const uint16_t t = g(6) ? at[g(15)] : (uint16_t)g(65536), l = g(2) ? (uint16_t)g(24) : odd16(g, b.size() - o);
                    b[o] = (uint8_t)(t >> 8), b[o + 1] = (uint8_t)t, b[o + 2] = (uint8_t)(l >> 8), b[o + 3] = (uint8_t)l;
                    o += 4 + ((size_t)l + 3) / 4 * 4;
                }
            }
            if (b.size() > 13 && b[0] >= 20 && b[0] < 24 && g(3)) { // DTLS look-alike
                b[1] = 0xfe, b[2] = g(2) ? 0xfd : 0xff;
                b[3] = 0, b[4] = (uint8_t)g(3);
                const uint16_t len = g(2) ? (uint16_t)(b.size() - 13) : odd16(g, b.size());
                b[11] = (uint8_t)(len >> 8), b[12] = (uint8_t)len;
            }
            if (b.size() > 4 && b[0] >= 128 && b[0] < 192 && g(2)) b[1] = (uint8_t)(200 + g(8));
        }
        if (noDtls && !b.empty() && b[0] >= 20 && b[0] <= 63) continue;
        return b;
    }
    return { 0 };
}
// ---- the peer
void mutateRtp(Bytes& plain, Rng& g, srtc::Codec codec)
{
    const size_t h = wire::rtpHeaderSize(plain);
    if (!h || plain.size() < h) return;
    const u64 what = g(10);
    if (what < 4) { // the payload header's neighbourhood
        mutate(plain, g, h, 1400);
    } else if (what < 7) { // a payload made up for the codec
        Bytes p;
        switch (codec) {
        case srtc::Codec::H264: {
            static const uint8_t t[] = { 0x7c, 0x7d, 0x78, 0x79, 0x7a, 0x7b, 0x65, 0x67, 0x68, 0x61, 0x60, 0x1c };
            p.push_back(t[g(12)]);
            p.push_back((uint8_t)(g(2) ? (g(4) << 6 | g(32)) : g(256)));
            for (u64 n = g(4), i = 0; i < n; i++) {
                const uint16_t l = odd16(g, 20);
                wire::put16(p, l);
                for (u64 k = g(12); k > 0; k--) p.push_back((uint8_t)g(256));
            }
            break;
        }
        case srtc::Codec::H265: {
            static const uint8_t t[] = { 48, 49, 50, 32, 33, 34, 19, 1, 0, 63 };
            p.push_back((uint8_t)(t[g(10)] << 1));
            p.push_back((uint8_t)(g(4) ? 1 : g(256)));
            p.push_back((uint8_t)(g(2) ? (g(4) << 6 | g(64)) : g(256)));
            for (u64 n = g(4), i = 0; i < n; i++) {
                const uint16_t l = odd16(g, 20);
                wire::put16(p, l);
                for (u64 k = g(12); k > 0; k--) p.push_back((uint8_t)g(256));
            }
            break;
        }
        case srtc::Codec::AV1:
            p.push_back((uint8_t)(g(2) ? g(256) : (g(4) << 6 | g(4) << 4 | g(2) << 3)));
            for (u64 n = g(5), i = 0; i < n; i++) {
                if (g(3)) p.push_back(g(3) ? (uint8_t)g(12) : odd8(g));
                p.push_back((uint8_t)(g(2) ? (g(16) << 3 | g(8)) : g(256)));
                for (u64 k = g(10); k > 0; k--) p.push_back((uint8_t)g(256));
            }
            break;
        default:
            for (u64 k = g(g(3) ? 12 : 60); k > 0; k--) p.push_back(odd8(g));
        }
        if (p.size() > 1 && g(3) == 0) p.resize(g(p.size()));
        plain.resize(h);
        plain.insert(plain.end(), p.begin(), p.end());
        if (g(2)) plain[1] ^= 0x80;
    } else if (what == 7) { // timestamp, marker, payload type, padding
        switch (g(4)) {
        case 0:
            for (int i = 4; i < 8; i++)
                if (g(2)) plain[i] = odd8(g);
            break;
        case 1:
            plain[1] ^= 0x80;
            break;
        case 2:
            plain[1] = (uint8_t)((plain[1] & 0x80) | g(128));
            break;
        case 3:
            plain[0] |= 0x20;
            if (g(2)) plain.back() = odd8(g);
            break;
        }
    } else if (what == 8 && h > 16) { // the header extension
        const size_t ext = h - 12;
        Bytes e(plain.begin() + 12, plain.begin() + (long)h);
        for (u64 n = 1 + g(4); n > 0; n--) e[g(2) ? 4 + g(ext - 4) : g(2)] = odd8(g);
        std::copy(e.begin(), e.end(), plain.begin() + 12);
    } else {
        plain.resize(h); // nothing at all
    }
}
void mutateRtcp(Bytes& plain, Rng& g, World& w)
{
    if (g(2)) {
        const Bytes ssrc(plain.begin() + 4, plain.begin() + 8);
        mutate(plain, g, g(2) ? 8 : 0, 1300);
        plain.resize(std::max<size_t>(plain.size(), 8));
        if (g(8)) std::copy(ssrc.begin(), ssrc.end(), plain.begin() + 4);
        return;
    }
    Bytes b;
    static const uint8_t pts[] = { 200, 201, 202, 203, 204, 205, 205, 205, 205, 206, 207, 207 };
    const uint8_t pt = pts[g(12)];
    const uint8_t rc = pt == 205 ? (uint8_t)(g(3) ? (g(2) ? 1 : 15) : g(32)) : pt == 206 ? (uint8_t)(g(2) ? (g(2) ? 1 : 4) : g(32)) : (uint8_t)g(4);
    b.push_back((uint8_t)(0x80 | rc | (g(12) ? 0 : 0x20)));
    b.push_back(pt);
    wire::put16(b, 0);
    b.insert(b.end(), plain.begin() + 4, plain.begin() + 8);
    auto ssrc = [&] { return g(4) ? w.tracks[g(w.tracks.size())].ssrc : (uint32_t)g(1ull << 32); };
    if (pt == 205 && rc == 15) {
        wire::put32(b, ssrc());
        wire::put16(b, (uint16_t)(g(2) ? g(300) : g(65536)));
        wire::put16(b, g(2) ? (uint16_t)g(60) : odd16(g, 60));
        wire::put32(b, (uint32_t)g(1ull << 32));
        for (u64 n = g(30); n > 0; n--) wire::put16(b, g(2) ? (uint16_t)(g(4) << 13 | g(200)) : (uint16_t)g(65536));
        for (u64 n = g(60); n > 0; n--) b.push_back((uint8_t)g(256));
    } else if (pt == 205 && rc == 1) {
        wire::put32(b, ssrc());
        for (u64 n = g(g(3) ? 10 : 250); n > 0; n--) {
            wire::put16(b, (uint16_t)g(65536));
            wire::put16(b, odd16(g, 60));
        }
    } else if (pt == 207) {
        for (u64 n = g(5); n > 0; n--) {
            b.push_back((uint8_t)(g(2) ? 4 + g(2) : g(256)));
            b.push_back(0);
            wire::put16(b, g(2) ? (uint16_t)g(5) : odd16(g, 20));
            for (u64 k = g(8); k > 0; k--) wire::put32(b, g(2) ? ssrc() : (uint32_t)g(1ull << 32));
        }
    } else {
        for (u64 n = g(30); n > 0; n--) wire::put32(b, g(3) ? (uint32_t)g(1ull << 32) : ssrc());
        for (u64 n = g(4); n > 0; n--) b.push_back((uint8_t)g(256));
    }
    const uint16_t len = g(5) ? (uint16_t)((b.size() + 3) / 4 - 1) : odd16(g, b.size() / 4);
    b[2] = (uint8_t)(len >> 8), b[3] = (uint8_t)len;
    plain = b;
}
void mutateSctp(Bytes& b, Rng& g)
{
    if (b.size() < 12) return;
    const u64 what = g(8);
    if (what < 4) {
        mutate(b, g, 12, 1100);
    } else if (what < 7) { // a chunk made up
        const Bytes head(b.begin(), b.begin() + 12);
        Bytes keep = g(3) ? Bytes() : Bytes(b.begin() + 12, b.end());
        b = head;
        for (u64 n = 1 + g(3); n > 0; n--) {
            static const uint8_t types[] = { 0, 1, 2, 3, 3, 3, 4, 5, 9, 10, 11, 14, 64, 130, 192, 130 };
            Bytes c;
            const uint8_t t = types[g(16)];
            if (t == 6 || t == 7) continue;
            c.push_back(t);
            c.push_back((uint8_t)(g(2) ? 3 : g(16)));
            wire::put16(c, 0);
            if (t == 0) { // DATA with a TSN near the genuine one
                uint32_t tsn = keep.size() >= 8 && keep[0] == 0 ? wire::be32(&keep[4]) : (uint32_t)g(1ull << 32);
                wire::put32(c, tsn + (uint32_t)g(3));
                wire::put16(c, (uint16_t)(g(2) ? g(6) : g(65536)));
                wire::put16(c, (uint16_t)(g(2) ? g(6) : g(65536)));
                static const uint32_t ppid[] = { 50, 51, 52, 53, 54, 56, 57, 0, 0xffffffff };
                wire::put32(c, ppid[g(9)]);
                if (g(2)) {
                    c.push_back(g(4) ? (uint8_t)3 : (uint8_t)g(256));
                    c.push_back(g(2) ? (g(2) ? (uint8_t)0x80 : (uint8_t)0) : odd8(g));
                    wire::put16(c, odd16(g, 20));
                    wire::put32(c, (uint32_t)g(1ull << 32));
                    wire::put16(c, odd16(g, 20));
                    wire::put16(c, odd16(g, 20));
                }
                for (u64 k = g(20); k > 0; k--) c.push_back((uint8_t)g(256));
            } else if (t == 3) { // SACK
                wire::put32(c, keep.size() >= 8 ? wire::be32(&keep[4]) + (uint32_t)g(5) : (uint32_t)g(1ull << 32));
                wire::put32(c, g(2) ? 0 : (uint32_t)g(1ull << 32));
                wire::put16(c, g(2) ? (uint16_t)g(6) : odd16(g, 20));
                wire::put16(c, g(2) ? (uint16_t)g(6) : odd16(g, 20));
                for (u64 k = g(8); k > 0; k--) {
                    wire::put16(c, odd16(g, 20));
                    wire::put16(c, odd16(g, 20));
                }
            } else if (t == 130 && g(4)) { // RECONFIG: reset of streams, some of which exist
                for (u64 q = 1 + g(2); q > 0; q--) {
                    const u64 ids = g(6);
                    wire::put16(c, g(6) ? 0x000d : (uint16_t)(0x000d + g(6)));
                    wire::put16(c, g(6) ? (uint16_t)(16 + 2 * ids) : odd16(g, 16 + 2 * ids));
                    for (int k = 0; k < 3; k++) wire::put32(c, (uint32_t)g(1ull << 32));
                    for (u64 k = 0; k < ids; k++) wire::put16(c, (uint16_t)(g(4) ? g(6) : g(65536)));
                    if (c.size() % 4) c.resize((c.size() + 3) / 4 * 4);
                }
            } else if (t == 192) { // FORWARD-TSN
                wire::put32(c, (uint32_t)g(1ull << 32));
                for (u64 k = g(4); k > 0; k--) wire::put32(c, (uint32_t)g(1ull << 32));
            } else {
                for (u64 k = g(40); k > 0; k--) c.push_back((uint8_t)(g(2) ? g(4) : g(256)));
            }
            const uint16_t len = g(4) ? (uint16_t)c.size() : odd16(g, c.size());
            c[2] = (uint8_t)(len >> 8), c[3] = (uint8_t)len;
            if (g(8)) c.resize((c.size() + 3) / 4 * 4);
            b.insert(b.end(), c.begin(), c.end());
        }
        b.insert(b.end(), keep.begin(), keep.end());
        if (b.size() > 1150) b.resize(1150);
    } else {
        mutate(b, g, 0, 1100);
    }
    if (g(12)) wire::fixSctp(b);
}
} // namespace

SCENARIO(hostile)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    {
        Kernel k;
        if (paramBool("small", 0.4)) smallConfig(c, 0.7);
        else {
            mediaConfig(c);
            pickNet(1);
            if (paramBool("dc", 0.5)) c.pubLabels = { "p0" }, c.subLabels = { "s0" };
        }
        c.jbLength = (int)paramRange("jb", 150, 400);
    }
    World w(c);
    std::deque<Bytes> rec[3];
    w.onSend = [&](const net::Dgram& d) {
        rec[d.to].push_back(d.data);
        if (rec[d.to].size() > 60) rec[d.to].pop_front();
    };
    const bool early = paramBool("early", 0.5), earlyDtls = early && paramBool("early_dtls", 0.5);
    const i64 gapMax = paramRange("gap_us", 300, 40000) * US;
    u64 n = 0;
    auto attack = [&](bool noDtls) {
        Rng g(hash3(seed(), 0x4057, n++));
        const int to = 1 + (int)g(2);
        if (!fault(F_INJECT, 1)) return;
        Kernel k;
        Bytes b = hostileDatagram(rec[to], g, noDtls);
        net::inject(to, peerAddr(w, to), b, (i64)g(5 * MS));
        probe("hostile");
    };
    w.start();
    schedFaults(0.3);
    const i64 t0 = now();
    while (!(w.P.state == State::Connected && w.S.state == State::Connected) && now() < t0 + 15 * SEC && !w.P.terminal && !w.S.terminal) {
        if (early) attack(!earlyDtls);
        sleepFor(1 + (i64)(hash3(seed(), 0x9a9, n) % (u64)gapMax));
    }
    checked();
    if (!(w.P.state == State::Connected && w.S.state == State::Connected)) {
        // a forged plain text handshake message can make a DTLS handshake fail; nothing else can
        if (!earlyDtls && w.wanted("C18")) w.fail("C18", "not-connected", "hostile datagrams kept the connection from being established");
        probe("handshake_disturbed");
        w.finish();
        return;
    }
    Load l(w);
    l.fps = (int)paramRange("fps", 5, 30);
    l.sizeScale = 0.5;
    auto run = std::make_shared<bool>(true);
    const i64 end = now() + paramRange("run", 300, 3500) * MS;
    // the attacker acts on its own
    std::function<void()> step = [&, run] {
        if (!*run || now() >= end) return;
        attack(false);
        at(now() + 1 + (i64)(hash3(seed(), 0x9aa, n) % (u64)gapMax), step);
    };
    at(now() + 1, step);
    auto stay = [&] {
        Kernel k;
        checked();
        if (!w.wanted("C18")) return;
        for (auto* p : { &w.P, &w.S })
            if (p->state != State::Connected) w.fail("C18", "disrupted", "node %d is %s although the network works; only hostile datagrams were added", p->node, stateName(p->state));
    };
    u64 m = 0;
    l.run(end - now(), [&] {
        stay();
        if (++m % 8 == 0) {
            if (!w.cfg.pubLabels.empty()) w.sendMsg(w.P, w.cfg.pubLabels[0], m % 16 == 0, 1 + mix(m) % 3000);
            if (!w.cfg.subLabels.empty()) w.sendMsg(w.S, w.cfg.subLabels[0], m % 16 == 0, 1 + mix(m) % 3000);
        }
    });
    *run = false;
    sleepFor(2500 * MS);
    stay();
    if (w.wanted("C18")) {
        completeness(w, "C18", nullptr, 0, 0);
        w.checkMessagesDelivered(w.P, "C18");
        w.checkMessagesDelivered(w.S, "C18");
    }
    w.finish();
    *run = false;
}

SCENARIO(peerop)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    {
        Kernel k;
        if (paramBool("small", 0.4)) smallConfig(c, 0.9);
        else {
            mediaConfig(c);
            pickNet(1);
            if (paramBool("dc", 0.6)) c.pubLabels = { "p0", "p1" }, c.subLabels = { "s0" };
        }
        c.jbLength = (int)paramRange("jb", 50, 300);
    }
    World w(c);
    w.observeWire = true;
    const double rRtp = paramBool("rtp", 0.7) ? paramReal("r_rtp", 0.02, 0.7) : 0;
    const double rRtcp = paramBool("rtcp", 0.6) ? paramReal("r_rtcp", 0.1, 0.9) : 0;
    const double rSctp = paramBool("sctp", 0.6) ? paramReal("r_sctp", 0.05, 0.6) : 0;
    const bool sctpEarly = paramBool("sctp_early", 0.5);
    bool on = false;
    u64 n = 0;
    net::hooks.rewrite = [&](net::Dgram& d) {
        if (!on || d.injected || !d.genuine) return;
        auto it = w.byDg.find(d.id);
        if (it == w.byDg.end()) return;
        const WirePkt& p = *it->second;
        auto& srtp = w.obs[d.from].srtp;
        Rng g(hash3(seed(), 0x9ee0, n++));
        Bytes plain, out;
        if (!p.isRtcp && p.track >= 0 && rRtp > 0 && fault(F_PEEROP, rRtp)) {
            const uint32_t roc = (uint32_t)(p.index >> 16);
            if (!srtp.unprotectRtp(d.data, roc, plain)) return;
            mutateRtp(plain, g, w.tracks[p.track].codec);
            if (srtp.protectRtp(plain, roc, out)) d.data = out;
            probe("malformed_rtp");
        } else if (p.isRtcp && rRtcp > 0 && fault(F_PEEROP, rRtcp)) {
            uint32_t idx = 0;
            if (!srtp.unprotectRtcp(d.data, plain, idx) || plain.size() < 8) return;
            mutateRtcp(plain, g, w);
            if (srtp.protectRtcp(plain, idx, out)) d.data = out;
            probe("malformed_rtcp");
        }
    };
    wire::sslWrite = [&](int, Bytes& b) {
        if (!(on || sctpEarly) || rSctp <= 0) return;
        Rng g(hash3(seed(), 0x9ee1, n++));
        if (!fault(F_PEEROP, rSctp)) return;
        mutateSctp(b, g);
        probe("malformed_sctp");
    };
    w.start();
    if (!w.waitBoth(State::Connected, 15 * SEC)) simError("not connected");
    on = true;
    schedFaults(0.2);
    if (paramBool("faults", 0.4)) setNet(paramReal("loss", 0, 0.2), 0.05, 0.1, paramRange("dmax", 1, 100) * MS);
    Load l(w);
    l.fps = (int)paramRange("fps", 5, 40);
    l.sizeScale = 0.6;
    l.keyEvery = (int)paramRange("key_every", 2, 40);
    const i64 end = now() + paramRange("run", 300, paramBool("long", 0.2) ? 12000 : 3000) * MS;
    u64 m = 0;
    l.run(end - now(), [&] {
        checked();
        if (++m % 6 == 0) {
            if (!w.cfg.pubLabels.empty()) w.sendMsg(w.P, w.cfg.pubLabels[0], m % 16 == 0, 1 + mix(m) % 4000);
            if (!w.cfg.subLabels.empty()) w.sendMsg(w.S, w.cfg.subLabels[0], m % 16 == 0, 1 + mix(m) % 4000);
        }
    });
    on = false;
    clearNet();
    sleepFor(1000 * MS);
    wire::sslWrite = nullptr;
    w.finish();
}
