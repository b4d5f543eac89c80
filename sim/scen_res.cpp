// C28: memory and work stay bounded, and everything is released in the end.
#include "scen.h"

namespace
{
struct Mark {
    size_t live[3];
};
Mark mark()
{
    Mark m{};
    for (int n = 1; n <= 2; n++) m.live[n] = heapLive(n);
    return m;
}
void bounded(World& w, const Mark& before, size_t slack, const char* what)
{
    Kernel k;
    for (int n = 1; n <= 2; n++) {
        checked();
        const size_t l = heapLive(n);
        probe(n == 1 ? "kb_more_1" : "kb_more_2", l > before.live[n] ? (l - before.live[n]) / 1024 : 0);
        if (w.wanted("C28") && l > before.live[n] + slack) w.fail("C28", "memory-grows", "node %d: %s, its live memory grew from %zu to %zu bytes under the same workload", n, what, before.live[n], l);
    }
}
void peak(World& w, const Mark& before, size_t slack, const char* what)
{
    Kernel k;
    for (int n = 1; n <= 2; n++) {
        checked();
        const size_t l = heapPeak(n);
        probe(n == 1 ? "kb_peak_1" : "kb_peak_2", l > before.live[n] ? (l - before.live[n]) / 1024 : 0);
        if (w.wanted("C28") && l > before.live[n] + slack) w.fail("C28", "memory-peak", "node %d: %s, its live memory rose from %zu to %zu bytes", n, what, before.live[n], l);
    }
}
} // namespace

SCENARIO(res)
{
    setTimeLimit(now() + 900 * SEC, "time-limit");
    const Mark empty = mark();
    {
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(0.7);
        c.jbLength = (int)paramRange("jb", 100, 400);
        if (paramBool("dc", 0.5)) {
            c.pubLabels = { "p0" };
            c.subLabels = { "s0" };
        }
    }
    const bool wantDc = !c.pubLabels.empty();
    World w(c);
    w.observeWire = true;
    schedFaults(0.1);
    const int kind = std::min((int)(param("kind") % 13), 10);
    probe(("kind_" + std::to_string(kind)).c_str());
    std::deque<net::Dgram> rec, old;
    w.onSend = [&](const net::Dgram& d) {
        if (!d.to) return;
        rec.push_back(d);
        if (rec.size() > 300) rec.pop_front();
        if (old.size() < 300) old.push_back(d);
    };
    Load l(w);
    l.fps = 30;
    l.keyEvery = 30;
    l.sizeScale = 0.6;
    u64 n = 0;
    auto run = [&](i64 d, bool dc = true) {
        const i64 end = now() + d;
        while (now() < end) {
            if (wantDc && dc) {
                const u64 h = hash3(seed(), 0x5c24, n++);
                if (h % 3 == 0) w.sendMsg(h & 64 ? w.P : w.S, h & 128 ? "p0" : "s0", h & 256, mix(h) % 1000);
            }
            l.run(std::min<i64>(100 * MS, end - now()));
        }
    };
    auto settle = [&](i64 load) { // the same situation again
        run(load);
        sleepFor(c.jbLength * MS + 400 * MS);
        if (wantDc) drainChannels(w, now());
    };
    auto reconnected = [&] {
        clearNet();
        net::clearWindows();
        net::hooks.policy = nullptr;
        const i64 heal = now();
        while (now() < heal + 10 * SEC && !w.P.terminal && !w.S.terminal && !(w.P.state == State::Connected && w.S.state == State::Connected)) run(50 * MS, false);
        return w.P.state == State::Connected && w.S.state == State::Connected;
    };
    bool steady = true;
    Mark base{};
    const size_t kSlack = (kind == 7 ? 800 : 160) * 1024;
    if (kind == 9) { // nobody answers
        w.offers();
        w.answers();
        w.startPeer(w.P);
        run(2 * SEC);
        base = mark();
        heapPeakReset();
        run(paramRange("alone", 4, 60) * SEC);
        steady = false;
        peak(w, base, 256 * 1024, "publishing and sending without a connection");
    } else if (kind == 10) { // closed while it is being established
        w.offers();
        w.answers();
        const int who = (int)(param("who") % 4);
        if (who != 1) w.startPeer(w.P);
        if (who != 2) w.startPeer(w.S);
        if (paramBool("lossy", 0.5)) setNet(paramReal("loss", 0, 0.4), 0.1, 0.2, 300 * MS, 0.05, 0.05, 0, net::ALL);
        run(paramRange("close_after", 0, paramBool("later", 0.3) ? 12000 : 700) * MS);
        steady = false;
    } else {
        connectBoth(w);
        const i64 warm = 16 * SEC;
        settle(warm);
        base = mark();
        heapPeakReset();
        const size_t kPeak = 1200 * 1024;
        if (kind == 0 || kind == 1) { // floods
            const int what = (int)(param("what") % 9), batch = (int)paramRange("batch", 5, 25);
            const int ms = (int)paramRange("flood_ms", 1000, 3000);
            u64 work[2] = {}, count[2] = {}, r = hash2(seed(), 0xf100d);
            auto g = [&](u64 m) { return m ? (r = mix(r + 0x9e37)) % m : 0; };
            auto one = [&] {
                const int wh = what == 8 ? (int)g(8) : what;
                const auto& src = wh == 7 ? old : rec;
                if (src.empty()) return;
                const auto& t = src[g(src.size())];
                int to = t.to;
                Bytes b = t.data;
                bool genuine = false;
                switch (wh) {
                case 0:
                case 7:
                    genuine = true;
                    break;
                case 1:
                    for (u64 k = 1 + g(4); k > 0 && !b.empty(); k--) b[g(b.size())] ^= (uint8_t)(1 + g(255));
                    break;
                case 2: // another source
                    if (t.cls == net::RTP)
                        for (int i = 8; i < 12; i++) b[i] = (uint8_t)g(256);
                    else if (t.cls == net::RTCP)
                        for (int i = 4; i < 8; i++) b[i] = (uint8_t)g(256);
                    break;
                case 3: {
                    Bytes tid(12);
                    for (auto& x : tid) x = (uint8_t)g(256);
                    b = wire::makeStun(1, tid, "u" + std::to_string(g(1 << 30)) + ":x", "wrong", true, true, g(2), g(2));
                    break;
                }
                case 4: {
                    Bytes tid(12);
                    for (auto& x : tid) x = (uint8_t)g(256);
                    b = wire::makeStun(0x0101, tid, "", "wrong", g(2), true, false, false);
                    break;
                }
                case 5: {
                    b.resize(13 + g(200));
                    for (auto& x : b) x = (uint8_t)g(256);
                    b[0] = (uint8_t)(20 + g(5));
                    b[1] = 0xfe, b[2] = 0xfd, b[3] = 0, b[4] = (uint8_t)g(4);
                    const size_t len = b.size() - 13;
                    b[11] = (uint8_t)(len >> 8), b[12] = (uint8_t)len;
                    if (b[0] == 22 && len > 12 && g(2)) { // a fragment of a large handshake message
                        b[13] = (uint8_t)(1 + g(2));
                        b[14] = 0, b[15] = (uint8_t)g(64), b[16] = (uint8_t)g(256);
                        b[17] = 0, b[18] = (uint8_t)g(10);
                        b[19] = 0, b[20] = 0, b[21] = (uint8_t)g(256);
                        b[22] = 0, b[23] = 0, b[24] = (uint8_t)(len - 12);
                    }
                    break;
                }
                case 6:
                    b.resize(1 + g(1400));
                    for (auto& x : b) x = (uint8_t)g(256);
                    break;
                }
                net::Addr a;
                if (!net::lastPeer(to, a)) return;
                net::inject(to, a, b, (i64)g(MS), genuine);
            };
            for (int i = 0; i < ms; i++) {
                if (fault(what == 0 || what == 7 ? F_REPLAY : F_INJECT, 1)) {
                    Kernel k;
                    for (int j = 0; j < batch; j++) one();
                    count[i * 2 / ms] += batch;
                }
                const u64 b0 = g_bb;
                sleepFor(MS);
                work[i * 2 / ms] += g_bb - b0;
                if (kind == 1 && i % 33 == 0) run(MS, false);
            }
            {
                Kernel k;
                checked();
                probe("flood_datagrams", count[0] + count[1]);
                if (count[0] && count[1] && w.wanted("C28")) {
                    const double a = (double)work[0] / count[0], b = (double)work[1] / count[1];
                    probe("flood_work_each", (u64)b);
                    if (b > 3 * a + 20000) w.fail("C28", "work-grows", "the work per datagram of a flood grew from %.0f to %.0f basic blocks", a, b);
                }
            }
            sleepFor(SEC);
            peak(w, base, kPeak, "during a flood");
            steady = w.P.state == State::Connected && w.S.state == State::Connected;
        } else if (kind == 2) { // lost and found
            const int rounds = (int)paramRange("rounds", 2, 4);
            for (int i = 0; i < rounds && steady; i++) {
                const i64 d = paramRange(("cut" + std::to_string(i)).c_str(), 5200, 9000) * MS;
                net::addWindow({ now(), now() + d, 1, 2, net::ALL });
                net::addWindow({ now(), now() + d, 2, 1, net::ALL });
                run(d, false);
                steady = reconnected();
            }
            peak(w, base, kPeak, "losing and finding the connection");
        } else if (kind == 3) { // failed for good
            net::addWindow({ now(), now() + 1000 * SEC, 1, 2, net::ALL });
            net::addWindow({ now(), now() + 1000 * SEC, 2, 1, net::ALL });
            run(12 * SEC, false);
            const Mark dead = mark();
            heapPeakReset();
            for (int i = 0; i < 8; i++) run(8 * SEC), [&] {
                if (wantDc)
                    for (int j = 0; j < 40; j++) w.sendMsg(j % 2 ? w.P : w.S, j % 3 ? "p0" : "s0", j & 4, 4000);
            }();
            if (w.P.terminal && w.S.terminal) peak(w, dead, 96 * 1024, "after the connection had failed while the application went on");
            steady = false;
        } else if (kind == 4) { // no feedback arrives
            net::hooks.policy = [](const net::Dgram& d) -> i64 { return d.cls == net::RTCP ? (fault(F_LOSS, 1) ? -1 : -2) : -2; };
            run(40 * SEC);
            peak(w, base, kPeak, "without any feedback");
            steady = reconnected();
        } else if (kind == 5) { // most packets are lost
            setNet(paramReal("loss", 0.2, 0.8), 0.1, 0.3, 500 * MS);
            run(30 * SEC, false);
            peak(w, base, kPeak, "with heavy loss");
            steady = reconnected();
        } else if (kind == 6) { // a long session
            setNet(paramReal("loss", 0, 0.05), 0.05, 0.1, 100 * MS, 0.01, 0.005);
            run(paramRange("long", 60, 150) * SEC);
            peak(w, base, kPeak, "in a long session");
            steady = reconnected();
        } else if (kind == 7) { // jumps of the sequence number
            for (int i = 0; i < 30; i++) {
                for (auto& t : w.tracks)
                    if (fault(F_LOSS, 0.7)) w.skipSequence(t.index, 1 + (int)(faultParam(F_LOSS) % (i % 2 ? 30000 : 500)));
                run(300 * MS);
            }
            peak(w, base, kPeak, "with jumps of sequence numbers");
            steady = reconnected();
        } else if (kind == 8) { // very late and repeated datagrams
            setNet(0.05, 0.6, 0.5, 6 * SEC);
            run(25 * SEC, false);
            sleepFor(6 * SEC);
            peak(w, base, kPeak, "with very late datagrams");
            steady = reconnected();
        }
        if (steady) {
            settle(warm);
            if (w.P.state == State::Connected && w.S.state == State::Connected) {
                probe("steady");
                bounded(w, base, kSlack, "after the disturbance was over");
            }
        }
    }
    w.finish();
    {
        Kernel k;
        for (auto* p : { &w.P, &w.S }) {
            checked();
            if (net::openFds(p->node) && w.wanted("C28")) w.fail("C28", "descriptors", "node %d still has %d open descriptors after its connection was destroyed", p->node, net::openFds(p->node));
        }
    }
    for (auto* p : { &w.P, &w.S }) {
        NodeScope ns(p->node);
        p->offer.reset();
        p->answer.reset();
        for (auto& t : w.tracks) (p->node == 1 ? t.pub : t.sub).reset();
    }
    Kernel k;
    for (int i = 1; i <= 2; i++) {
        const size_t l = heapLive(i);
        checked();
        probe(i == 1 ? "left_1" : "left_2", l - empty.live[i]);
        if (w.wanted("C28") && l > empty.live[i] + 24000) w.fail("C28", "leak", "node %d: %zu bytes are still allocated after the connection was destroyed", i, l - empty.live[i]);
    }
    }
}

// an hour or more of one connection: what is kept does not grow by a few bytes at a time either
SCENARIO(longrun)
{
    const i64 span = paramRange("minutes", 25, paramBool("hours", 0.25) ? 120 : 45) * 60 * SEC;
    setTimeLimit(now() + span + 3000 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(1);
        c.jbLength = (int)paramRange("jb", 30, 300);
        if (paramBool("dc", 0.4)) {
            c.pubLabels = { "p0" };
            c.subLabels = { "s0" };
        }
    }
    const bool wantDc = !c.pubLabels.empty();
    World w(c);
    connectBoth(w);
    const int netKind = (int)(param("net") % 4);
    probe(("net_" + std::to_string(netKind)).c_str());
    // 0 nothing is lost, 1 media is, 2 keep-alives and feedback are, 3 everything is
    if (netKind) setNet(paramReal("loss", 0.02, netKind == 1 ? 0.2 : 0.4), 0.05, 0.1, 80 * MS, 0, 0, 0, netKind == 1 ? net::RTP : netKind == 2 ? net::STUN | net::RTCP : net::RTP | net::RTCP | net::STUN);
    const bool quiet = paramBool("quiet", 0.4); // the publisher pauses, so that keep-alives are needed
    Load l(w);
    l.fps = quiet ? 20 : (int)paramRange("fps", 3, 8);
    l.keyEvery = 20;
    l.fixedSize = (size_t)paramRange("size", 100, 1000);
    l.audioPeriod = 60 * MS;
    const i64 t0 = now(), warm = 12 * 60 * SEC;
    std::vector<std::pair<i64, Mark>> samples;
    u64 i = 0;
    while (now() < t0 + span && !w.P.terminal && !w.S.terminal) {
        const i64 next = now() + 20 * SEC;
        if (quiet) {
            l.run(4 * SEC);
            sleepFor(next - now());
        } else {
            l.run(next - now());
        }
        if (wantDc && w.P.state == State::Connected && w.S.state == State::Connected) {
            const u64 h = hash3(seed(), 0x1046, i++);
            w.sendMsg(h & 64 ? w.P : w.S, h & 128 ? "p0" : "s0", h & 256, mix(h) % 3000);
        }
        if (now() - t0 > warm) {
            sleepFor(700 * MS);
            samples.push_back({ now() - t0, mark() });
        }
    }
    {
        Kernel k;
        checked();
        const bool alive = !w.P.terminal && !w.S.terminal;
        probe(alive ? "lasted" : "ended");
        if (!alive && netKind < 2 && w.wanted("C15")) w.fail("C15", "lost-for-nothing", "the connection ended after %.0f s although no keep-alive or feedback was lost", (double)(now() - t0) / 1e9);
        if (alive && samples.size() > 20) {
            probe("simulated_minutes", (u64)(span / (60 * SEC)));
            for (int n = 1; n <= 2; n++) {
                // the least of the first and of the last quarter: what is there only for a moment does not count
                const size_t q = samples.size() / 4;
                size_t a = SIZE_MAX, b = SIZE_MAX, top = 0;
                for (size_t j = 0; j < q; j++) {
                    const size_t x = samples[j].second.live[n];
                    a = std::min(a, x);
                    top = std::max(top, x);
                    b = std::min(b, samples[samples.size() - 1 - j].second.live[n]);
                }
                checked();
                probe(n == 1 ? "bytes_more_1" : "bytes_more_2", b > a ? b - a : 0);
                if (w.wanted("C28") && b > top + 3000) w.fail("C28", "creeping", "node %d: under the same load its live memory never was below %zu bytes in the first, and never below %zu bytes in the last quarter of %.0f minutes", n, a, b, (double)(span - warm) / 60e9);
            }
        }
    }
    w.finish();
}
