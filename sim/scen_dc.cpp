// Data channel scenarios: C10 (exactly once, intact, in order), C11 (progress), C12 (notifications).
#include "scen.h"

namespace
{
std::vector<std::string> pickLabels(const char* n, int lo, int hi)
{
    std::vector<std::string> v;
    const int c = (int)paramRange(n, lo, hi);
    const u64 kind = param((std::string(n) + "_kind").c_str());
    for (int i = 0; i < c; i++) {
        std::string l = std::string(n) + std::to_string(i);
        if (kind % 5 == 0 && i == 0) l += std::string(1 + kind / 8 % 300, 'x');
        if (kind % 5 == 1 && i == 0) l = "label \xc3\xa4 with spaces";
        v.push_back(l);
    }
    return v;
}
void dcConfig(Config& c, bool shared)
{
    {
        Kernel k;
        pickProfile();
        // data channels are negotiated when both sides configure some
        c.pubLabels = pickLabels("p", 1, 3);
        c.subLabels = pickLabels("s", 1, 3);
        if (shared && paramBool("shared", 0.25)) {
            c.pubLabels.push_back("shared");
            c.subLabels.insert(c.subLabels.begin(), "shared");
        }
        c.subIsServer = paramBool("sub_is_server", 0.5);
        for (auto& l : c.pubLabels) tlog("node 1 configures channel '%s'", l.c_str());
        for (auto& l : c.subLabels) tlog("node 2 configures channel '%s'", l.c_str());
        c.maxMessageSize = paramBool("small_max", 0.2) ? (int)paramRange("max_msg", 1000, 60000) : 262144;
        pickNet(1);
    }
    if (paramBool("media", 0.5)) {
        if (paramBool("media_video", 0.5)) c.lines.push_back(videoLine("v0", pickVideoCodec("codec0")));
        else c.lines.push_back(audioLine("a"));
    } else {
        c.lines.push_back(audioLine("a"));
    }
}
size_t msgSize(u64 h, int max, int kind)
{
    const u64 m = mix(h);
    size_t n;
    switch (kind) {
    case 0: n = m % 40; break;
    case 1: n = m % 3 ? m % 1200 : 1095 + m % 12; break;
    case 2: n = m % 5000; break;
    case 3: n = m % 40000; break;
    default: n = m % 4 ? m % 200 : 60000 + m % 210000; break;
    }
    if (m % 23 == 0) n = 0;
    if (m % 97 == 1) n = 1100 * (1 + m % 4);
    return std::min<size_t>(n, max);
}
// all labels of both sides announced on p?
bool allOpen(World& w, Peer& p)
{
    for (auto* v : { &w.cfg.pubLabels, &w.cfg.subLabels })
        for (auto& l : *v)
            if (!p.openedLabels.count(l)) return false;
    return true;
}
u64 fragmentsLeft(World& w, bool all = false)
{
    u64 n = 0;
    for (auto* p : { &w.P, &w.S })
        for (auto& m : p->sent)
            if ((all || (m.connected && m.opened)) && !m.delivered) n += 1 + m.data.size() / 1100;
    return n;
}
// C12: both sides announce everything; C10/C11: everything is delivered
void drain(World& w, i64 healed)
{
    // one lost chunk is sent again per retransmission timeout
    const i64 per = 300 * MS + 2 * (net::dir(1, 2).latency + net::dir(2, 1).latency);
    const i64 openBy = healed + 12 * SEC + (i64)fragmentsLeft(w, true) * per;
    while (now() < openBy && !(allOpen(w, w.P) && allOpen(w, w.S))) {
        if (w.P.terminal || w.S.terminal) return;
        sleepFor(20 * MS);
    }
    {
        Kernel k;
        checked();
        for (auto* p : { &w.P, &w.S })
            if (!allOpen(w, *p)) {
                const char* prop = w.wanted("C12") ? "C12" : w.wanted("C24") ? "C24" : "C11";
                if (w.wanted(prop)) w.fail(prop, "not-announced", "%.1f s after the network healed node %d has announced %zu channels of %zu configured ones", (double)(now() - healed) / SEC, p->node, p->openedLabels.size(), w.cfg.pubLabels.size() + w.cfg.subLabels.size());
            }
    }
    const i64 by = now() + 6 * SEC + (i64)fragmentsLeft(w, true) * per; // also those which nothing is promised for
    // the oldest chunk is sent again first: without any delivery for as long as the longest message may take it is stuck
    u64 longest = 0;
    for (auto* p : { &w.P, &w.S })
        for (auto& m : p->sent)
            if (m.connected && m.opened && !m.delivered) longest = std::max<u64>(longest, 1 + m.data.size() / 1100);
    const i64 stall = 8 * SEC + (i64)(longest + fragmentsLeft(w, true) - fragmentsLeft(w)) * per;
    u64 left = fragmentsLeft(w);
    i64 progress = now();
    while (now() < by && left && now() - progress < stall) {
        if (w.P.terminal || w.S.terminal) return;
        sleepFor(50 * MS);
        if (const u64 l = fragmentsLeft(w); l != left) {
            left = l;
            progress = now();
        }
    }
    if (w.P.terminal || w.S.terminal) return;
    probe("dc_drained");
    const char* prop = w.wanted("C10") ? "C10" : w.wanted("C24") ? "C24" : "C11";
    if (w.wanted(prop)) {
        w.checkMessagesDelivered(w.P, prop);
        w.checkMessagesDelivered(w.S, prop);
    }
}
void sendSome(World& w, i64 dur, i64 gap, int kind, const char* stream, int burst)
{
    u64 counter = 0;
    size_t bytes = 0;
    const i64 end = now() + dur;
    while (now() < end) {
        const u64 h = hash3(seed(), hashStr(stream), counter++);
        const int n = h % 7 == 0 ? 1 + (int)(mix(h) % burst) : 1;
        for (int i = 0; i < n; i++) {
            const u64 g = hash2(h, i + 100);
            Peer& p = g % 2 ? w.P : w.S;
            std::vector<std::string> labels;
            for (auto* v : { &w.cfg.pubLabels, &w.cfg.subLabels })
                for (auto& l : *v) labels.push_back(l);
            size_t size = msgSize(g, w.cfg.maxMessageSize, kind);
            if (bytes + size > 1500000) size %= 50; // a lost chunk takes a retransmission timeout, keep runs short
            bytes += size;
            if (!p.terminal) w.sendMsg(p, labels[(g >> 8) % labels.size()], (g >> 32) % 2, size);
        }
        if (!w.tracks.empty() && h % 5 == 0 && !w.P.terminal) w.publish(0, h % 3 == 0, 50 + h % 900);
        sleepFor(1 + (i64)(mix(h ^ 5) % (u64)(2 * gap)));
    }
}
// The peer opens its channels as unordered, as browsers can: changed in what it writes into its DTLS session.
struct Unordered {
    std::set<uint32_t> streams; // node << 16 | stream
    static void chunks(Bytes& b, const std::function<void(size_t at, size_t len)>& f)
    {
        for (size_t i = 12; i + 4 <= b.size();) {
            const size_t len = wire::be16(&b[i + 2]);
            if (len < 4 || i + len > b.size()) break;
            f(i, len);
            i += (len + 3) / 4 * 4;
        }
    }
    void rewrite(int node, Bytes& b, bool zeroSsn)
    {
        bool changed = false;
        chunks(b, [&](size_t i, size_t len) {
            if (b[i] != 0 || len < 17) return;
            const uint32_t key = (uint32_t)node << 16 | wire::be16(&b[i + 8]);
            if (wire::be32(&b[i + 12]) == 50) {
                if (b[i + 16] == 3) streams.insert(key), b[i + 17] = 0x80, changed = true, probe("unordered_open");
            } else if (streams.count(key)) {
                b[i + 1] |= 4;
                if (zeroSsn) b[i + 10] = b[i + 11] = 0;
                changed = true;
            }
        });
        if (changed) wire::fixSctp(b);
    }
};
} // namespace
void drainChannels(World& w, i64 healed) { drain(w, healed); }

// messages while datagrams are lost, repeated, reordered and delayed
SCENARIO(dc)
{
    setTimeLimit(now() + 4000 * SEC, "time-limit");
    Config c;
    dcConfig(c, true);
    World w(c);
    Unordered un;
    if (const int who = paramBool("unordered", 0.2) ? 1 + (int)(param("unordered_side") % 2) : 0) {
        auto& mine = who == 1 ? c.pubLabels : c.subLabels;
        w.unorderedLabels.insert(mine.begin(), mine.end());
        wire::sslWrite = [&un, who, zero = paramBool("zero_ssn", 0.7)](int node, Bytes& b) {
            if (node == who) un.rewrite(node, b, zero);
        };
    }
    const bool lossyStart = paramBool("lossy_start", 0.5);
    if (lossyStart) setNet(paramReal("start_loss", 0, 0.25), 0.1, 0.2, 400 * MS, 0, 0, 0, net::ALL);
    connectBoth(w, 25 * SEC);
    schedFaults(0.4);
    const int rounds = (int)paramRange("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        auto P_ = [&](const char* n) { return n + std::to_string(r); };
        if (!(r == 0 && lossyStart)) {
            const int k = (int)(param(P_("faults").c_str()) % 4);
            if (k == 0) clearNet();
            else setNet(paramReal(P_("loss").c_str(), 0, 0.4), paramReal(P_("dup").c_str(), 0, 0.3), paramReal(P_("delay").c_str(), 0, 0.5), paramRange(P_("dmax").c_str(), 5, 900) * MS, 0, 0, k == 3 ? 0.03 : 0, net::ALL);
            if (k == 2) {
                const i64 at0 = now() + paramRange(P_("cut_at").c_str(), 0, 500) * MS;
                const i64 len = paramRange(P_("cut").c_str(), 20, 3500) * MS;
                const int who = (int)(param(P_("who").c_str()) % 3);
                if (who != 1) net::addWindow({ at0, at0 + len, 1, 2, net::ALL });
                if (who != 2) net::addWindow({ at0, at0 + len, 2, 1, net::ALL });
            }
        } else {
            sleepFor(paramRange("first_wait", 0, 1500) * MS);
        }
        const int kind = (int)(param(P_("size").c_str()) % 5);
        sendSome(w, paramRange(P_("dur").c_str(), 100, 2500) * MS, paramRange(P_("gap").c_str(), 1, 60) * MS, kind, P_("msgs").c_str(), kind < 3 ? 60 : 6);
        if (paramBool(P_("jump").c_str(), 0.2)) {
            jumpWall(1, paramRange(P_("j1").c_str(), -100, 100) * SEC);
            jumpWall(2, paramRange(P_("j2").c_str(), -100, 100) * SEC);
        }
        if (w.P.terminal || w.S.terminal) break;
    }
    // the very last messages and their retransmissions are lost
    if (paramBool("tail", 0.6) && !w.P.terminal && !w.S.terminal) {
        setNet(paramReal("tail_loss", 0.3, 0.9), 0, 0, 0, 0, 0, 0, net::DTLS);
        const int n = (int)paramRange("tail_n", 1, 3);
        for (int i = 0; i < n; i++) {
            auto& l = w.cfg.pubLabels.empty() ? w.cfg.subLabels : w.cfg.pubLabels;
            w.sendMsg(paramBool(("tail_side" + std::to_string(i)).c_str(), 0.5) ? w.P : w.S, l[0], i % 2, paramBool(("tail_big" + std::to_string(i)).c_str(), 0.2) ? 3000 : 20);
        }
        sleepFor(paramRange("tail_wait", 0, 3000) * MS);
    }
    net::clearWindows();
    clearNet();
    if (!w.waitBoth(State::Connected, 12 * SEC)) {
        probe("dc_not_reconnected");
        wire::sslWrite = nullptr;
        w.finish();
        return;
    }
    drain(w, now());
    // a later message must still get through on every channel of both sides
    if (!w.P.terminal && !w.S.terminal) {
        for (auto* p : { &w.P, &w.S })
            for (auto* v : { &w.cfg.pubLabels, &w.cfg.subLabels })
                for (auto& l : *v) w.sendMsg(*p, l, p->node == 1, 10);
        drain(w, now());
    }
    wire::sslWrite = nullptr;
    w.finish();
}

// volumes above the windows, with outages that end
SCENARIO(dcvol)
{
    setTimeLimit(now() + 3000 * SEC, "time-limit");
    Config c;
    dcConfig(c, true);
    c.maxMessageSize = 262144;
    World w(c);
    connectBoth(w, 25 * SEC);
    if (!waitFor([&] { return allOpen(w, w.P) && allOpen(w, w.S); }, 12 * SEC)) {
        Kernel k;
        if (w.wanted("C11")) w.fail("C11", "not-announced", "channels are not open 12 s after both sides were connected on a working network");
        simError("not open");
    }
    schedFaults(0.3);
    const int rounds = (int)paramRange("rounds", 1, 2);
    for (int r = 0; r < rounds; r++) {
        auto P_ = [&](const char* n) { return n + std::to_string(r); };
        setNet(paramReal(P_("loss").c_str(), 0, 0.3), 0.05, paramReal(P_("delay").c_str(), 0, 0.3), paramRange(P_("dmax").c_str(), 5, 500) * MS, 0, 0, 0.01, net::DTLS);
        const int k = (int)(param(P_("kind").c_str()) % 3);
        Peer& p = param(P_("side").c_str()) % 2 ? w.P : w.S;
        auto& labels = (c.pubLabels.empty() || (param(P_("side").c_str()) & 2 && !c.subLabels.empty())) ? c.subLabels : c.pubLabels;
        if (k == 0) { // one large message after another
            const int n = (int)paramRange(P_("n").c_str(), 1, 4);
            for (int i = 0; i < n; i++) w.sendMsg(p, labels[i % labels.size()], i % 2, (size_t)paramRange((P_("big") + "_" + std::to_string(i)).c_str(), 100000, 262144));
        } else if (k == 1) { // very many small ones at once
            const int n = (int)paramRange(P_("many").c_str(), 500, 1500);
            for (int i = 0; i < n; i++) {
                w.sendMsg(p, labels[i % labels.size()], i % 2, hash3(seed(), r, i) % 30);
                if (i % 200 == 199) sleepFor(MS);
            }
        } else { // mixed, both sides, during an outage
            const i64 t = now();
            const i64 len = paramRange(P_("cut").c_str(), 100, 4000) * MS;
            net::addWindow({ t, t + len, 1, 2, net::ALL });
            if (param(P_("both").c_str()) % 2) net::addWindow({ t, t + len, 2, 1, net::ALL });
            for (int i = 0; i < 60; i++) {
                w.sendMsg(i % 2 ? w.P : w.S, labels[i % labels.size()], i % 3 == 0, hash3(seed(), r + 50, i) % 20000);
                sleepFor(10 * MS);
            }
            sleepFor(len);
        }
        sleepFor(paramRange(P_("settle").c_str(), 0, 3000) * MS);
        if (w.P.terminal || w.S.terminal) break;
    }
    net::clearWindows();
    clearNet();
    if (!w.waitBoth(State::Connected, 12 * SEC)) {
        probe("dc_not_reconnected");
        w.finish();
        return;
    }
    drain(w, now());
    // with nothing lost any more, the full window is used again: a bulk takes a number of round trips, not one per chunk
    if (!w.P.terminal && !w.S.terminal && fragmentsLeft(w, true) == 0) {
        Peer& p = param("bulk_side") % 2 ? w.P : w.S;
        sleepFor(3 * SEC);
        const i64 t0 = now();
        const size_t size = 200000 + (size_t)(param("bulk_size") % 60000);
        w.sendMsg(p, (p.node == 1 && !c.pubLabels.empty()) || c.subLabels.empty() ? c.pubLabels[0] : c.subLabels[0], false, size);
        const i64 rtt = net::dir(1, 2).latency + net::dir(2, 1).latency + net::dir(1, 2).jitter + net::dir(2, 1).jitter;
        const i64 bound = SEC + (i64)(size / 1100) / 32 * (rtt + 20 * MS);
        waitFor([&] { return fragmentsLeft(w) == 0; }, bound);
        Kernel k;
        checked();
        if (!w.P.terminal && !w.S.terminal && w.P.state == State::Connected && w.S.state == State::Connected && fragmentsLeft(w) && w.wanted("C11")) w.fail("C11", "slow", "%.1f s after a message of %zu bytes was sent over a channel with nothing outstanding and nothing lost, it has not arrived (round trip %.0f ms)", (double)(now() - t0) / 1e9, size, (double)rtt / 1e6);
        if (!fragmentsLeft(w)) probe("dc_bulk");
    }
    w.finish();
}

// more messages on one channel than there are stream sequence numbers
SCENARIO(dcwrap)
{
    setTimeLimit(now() + 3000 * SEC, "time-limit");
    Config c;
    dcConfig(c, false);
    World w(c);
    connectBoth(w, 25 * SEC);
    if (!waitFor([&] { return allOpen(w, w.P) && allOpen(w, w.S); }, 12 * SEC)) simError("not open");
    Peer& p = param("side") % 2 ? w.P : w.S;
    const std::string label = !c.pubLabels.empty() && (c.subLabels.empty() || param("label") % 2) ? c.pubLabels[0] : c.subLabels[0];
    const int before = (int)paramRange("before", 5, 300);
    const int n = 65536 - before;
    for (int i = 0; i < n; i++) {
        w.sendMsg(p, label, i % 2, 10);
        if (i % 400 == 399) waitFor([&] { return p.sent.size() - p.deliveredCount < 800; }, 20 * SEC);
        if (w.P.terminal || w.S.terminal) simError("terminal");
    }
    waitFor([&] { return fragmentsLeft(w) == 0; }, 20 * SEC);
    schedFaults(0.3);
    setNet(paramReal("loss", 0, 0.25), paramReal("dup", 0, 0.2), paramReal("delay", 0, 0.5), paramRange("dmax", 5, 400) * MS, 0, 0, 0, net::DTLS);
    for (int i = 0; i < before + 200; i++) {
        w.sendMsg(p, label, i % 2, msgSize(hash2(seed(), (u64)i), 5000, (int)(param("size") % 3)));
        if (i % 10 == 9) sleepFor(10 * MS);
    }
    clearNet();
    if (!w.waitBoth(State::Connected, 12 * SEC)) simError("not connected");
    drain(w, now());
    probe("ssn_wrapped");
    w.finish();
}

// The peer closes channels by resetting their streams (RFC 6525), as browsers do. The request is repeated until it is
// answered; the other side announces the closing once, and the other channels are not disturbed.
SCENARIO(dcreset)
{
    setTimeLimit(now() + 600 * SEC, "time-limit");
    Config c;
    dcConfig(c, false);
    World w(c);
    const int who = 1 + (int)(param("reset_side") % 2); // the side which resets
    std::map<uint16_t, std::string> opened[3];          // the channels each node opened
    std::vector<uint16_t> streams;                      // to be reset
    uint32_t request = (uint32_t)mix(seed());
    bool resetting = false, haveTsn = false;
    uint32_t lastTsn = 0, resetTsn = 0; // the last one the resetting side has used, and had when it asked
    std::set<uint32_t> finals; // of the last messages on the channels about to be reset
    size_t finalMessages = 0;
    int responses = 0, requests = 0;
    u64 n = 0;
    const bool alone = paramBool("alone", 0.5);
    wire::sslWrite = [&](int node, Bytes& b) {
        bool sack = false;
        uint32_t answered = 0;
        bool isAnswer = false;
        Unordered::chunks(b, [&](size_t i, size_t len) {
            if (b[i] == 0 && len >= 28 && wire::be32(&b[i + 12]) == 50 && b[i + 16] == 3) {
                const size_t l = wire::be16(&b[i + 24]);
                if (28 + l <= len) opened[node][wire::be16(&b[i + 8])] = std::string((const char*)&b[i + 28], l);
            }
            if (b[i] == 3) sack = true;
            if (node == who && b[i] == 0 && len >= 16) {
                const uint32_t tsn = wire::be32(&b[i + 4]);
                if (!haveTsn || (int32_t)(tsn - lastTsn) > 0) {
                    haveTsn = true, lastTsn = tsn;
                    if (resetting && (b[i + 1] & 1) && wire::be32(&b[i + 12]) != 50 && std::count(streams.begin(), streams.end(), wire::be16(&b[i + 8]))) finals.insert(tsn);
                }
            }
            if (b[i] == 130 && node != who && len >= 16 && wire::be16(&b[i + 4]) == 16) {
                const uint32_t result = wire::be32(&b[i + 12]);
                if (result == 6) { probe("reset_in_progress"); return; } // ask again
                isAnswer = true;
                answered = wire::be32(&b[i + 8]);
                if (result > 1 && w.wanted("C12")) w.fail("C12", "reset-refused", "node %d answered a valid stream reset with result %u", node, wire::be32(&b[i + 12]));
            }
        });
        if (isAnswer && answered == request) responses++;
        if (node != who || !resetting || responses || !sack || b.size() > 900 || finals.size() < finalMessages) return; // everything sent before has its number
        if (!requests) resetTsn = lastTsn; // repeated as it was
        if (hash3(seed(), 0x7e5e7, n++) % 3 == 0) return;
        Bytes par;
        wire::put16(par, 0x000d);
        wire::put16(par, (uint16_t)(16 + 2 * streams.size()));
        wire::put32(par, request);
        wire::put32(par, 0);
        wire::put32(par, resetTsn);
        for (auto x : streams) wire::put16(par, x);
        Bytes ch = { 130, 0 };
        wire::put16(ch, (uint16_t)(4 + par.size()));
        ch.insert(ch.end(), par.begin(), par.end());
        while (ch.size() % 4) ch.push_back(0);
        if (alone) b.resize(12);
        b.insert(b.end(), ch.begin(), ch.end());
        wire::fixSctp(b);
        requests++;
        probe("reset_requests");
    };
    connectBoth(w, 25 * SEC);
    if (!waitFor([&] { return allOpen(w, w.P) && allOpen(w, w.S); }, 12 * SEC)) simError("not open");
    Peer& resetter = who == 1 ? w.P : w.S;
    Peer& other = who == 1 ? w.S : w.P;
    schedFaults(0.4);
    auto net_ = [&] { setNet(paramReal("loss", 0, 0.4), paramReal("dup", 0, 0.3), paramReal("delay", 0, 0.5), paramRange("dmax", 5, 500) * MS, 0, 0, 0, net::DTLS); };
    if (paramBool("faults", 0.7)) net_();
    sendSome(w, paramRange("dur", 100, 1500) * MS, paramRange("gap", 2, 60) * MS, (int)(param("size") % 3), "msgs", 20);
    clearNet();
    if (!w.waitBoth(State::Connected, 12 * SEC)) simError("not connected");
    drain(w, now());
    sleepFor(1500 * MS); // acknowledgements too
    // everything has been delivered: close some channels
    std::map<std::string, int> gone; // label, how many channels of that label (both sides may have chosen the same one)
    std::set<std::string> left;
    {
        Kernel k;
        int i = 0;
        for (auto& by : opened)
            for (auto& [id, label] : by) {
                if (i++ == (int)(param("reset_one") % (opened[1].size() + opened[2].size())) || param(("reset" + std::to_string(i)).c_str()) % 2) streams.push_back(id), gone[label]++;
                else left.insert(label);
            }
        if (streams.empty()) simError("nothing to reset");
        if (paramBool("unknown", 0.3)) streams.insert(streams.begin() + (long)(param("unknown_at") % streams.size()), 1000);
        for (auto& [l, k] : gone) tlog("node %d is going to close '%s'", who, l.c_str());
        for (auto& [l, k] : gone) left.erase(l);
    }
    auto closedCount = [&](Peer& p, const std::string& l) {
        int k = 0;
        for (auto& e : p.dc) k += e.kind == 1 && e.label == l;
        return k;
    };
    if (paramBool("faults2", 0.6)) net_();
    size_t promised = 0; // of resetter.sent: these have to arrive before the channel is closed
    if (paramBool("last_words", 0.6)) {
        std::map<std::string, int> channels;
        for (auto& by : opened)
            for (auto& [id, l] : by) channels[l]++;
        std::vector<std::string> last; // both sides may have chosen the same label, then it is not known which channel is used
        for (auto& [l, count] : gone)
            if (channels[l] == 1) last.insert(last.end(), 1 + hash2(seed(), last.size()) % 4, l);
        {
            Kernel k;
            resetting = true;
            finalMessages = last.size();
        }
        for (size_t i = 0; i < last.size(); i++) w.sendMsg(resetter, last[i], i % 2, msgSize(hash3(seed(), 0x7e5e9, i), 3000, (int)(param("size") % 3)));
        probe("last_words", (i64)last.size());
    }
    {
        Kernel k;
        resetting = true;
        promised = resetter.sent.size();
    }
    // traffic on the remaining channels goes on; the requests travel with acknowledgements
    const i64 end = now() + paramRange("dur2", 500, 4000) * MS;
    u64 m = 0;
    auto traffic = [&] {
        for (auto* p : { &resetter, &other })
            for (auto& l : left)
                if (!p->terminal) w.sendMsg(*p, l, m % 2, msgSize(hash3(seed(), 0x7e5e8, m++), 3000, (int)(param("size") % 3)));
        if (left.empty() && !other.terminal) w.sendMsg(other, gone.begin()->first, true, 5); // makes the resetter acknowledge something
        if (m % 5 == 0 && !other.terminal) w.sendMsg(other, gone.begin()->first, false, 7);
    };
    while (now() < end) {
        traffic();
        sleepFor(paramRange("gap2", 20, 200) * MS);
    }
    clearNet();
    if (!w.waitBoth(State::Connected, 12 * SEC)) simError("not connected");
    const i64 healed = now();
    // requests only go out with acknowledgements, which the channels still open keep coming
    while (now() < healed + 8 * SEC && !responses && !left.empty() && !resetter.terminal && !other.terminal) {
        traffic();
        sleepFor(100 * MS);
    }
    sleepFor(1 * SEC);
    {
        Kernel k;
        if (!w.P.terminal && !w.S.terminal && w.wanted("C12")) {
            checked();
            if (requests && !left.empty() && !responses) w.fail("C12", "reset-unanswered", "node %d has not answered any of %d requests to reset %zu streams", other.node, requests, streams.size());
            for (auto& [l, count] : gone) {
                const int times = closedCount(other, l);
                if (responses && times < count) w.fail("C12", "close-not-announced", "node %d has answered the reset of channel '%s' without announcing that it is closed", other.node, l.c_str());
                if (times > count) w.fail("C12", "closed-twice", "node %d announced %d times that channel '%s' is closed", other.node, times, l.c_str());
            }
            for (auto* p : { &w.P, &w.S })
                for (auto& l : left)
                    if (closedCount(*p, l)) w.fail("C12", "wrong-channel-closed", "node %d announced channel '%s' as closed, the peer closed others", p->node, l.c_str());
            if (responses) probe("resets");
        }
        for (auto* p : { &w.P, &w.S }) // nothing is promised for what was sent on a closed channel
            for (size_t i = p == &resetter && responses ? promised : 0; i < p->sent.size(); i++)
                if (auto& x = p->sent[i]; gone.count(x.label) && !x.delivered) x.opened = false;
    }
    drain(w, now());
    wire::sslWrite = nullptr;
    w.finish();
}
