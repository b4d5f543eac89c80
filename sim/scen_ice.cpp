// C16: STUN messages without the session's credentials.
#include "scen.h"
#include <thread>

namespace
{
const int kRequest = 0x0001, kSuccess = 0x0101, kError = 0x0111;
void refinger(Bytes& b) // a correct fingerprint over whatever the message now says
{
    if (b.size() < 28) return;
    const uint32_t c = wire::crc32(b.data(), b.size() - 8) ^ 0x5354554eu;
    for (int i = 0; i < 4; i++) b[b.size() - 4 + i] = (uint8_t)(c >> (24 - 8 * i));
}
struct Attacker {
    World& w;
    struct Seen {
        Bytes tid;
        i64 at;
    };
    std::deque<Seen> asked[3];                        // requests a node sent
    std::deque<std::pair<Bytes, net::Addr>> heard[3]; // genuine responses delivered to it
    std::set<Bytes> forged[3], valid[3];              // transaction ids of requests delivered to a node
    std::map<Bytes, i64> expect[3];                   // valid injected requests waiting for their answer
    std::set<Bytes> anyRequest[3];
    u64 n = 0;
    bool useCandidate[3] = {}, dtls[3] = {};
    u64 answered = 0;
    explicit Attacker(World& world) : w(world)
    {
        w.onSend = [this](const net::Dgram& d) { onSend(d); };
    }
    Peer& peer(int node) { return node == 1 ? w.P : w.S; }
    std::string pwdOf(int node) { return peer(node).pwd; }
    void onSend(const net::Dgram& d)
    {
        if (d.from < 1 || d.from > 2) return;
        if (d.cls == net::DTLS) dtls[d.from] = true;
        if (d.cls != net::STUN) return;
        auto s = wire::parseStun(d.data);
        if (!s.ok) w.fail("C16", "malformed-sent", "node %d sent a malformed STUN message", d.from);
        if (s.type == kRequest) {
            asked[d.from].push_back({ s.tid, now() });
            if (asked[d.from].size() > 12) asked[d.from].pop_front();
            if (s.useCandidate) useCandidate[d.from] = true;
        }
        if (s.type == kSuccess) {
            checked();
            if (forged[d.from].count(s.tid)) w.fail("C16", "forged-answered", "node %d answered a STUN request which was not protected with the session's credentials", d.from);
            auto it = expect[d.from].find(s.tid);
            if (it != expect[d.from].end()) {
                if (!s.fingerprintOk || !wire::stunIntegrityOk(d.data, pwdOf(d.from))) w.fail("C16", "bad-answer", "node %d's answer to a correct request has no valid %s", d.from, s.fingerprintOk ? "integrity" : "fingerprint");
                answered++;
                expect[d.from].erase(it);
            }
        }
    }
    void onDeliver(const net::Dgram& d)
    {
        if (d.cls != net::STUN || d.injected || !d.genuine) return;
        auto s = wire::parseStun(d.data);
        if (s.type == kSuccess && s.ok) {
            heard[d.to].push_back({ d.data, d.src });
            if (heard[d.to].size() > 20) heard[d.to].pop_front();
        }
    }
    // everything an attacker can do who sees the traffic, but does not know the passwords
    void strike(int to, u64 h, bool mayBeValid)
    {
        if (!fault(F_INJECT, 1)) return;
        Kernel k;
        u64 r = h;
        auto next = [&](u64 m) { return (r = mix(r + 77)) % m; };
        net::Addr from;
        if (!net::lastPeer(to, from)) return;
        const int o = 3 - to;
        const std::string user = peer(to).ufrag + ":" + peer(o).ufrag;
        Bytes fresh(12);
        for (auto& b : fresh) b = (uint8_t)next(256);
        Bytes b;
        bool credentialed = false;
        if (next(2)) { // responses
            if (asked[to].empty()) return;
            const Bytes tid = asked[to][next(3) ? asked[to].size() - 1 : next(asked[to].size())].tid;
            const net::Addr self{ "10.0.0.1", 5001 };
            const std::string key = pwdOf(o);
            std::string bad = key;
            if (!bad.empty()) bad[next(bad.size())] ^= 1;
            switch (next(10)) {
            case 0: b = wire::makeStun(kSuccess, tid, "", bad, true, true, false, false, &self); break;
            case 1: b = wire::makeStun(kSuccess, tid, "", key, false, true, false, false, &self); break;
            case 2: b = wire::makeStun(kSuccess, tid, "", key, true, false, false, false, &self); break;
            case 3:
                b = wire::makeStun(kSuccess, tid, "", key, true, true, false, false, &self);
                b[b.size() - 1 - next(4)] ^= (uint8_t)(1 << next(8));
                break;
            case 4: b = wire::makeStun(kSuccess, tid, "", pwdOf(to), true, true, false, false, &self); break;
            case 5: b = wire::makeStun(kSuccess, fresh, "", key, true, true, false, false, &self); break;
            case 6: // an answer which was received before
                if (heard[to].empty()) return;
                {
                    auto& x = heard[to][next(heard[to].size())];
                    b = x.first;
                    from = x.second;
                }
                break;
            case 7: // an earlier answer made to fit another request
                if (heard[to].empty()) return;
                b = heard[to][next(heard[to].size())].first;
                std::copy(tid.begin(), tid.end(), b.begin() + 8);
                refinger(b);
                break;
            case 8:
                b = wire::makeStun(kSuccess, tid, "", "", true, true, false, false, next(2) ? &self : nullptr);
                break;
            default: // a damaged body under a correct fingerprint
                b = wire::makeStun(kSuccess, tid, "", key, true, true, false, false, &self);
                b[20 + next(b.size() - 28)] ^= (uint8_t)(1 << next(8));
                refinger(b);
                break;
            }
        } else {
            const std::string key = pwdOf(to);
            std::string bad = key;
            if (!bad.empty()) bad[next(bad.size())] ^= 1;
            const bool uc = next(2), ctl = next(2);
            std::string u = user;
            const u64 kind = next(12);
            switch (kind) {
            case 0: u = peer(o).ufrag + ":" + peer(to).ufrag; b = wire::makeStun(kRequest, fresh, u, key, true, true, uc, ctl); break;
            case 1: b = wire::makeStun(kRequest, fresh, u, bad, true, true, uc, ctl); break;
            case 2: b = wire::makeStun(kRequest, fresh, "", key, true, true, uc, ctl); break;
            case 3: b = wire::makeStun(kRequest, fresh, u, key, false, true, uc, ctl); break;
            case 4: b = wire::makeStun(kRequest, fresh, u, key, true, false, uc, ctl); break;
            case 5:
                b = wire::makeStun(kRequest, fresh, u, key, true, true, uc, ctl);
                b[b.size() - 1 - next(4)] ^= (uint8_t)(1 << next(8));
                break;
            case 6:
                b = wire::makeStun(kRequest, fresh, u, key, true, true, uc, ctl);
                b[20 + next(b.size() - 28)] ^= (uint8_t)(1 << next(8));
                refinger(b);
                break;
            case 7:
                u = next(2) ? u.substr(0, u.size() - 1 - next(4)) : u + "x";
                b = wire::makeStun(kRequest, fresh, u, key, true, true, uc, ctl);
                break;
            case 8: b = wire::makeStun(kRequest, fresh, u, pwdOf(o), true, true, uc, ctl); break;
            case 9: b = wire::makeStun(kRequest, fresh, u, "", true, true, uc, ctl); break;
            default:
                if (!mayBeValid) return;
                b = wire::makeStun(kRequest, fresh, u, key, true, true, uc, ctl);
                credentialed = true;
                break;
            }
            if (credentialed) {
                valid[to].insert(fresh);
                expect[to][fresh] = now();
                probe("valid_requests");
            } else {
                forged[to].insert(fresh);
            }
        }
        if (!credentialed) probe("forged");
        net::inject(to, from, b, 50 * US);
    }
    void settle(i64 slack)
    {
        for (int nd = 1; nd <= 2; nd++)
            for (auto& [tid, t] : expect[nd]) {
                checked();
                if (peer(nd).terminal || peer(nd).closeCalled) continue;
                if (now() - t > slack) w.fail("C16", "not-answered", "node %d (%s) did not answer a correctly protected STUN request within %.3f s", nd, stateName(peer(nd).state), (double)(now() - t) / SEC);
            }
    }
};
} // namespace

SCENARIO(stun)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.2);
    const int mode = (int)(param("mode") % 5);
    if (mode == 4) c.wrongPasswordP = true;
    World w(c);
    Heard heard;
    Attacker a(w);
    w.onDeliver = [&](const net::Dgram& d) {
        heard.deliver(d);
        a.onDeliver(d);
    };
    schedFaults(0.3);
    const double perSec = paramReal("rate", 2, 60);
    const bool alsoValid = paramBool("valid", 0.5);
    auto attack = [&](i64 until, const std::function<bool()>& stop, bool busy) {
        u64 i = 0;
        i64 nextFrame = now();
        while (now() < until && !stop()) {
            const u64 h = hash3(seed(), 0x57a1, a.n++);
            for (int nd = 1; nd <= 2; nd++) {
                Peer& p = a.peer(nd);
                if (p.started && !p.terminal && mix(h + nd) % 4) a.strike(nd, mix(h ^ (u64)nd << 32), alsoValid);
            }
            i64 next = now() + (i64)(SEC / perSec * (0.2 + 1.6 * unit(mix(h ^ 5))));
            if (busy) {
                while (nextFrame < next) {
                    sleepUntil(nextFrame);
                    if (stop()) return;
                    w.publish((int)(i % w.tracks.size()), i % 20 == 0, 200 + h % 700);
                    i++;
                    nextFrame += 40 * MS;
                }
            }
            sleepUntil(std::min(until, next));
            a.settle(300 * MS);
        }
    };
    const i64 flight = net::dir(1, 2).latency + net::dir(2, 1).latency + net::dir(1, 2).jitter + net::dir(2, 1).jitter;
    if (mode == 0 || mode == 4) {
        // nobody there who knows the passwords
        if (mode == 0) {
            net::addWindow({ 0, now() + 1000 * SEC, 1, 2, net::ALL });
            net::addWindow({ 0, now() + 1000 * SEC, 2, 1, net::ALL });
        }
        w.start();
        const i64 t0 = now();
        attack(t0 + 7 * SEC, [&] { return w.P.terminal && w.S.terminal; }, false);
        Kernel k;
        for (auto* p : { &w.P, &w.S }) {
            checked();
            if (!w.wanted("C16")) continue;
            if (stateTime(*p, State::Connected) >= 0) w.fail("C16", "established", "node %d was connected by STUN messages without the credentials", p->node);
            if (mode == 0 && a.useCandidate[p->node]) w.fail("C16", "nominated", "node %d nominated a candidate without having got a correct answer", p->node);
            if (mode == 0 && a.dtls[p->node]) w.fail("C16", "dtls-started", "node %d started DTLS without having got a correct answer", p->node);
            if (p->state != State::Failed) w.fail("C16", "kept-alive", "node %d is still %s %.2f s after the start", p->node, stateName(p->state), (double)(now() - t0) / SEC);
        }
        probe("alone");
    } else if (mode == 3) {
        // while the two are connecting
        w.start();
        const i64 t0 = now();
        attack(t0 + 5 * SEC, [&] { return w.P.state == State::Connected && w.S.state == State::Connected; }, false);
        Kernel k;
        checked();
        if (w.wanted("C16") && !(w.P.state == State::Connected && w.S.state == State::Connected))
            w.fail("C16", "prevented", "forged STUN messages kept the two from connecting: node 1 is %s, node 2 is %s", stateName(w.P.state), stateName(w.S.state));
        probe("connected_under_attack");
    } else {
        connectBoth(w);
        const bool busy = paramBool("busy", 0.5);
        const i64 t1 = now() + paramRange("attack_ms", 1000, 16000) * MS;
        attack(t1, [&] { return w.P.terminal || w.S.terminal; }, busy);
        {
            Kernel k;
            checked();
            for (auto* p : { &w.P, &w.S })
                if (w.wanted("C16") && p->state != State::Connected) w.fail("C16", "disrupted", "node %d became %s under forged STUN messages", p->node, stateName(p->state));
        }
        auto rtts = [&](i64 from) {
            Kernel k;
            const double lo = (double)(net::dir(1, 2).latency + net::dir(2, 1).latency) / MS, hi = (double)flight / MS + 60;
            auto one = [&](int nd, i64 t, double v) {
                checked();
                if (t < from || v == 0) return;
                probe("rtt_values");
                if (w.wanted("C16") && (v < lo - 1.5 || v > hi)) w.fail("C16", "wrong-rtt", "node %d reports a round-trip time of %.2f ms, the network's is %.2f to %.2f ms", nd, v, lo, (double)flight / MS);
            };
            for (auto& [t, s] : w.P.pubStats) one(1, t, s.rtt_ms);
            for (auto& [t, s] : w.S.subStats) one(2, t, s.rtt_ms);
        };
        rtts(0);
        if (mode == 2) {
            const i64 cut = now();
            net::addWindow({ cut, cut + 1000 * SEC, 1, 2, net::ALL });
            net::addWindow({ cut, cut + 1000 * SEC, 2, 1, net::ALL });
            attack(cut + 13 * SEC, [&] { return w.P.terminal && w.S.terminal; }, false);
            Kernel k;
            for (auto* p : { &w.P, &w.S }) {
                checked();
                if (!w.wanted("C16")) continue;
                const i64 lost = stateTime(*p, State::Connecting), failed = stateTime(*p, State::Failed);
                const i64 last = std::max(heard.any[p->node], cut);
                if (lost < cut || lost > last + 5 * SEC + 200 * MS)
                    w.fail("C16", "sustained", "node %d heard nothing genuine after %.3f s, but reported the loss of the connection %s%.3f s later", p->node, 0.0, lost < cut ? "never; now " : "", (double)((lost < cut ? now() : lost) - last) / SEC);
                if (failed < 0 || failed > lost + 5 * SEC + 200 * MS) w.fail("C16", "restored", "node %d is %s %.3f s after losing the connection for good", p->node, stateName(p->state), (double)(now() - lost) / SEC);
            }
            rtts(0);
            probe("blackholed");
        }
    }
    if (a.answered) probe("answered", a.answered);
    w.finish();
}
