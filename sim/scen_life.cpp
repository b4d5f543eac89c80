// Connection life cycle: C13 (notifications), C14 (connecting), C15 (loss of connectivity), C17 (certificates).
#include "scen.h"
#include <thread>

void Heard::attach(World& w)
{
    w.onDeliver = [this](const net::Dgram& d) { deliver(d); };
}
void Heard::deliver(const net::Dgram& d)
{
    if (d.to < 1 || d.to > 2 || !d.genuine || d.injected) return;
    any[d.to] = now();
    if (!seen.insert(d.id).second) return;
    if (d.cls == net::RTCP) certain[d.to] = now();
}
i64 stateTime(Peer& p, State s)
{
    for (auto it = p.states.rbegin(); it != p.states.rend(); ++it)
        if (it->s == s) return it->t;
    return -1;
}
void smallConfig(Config& c, double dcProb)
{
    Kernel k;
    pickProfile();
    pickNet(1);
    if (paramBool("video", 0.7)) c.lines.push_back(videoLine("v0", pickVideoCodec("codec0")));
    if (c.lines.empty() || paramBool("audio", 0.4)) c.lines.push_back(audioLine("a"));
    c.subIsServer = paramBool("sub_is_server", 0.5);
    c.rtx = paramBool("rtx", 0.7);
    c.bwe = paramBool("bwe", 0.3);
    c.pliInterval = paramBool("pli", 0.5) ? (int)paramRange("pli_ms", 500, 4000) : 0;
    if (paramBool("dc", dcProb)) {
        c.pubLabels = { "p0" };
        c.subLabels = { "s0" };
        if (paramBool("dc_more", 0.3)) c.pubLabels.push_back("p1");
    }
}
void traffic(World& w, i64 until)
{
    u64 n = 0;
    while (now() < until) {
        const u64 h = hash3(seed(), 0x7aff1c, n++);
        if (w.P.terminal && w.S.terminal) return;
        if (!w.P.terminal && !w.P.closed && !w.tracks.empty()) {
            const int t = (int)(h % w.tracks.size());
            w.publish(t, n % 20 == 1, w.tracks[t].video ? 40 + mix(h) % (mix(h ^ 1) % 8 ? 1500 : 9000) : 20 + mix(h) % 300);
        }
        if (h % 3 == 0 && !w.cfg.pubLabels.empty()) {
            Peer& p = h & 64 ? w.P : w.S;
            if (!p.terminal && !p.closed) w.sendMsg(p, h & 128 ? w.cfg.pubLabels[0] : w.cfg.subLabels[0], h & 256, mix(h ^ 3) % 3000);
        }
        sleepUntil(std::min<i64>(until, now() + 1 * MS + (i64)(mix(h ^ 7) % (30 * MS))));
    }
}

// start, use, lose and close connections at arbitrary moments
SCENARIO(life)
{
    setTimeLimit(now() + 200 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.5);
    World w(c);
    Heard heard;
    heard.attach(w);
    schedFaults(paramBool("heavy_sched", 0.4) ? 2 : 0.3);
    const bool stalls = paramBool("stalls", 0.2);
    if (stalls) setRate(F_STALL, 0.0005);
    const int netKind = (int)(param("net") % 3);
    if (netKind) setNet(netKind == 1 ? 0 : paramReal("loss", 0, 0.2), 0.05, 0.2, paramRange("dmax", 5, 300) * MS, 0, 0, 0, net::ALL);
    const int mode = (int)(param("mode") % 8);
    i64 cutAt = 0, cutTo = 0;
    w.offers();
    w.answers();
    i64 startP = now();
    w.startPeer(w.P);
    i64 startS = -1;
    if (mode != 3) {
        if (paramBool("late_start", 0.3)) sleepFor(paramRange("start_delay", 0, 3000) * MS);
        startS = now();
        w.startPeer(w.S);
    }
    const i64 t0 = now();
    // when things happen; near the beginning the handshake is still going on
    auto moment = [&](const char* n) { return paramBool((std::string(n) + "_early").c_str(), 0.4) ? paramRange((std::string(n) + "_us").c_str(), 0, 400000) * US : paramRange((std::string(n) + "_ms").c_str(), 0, 14000) * MS; };
    if (mode == 1 || mode == 2) { // blackhole, for good or not
        cutAt = t0 + moment("cut");
        cutTo = mode == 1 ? cutAt + 1000 * SEC : cutAt + paramRange("cut_len", 100, 12000) * MS;
        const int which = (int)(param("which") % 4);
        if (which != 1) net::addWindow({ cutAt, cutTo, 1, 2, net::ALL });
        if (which != 2) net::addWindow({ cutAt, cutTo, 2, 1, net::ALL });
    }
    auto closer = [&](Peer& p, i64 at, bool twice, bool destroy) {
        sleepUntil(at);
        if (destroy && paramBool("no_close", 0.3)) {
            w.destroy(p);
            return;
        }
        w.close(p);
        if (twice) {
            NodeScope ns(p.node);
            if (p.pc) p.pc->close();
        }
        if (destroy) w.destroy(p);
    };
    std::vector<std::thread> th;
    i64 end = t0 + paramRange("run", 500, 16000) * MS;
    if (mode == 0 || mode >= 4) {
        const int who = (int)(param("who") % 3);
        const i64 atP = t0 + moment("closeP"), atS = paramBool("same_time", 0.4) ? atP + paramRange("same_us", -3000, 3000) * US : t0 + moment("closeS");
        end = std::max(end, t0 + 2 * SEC);
        if (who != 1 && mode == 5) { // close() from two threads at the same time; both have to have returned
            auto pc = w.P.pc;
            for (int i = 0; i < 2; i++)
                th.emplace_back([&, atP, pc, i] {
                    sleepUntil(atP + (i ? paramRange("second_us", -500, 500) * US : 0));
                    NodeScope ns(1);
                    pc->close();
                });
        } else if (who != 1) {
            th.emplace_back([&, atP] { closer(w.P, atP, paramBool("twiceP", 0.3), paramBool("destroyP", 0.3)); });
        }
        if (who != 2) th.emplace_back([&, atS] { closer(w.S, atS, paramBool("twiceS", 0.3), paramBool("destroyS", 0.3)); });
    }
    traffic(w, end);
    for (auto& t : th) t.join();
    if (mode == 5 && param("who") % 3 != 1) w.close(w.P);
    // timing of failures
    if (w.wanted("C13")) {
        Kernel k;
        for (auto* p : { &w.P, &w.S }) {
            checked();
            const i64 failed = stateTime(*p, State::Failed);
            if (failed < 0) continue;
            const i64 connecting = stateTime(*p, State::Connecting);
            const i64 slack = 50 * MS + stallTotal(); // a notification may itself be held up
            if (failed - connecting < 5 * SEC - slack)
                w.fail("C13", "failed-too-early", "node %d reported Failed %.3f s after Connecting, without any handshake error", p->node, (double)(failed - connecting) / SEC);
        }
        for (auto* p : { &w.P, &w.S })
            for (size_t i = 1; i < p->states.size(); i++)
                if (p->states[i].s == State::Connecting && p->states[i - 1].s == State::Connected && p->states[i].t - p->states[i - 1].t < 5 * SEC - 50 * MS - stallTotal())
                    w.fail("C13", "lost-too-early", "node %d reported Connecting only %.3f s after Connected", p->node, (double)(p->states[i].t - p->states[i - 1].t) / SEC);
    }
    (void)startP;
    (void)startS;
    // the side which was not closed hears of it at once when the network is good, and gives up otherwise
    if (w.wanted("C13")) {
        for (auto* p : { &w.P, &w.S }) {
            Peer& o = w.other(*p);
            if (!o.closed || p->closed || !p->started) continue;
            const bool told = netKind == 0 && mode != 1 && mode != 2;
            const i64 limit = (told && !stalls && stateTime(o, State::Connected) > 0 && stateTime(*p, State::Connected) > 0 ? 2 : stalls ? 30 : 12) * SEC;
            while (!p->terminal && now() < o.closeCalledAt + limit) sleepFor(20 * MS);
            Kernel k;
            checked();
            if (!p->terminal) w.fail("C13", "remote-close-unnoticed", "node %d is %s %.1f s after the other side was closed", p->node, stateName(p->state), (double)(now() - o.closeCalledAt) / SEC);
        }
    }
    w.finish();
}

// connecting with dead candidates and lost handshake datagrams
SCENARIO(connect)
{
    setTimeLimit(now() + 120 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.3);
    {
        Kernel k;
        const int dead = (int)paramRange("dead", 0, 6);
        const int pos = (int)paramRange("alive_at", 0, dead);
        for (int i = 0; i <= dead; i++) {
            Cand cd;
            const bool v6 = paramBool(("v6_" + std::to_string(i)).c_str(), 0.4);
            const std::string a = std::to_string(i + 1);
            cd.dialedByP = { v6 ? "fd00::2:" + a : "10.0.2." + a, (uint16_t)(5000 + i) };
            cd.dialedByS = { v6 ? "fd00::1:" + a : "10.0.1." + a, (uint16_t)(6000 + i) };
            cd.linked = i == pos;
            c.cands.push_back(cd);
        }
        if (paramBool("unreachable", 0.15)) c.cands[pos].linked = false;
    }
    bool alive = false;
    int order4 = 0, order6 = 0, when = 0; // when the live candidate is tried: IPv4 and IPv6 ones side by side, 100 ms apart
    for (auto& cd : c.cands) {
        const bool v6 = cd.dialedByP.ip.find(':') != std::string::npos;
        int& o = v6 ? order6 : order4;
        if (cd.linked) {
            alive = true;
            when = o;
        }
        o++;
    }
    World w(c);
    schedFaults(0.3);
    // individual datagrams of the handshake are lost, repeated, late
    const int budget = alive ? (int)paramRange("budget", 0, 3) : 0;
    std::set<u64> lose[3];
    for (int n = 1; n <= 2; n++)
        for (int i = 0; i < budget; i++) lose[n].insert((u64)paramRange(("lose" + std::to_string(n) + "_" + std::to_string(i)).c_str(), 0, 25));
    u64 count[3] = {};
    const double pd = paramBool("late", 0.5) ? paramReal("late_p", 0, 0.5) : 0;
    const i64 dmax = paramRange("late_ms", 1, 250) * MS;
    setNet(0, paramReal("dup", 0, 0.3), pd, dmax, 0, 0, 0, net::ALL);
    i64 lost = 0;
    w.ownPolicy = true;
    net::hooks.policy = [&](const net::Dgram& d) -> i64 {
        if (d.from < 1 || d.from > 2 || d.injected) return -2;
        if (lose[d.from].count(count[d.from]++)) {
            if (fault(F_LOSS, 1.0)) {
                lost++;
                return -1;
            }
        }
        return -2;
    };
    w.offers();
    w.answers();
    const i64 t0 = now();
    const int first = paramBool("S_first", 0.5);
    w.startPeer(first ? w.S : w.P);
    const i64 skew = paramBool("skew", 0.5) ? paramRange("skew_ms", 0, 1000) * MS : 0;
    if (skew) sleepFor(skew);
    w.startPeer(first ? w.P : w.S);
    const i64 all = skew + std::max(order4, order6) * 100 * MS;
    if (alive) {
        // ICE requests are repeated after 200, 300, ... ms and DTLS flights after 0.5, 1, 2 s
        const i64 limit = t0 + all + 5 * SEC + when * 100 * MS;
        while (!(w.P.state == State::Connected && w.S.state == State::Connected) && now() < limit && !w.P.terminal && !w.S.terminal) sleepFor(5 * MS);
        const i64 took = now() - t0 - skew;
        {
            Kernel k;
            checked();
            if (w.wanted("C14") && !(w.P.state == State::Connected && w.S.state == State::Connected))
                w.fail("C14", "not-connected", "node 1 is %s and node 2 is %s %.2f s after the start; %zu candidates, %lld datagrams lost", stateName(w.P.state), stateName(w.S.state), (double)(now() - t0) / SEC, c.cands.size(), (long long)lost);
            probe("connected");
            if (lost) probe("connected_after_loss");
            if (!lost && !pd) {
                probe("clean_connects");
                const i64 rtt = net::dir(1, 2).latency + net::dir(2, 1).latency + 20 * MS;
                const i64 quick = when * 100 * MS + 20 * rtt + 700 * MS;
                if (w.wanted("C14") && took > quick) w.fail("C14", "slow-connect", "connecting took %.3f s on a network without loss, rtt %.3f s", (double)took / SEC, (double)rtt / SEC);
            }
        }
        // and it stays so, idle or in use
        const i64 stay = now() + paramRange("stay", 500, 9000) * MS;
        if (paramBool("use", 0.7)) traffic(w, std::min(stay, now() + 1500 * MS));
        if (now() < stay) sleepUntil(stay);
        Kernel k;
        checked();
        if (w.wanted("C14") && !(w.P.state == State::Connected && w.S.state == State::Connected)) w.fail("C14", "lost-again", "connected, but then node 1 became %s and node 2 %s on a working network", stateName(w.P.state), stateName(w.S.state));
    } else {
        const i64 limit = t0 + all + 6 * SEC;
        while (!(w.P.terminal && w.S.terminal) && now() < limit) sleepFor(5 * MS);
        Kernel k;
        checked();
        probe("unreachable");
        for (auto* p : { &w.P, &w.S }) {
            if (w.wanted("C14") && p->state != State::Failed) w.fail("C14", "no-failure", "no candidate answers, but node %d is %s after %.2f s", p->node, stateName(p->state), (double)(now() - t0) / SEC);
            if (w.wanted("C14") && stateTime(*p, State::Failed) - stateTime(*p, State::Connecting) < 5 * SEC - 50 * MS) w.fail("C14", "failed-early", "node %d failed after %.2f s", p->node, (double)(stateTime(*p, State::Failed) - stateTime(*p, State::Connecting)) / SEC);
        }
    }
    w.finish();
}

// outages: detected, reported, recovered from
SCENARIO(lossdet)
{
    setTimeLimit(now() + 300 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.3);
    World w(c);
    connectBoth(w);
    schedFaults(0.3);
    const bool busy = paramBool("busy", 0.6);
    if (paramBool("wall_jumps", 0.3)) {
        jumpWall(1, paramRange("jump1", -3600, 3600) * SEC);
        jumpWall(2, paramRange("jump2", -3600, 3600) * SEC);
    }
    const int rounds = (int)paramRange("rounds", 1, 3);
    for (int r = 0; r < rounds; r++) {
        auto P_ = [&](const char* n) { return n + std::to_string(r); };
        const i64 before = paramRange(P_("before").c_str(), 0, 5000) * MS;
        if (busy) traffic(w, now() + before);
        else sleepFor(before);
        const i64 len = paramRange(P_("len").c_str(), 200, 14000) * MS;
        const i64 from = now();
        const i64 flight = net::dir(1, 2).latency + net::dir(2, 1).latency + 10 * MS;
        net::addWindow({ from, from + len, 1, 2, net::ALL });
        net::addWindow({ from, from + len, 2, 1, net::ALL });
        // no more than 5 s (+ what was in flight) to Connecting, 5 s more to Failed
        i64 lost[3] = { -1, -1, -1 };
        const i64 end = from + len;
        u64 n = 0;
        while (now() < end) {
            if (busy && !w.P.terminal) w.publish((int)(n % w.tracks.size()), n % 20 == 0, 300);
            n++;
            sleepFor(std::min<i64>(25 * MS, end - now()));
            Kernel k;
            for (auto* p : { &w.P, &w.S }) {
                checked();
                if (p->state == State::Connecting && lost[p->node] < 0) lost[p->node] = now();
                if (!w.wanted("C15")) continue;
                if (p->state == State::Connected && now() > from + flight + 5 * SEC + 300 * MS)
                    w.fail("C15", "loss-undetected", "node %d is still Connected %.2f s after the network was cut", p->node, (double)(now() - from) / SEC);
                if (p->state == State::Connecting && now() > from + flight + 10 * SEC + 600 * MS)
                    w.fail("C15", "no-failure", "node %d is still Connecting %.2f s after the network was cut", p->node, (double)(now() - from) / SEC);
                if (p->state == State::Failed && now() < from + 5 * SEC - flight)
                    w.fail("C15", "failed-early", "node %d reported Failed %.2f s after the network was cut", p->node, (double)(now() - from) / SEC);
            }
        }
        net::clearWindows();
        if (w.P.terminal || w.S.terminal) break;
        // connectivity is back: requests go out at least once a second
        const i64 healed = now();
        // a side which gives up at this very moment is too late
        auto nearFailure = [&](Peer& p) { return p.state == State::Connecting && now() - stateTime(p, State::Connecting) > 5 * SEC - 2300 * MS - flight; };
        if (nearFailure(w.P) || nearFailure(w.S)) {
            probe("too_late");
            break;
        }
        const bool ok = waitFor([&] { return (w.P.state == State::Connected && w.S.state == State::Connected) || w.P.terminal || w.S.terminal; }, 2200 * MS + 2 * flight);
        {
            Kernel k;
            checked();
            if (w.wanted("C15") && (!ok || w.P.terminal || w.S.terminal))
                w.fail("C15", "not-restored", "node 1 is %s and node 2 is %s %.2f s after an outage of %.2f s", stateName(w.P.state), stateName(w.S.state), (double)(now() - healed) / SEC, (double)len / SEC);
            probe("restored");
        }
    }
    w.finish();
}

// long sessions over a working network, with little or nothing to send and some lost keep-alive datagrams
SCENARIO(idle)
{
    setTimeLimit(now() + 4000 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.5);
    World w(c);
    connectBoth(w);
    schedFaults(0.1);
    const bool lossy = paramBool("lossy", 0.4);
    // isolated losses: at least one answer of two consecutive checks gets through
    i64 lastLoss[3] = { -10 * SEC, -10 * SEC, -10 * SEC };
    w.ownPolicy = true;
    const double pl = lossy ? paramReal("pl", 0.02, 0.4) : 0;
    net::hooks.policy = [&](const net::Dgram& d) -> i64 {
        if (d.from < 1 || d.from > 2) return -2;
        if (pl > 0 && now() - std::max(lastLoss[1], lastLoss[2]) > 6 * SEC && fault(F_LOSS, pl)) {
            lastLoss[d.from] = now();
            return -1;
        }
        return -2;
    };
    const i64 total = paramRange("total", 30, 400) * SEC;
    const int kind = (int)(param("kind") % 4); // silence, one message now and then, one-way media, pauses
    const i64 t0 = now();
    u64 n = 0;
    while (now() - t0 < total) {
        const u64 h = hash3(seed(), 0x1d1e, n++);
        if (kind == 1 && !c.pubLabels.empty()) w.sendMsg(h & 1 ? w.P : w.S, "p0", true, h % 50);
        if (kind >= 2 && (kind == 2 || (n / 60) % 2)) w.publish((int)(h % w.tracks.size()), n % 30 == 0, 100 + h % 400);
        sleepFor(kind == 1 ? (i64)(h % (12 * SEC)) : kind >= 2 ? 100 * MS : 500 * MS);
        if (kind == 3 && h % 50 == 0) {
            jumpWall(1, (i64)(mix(h) % 200) * SEC - 100 * SEC);
            jumpWall(2, (i64)(mix(h ^ 1) % 200) * SEC - 100 * SEC);
        }
        Kernel k;
        checked();
        for (auto* p : { &w.P, &w.S }) {
            if (!w.wanted("C15")) continue;
            if (p->terminal) w.fail("C15", "idle-failed", "node %d reported %s after %.1f s although the network works", p->node, stateName(p->state), (double)(now() - t0) / SEC);
            if (p->state != State::Connected && !lossy) w.fail("C15", "idle-lost", "node %d left Connected after %.1f s although nothing was lost", p->node, (double)(now() - t0) / SEC);
            if (p->state != State::Connected && now() - stateTime(*p, State::Connecting) > 2500 * MS) w.fail("C15", "idle-not-restored", "node %d is Connecting for %.1f s although the network works", p->node, (double)(now() - stateTime(*p, State::Connecting)) / SEC);
        }
    }
    probe("idle_seconds", (u64)(total / SEC));
    w.finish();
}

// a peer whose certificate is not the one announced in the SDP
SCENARIO(fpr)
{
    setTimeLimit(now() + 100 * SEC, "time-limit");
    Config c;
    smallConfig(c, 0.5);
    c.wrongFingerprint = (int)paramRange("wrong", 0, 2);
    c.wrongHow = paramBool("wrong_otherwise", 0.5) ? (int)paramRange("wrong_how", 1, 7) : 0;
    World w(c);
    schedFaults(0.4);
    if (paramBool("lossy", 0.5)) setNet(paramReal("loss", 0, 0.15), 0.1, 0.2, 200 * MS, 0, 0, 0, net::ALL);
    // the side which was told a wrong fingerprint
    Peer* deceived = c.wrongFingerprint == 0 ? nullptr : c.wrongFingerprint == 1 ? &w.S : &w.P;
    u64 leaked = 0;
    w.onSend = [&](const net::Dgram& d) {
        if (deceived && d.from == deceived->node && (d.cls == net::RTP || d.cls == net::RTCP)) leaked++;
    };
    w.start();
    const i64 t0 = now();
    const i64 end = t0 + paramRange("run", 6, 9) * SEC;
    u64 n = 0;
    while (now() < end && !(w.P.terminal && w.S.terminal)) {
        if (!w.P.terminal) w.publish((int)(n % w.tracks.size()), n % 20 == 0, 200 + n % 900);
        if (!c.pubLabels.empty() && n % 5 == 0) w.sendMsg(n % 2 ? w.P : w.S, "p0", true, 30);
        n++;
        sleepFor(20 * MS);
        Kernel k;
        checked();
        if (!deceived || !w.wanted("C17")) continue;
        if (stateTime(*deceived, State::Connected) >= 0) w.fail("C17", "connected", "node %d reported Connected to a peer whose certificate has another fingerprint", deceived->node);
        if (leaked) w.fail("C17", "media-sent", "node %d sent %llu media or control packets to a peer whose certificate has another fingerprint", deceived->node, (unsigned long long)leaked);
        for (auto& e : deceived->dc) w.fail("C17", "channel", "node %d reported channel '%s' with a peer whose certificate has another fingerprint", deceived->node, e.label.c_str());
        for (auto& t : w.tracks)
            if (deceived == &w.S && t.delivered) w.fail("C17", "frame", "a frame was delivered from a peer whose certificate has another fingerprint");
    }
    {
        Kernel k;
        checked();
        if (deceived) {
            probe("deceived");
            if (w.wanted("C17") && deceived->state == State::Connected) w.fail("C17", "connected", "node %d is Connected to an impostor", deceived->node);
            if (w.wanted("C17") && !w.P.terminal && !w.S.terminal && now() - t0 > 7 * SEC) w.fail("C17", "no-failure", "node %d neither connected nor failed", deceived->node);
        } else {
            probe("honest");
            if (w.wanted("C17") && !paramBool("lossy", 0.5) && stateTime(w.P, State::Connected) < 0) w.fail("C17", "refused", "an honest peer was refused");
        }
    }
    w.finish();
}
