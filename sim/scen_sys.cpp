// C24: failing system calls are at worst lost datagrams.
#include "scen.h"

namespace
{
void errors(double send, double recv, double poll)
{
    setRate(F_SENDERR, send);
    setRate(F_RECVERR, recv);
    setRate(F_EPOLLERR, poll);
}
// no state but Connecting and Connected, unless a node had reason to believe that it had lost the other
bool gLost, gNoSocket;
void watch(World& w, Heard& h)
{
    gLost = gNoSocket = false;
    w.onDeliver = [&](const net::Dgram& d) {
        const bool first = !h.seen.count(d.id);
        h.deliver(d);
        if (first && d.genuine && !d.injected && d.to == 2 && d.cls == net::RTP) h.certain[2] = now();
    };
    w.onState = [&](Peer& p, State s) {
        if (p.closeCalled || w.other(p).closeCalled) return;
        checked();
        bool was = false;
        if (gNoSocket) return;
        for (auto& x : p.states) was |= x.s == State::Connected;
        if (!was && s != State::Failed && s != State::Closed) return;
        if (s == State::Connected) return;
        if (was && now() - h.certain[p.node] >= 4900 * MS) {
            gLost = true;
            probe("sys_lost");
            return;
        }
        if (w.wanted("C24")) w.fail("C24", "state-change", "node %d reports %s although it heard from node %d %.3f s ago and nothing but system calls failed for short times", p.node, stateName(s), 3 - p.node, (double)(now() - h.certain[p.node]) / 1e9);
    };
}
} // namespace

SCENARIO(sys)
{
    setTimeLimit(now() + 400 * SEC, "time-limit");
    Config c;
    mediaConfig(c);
    {
        Kernel k;
        pickNet(0.7);
        const i64 rtt = net::dir(1, 2).latency + net::dir(2, 1).latency;
        c.jbLength = (int)(rtt / MS) + (int)paramRange("jb", 250, 500);
        if (paramBool("dc", 0.6)) {
            c.pubLabels = { "p0" };
            c.subLabels = { "s0" };
        }
        if (paramBool("more_cands", 0.3))
            for (int i = 0; i < 2; i++) {
                Cand cd;
                const std::string a = std::to_string(i + 1);
                cd.dialedByP = { "10.0.2." + a, 5000 + i };
                cd.dialedByS = { "10.0.1." + a, 6000 + i };
                cd.linked = i == (int)(param("alive_at") % 2); // two ends which both select would have to agree otherwise
                c.cands.push_back(cd);
            }
        const u64 m = param("errnos");
        net::errMask = m % 3 ? 0xff : 1 << (m / 3 % 8);
    }
    const bool wantDc = !c.pubLabels.empty();
    World w(c);
    w.observeWire = true;
    Heard heard;
    watch(w, heard);
    schedFaults(0.3);
    // while connecting: everything may fail for a moment, and calls which lose nothing all the time
    const double cr = paramBool("c_recv", 0.6) ? paramReal("c_recv_p", 0, 0.5) : 0, cp = paramBool("c_poll", 0.6) ? paramReal("c_poll_p", 0, 0.5) : 0;
    const i64 badFor = paramBool("c_send", 0.5) ? paramRange("c_send_for", 1, 400) * MS : 0;
    errors(badFor ? paramReal("c_send_p", 0.2, 1) : 0, cr, cp);
    const bool noSocket = c.cands.size() > 1 && paramBool("no_socket", 0.5);
    gNoSocket = noSocket;
    if (noSocket) setRate(F_SOCKERR, 0.3);
    if (badFor) at(now() + badFor, [cr, cp] { errors(0, cr, cp); });
    w.start();
    if (!w.waitBoth(State::Connected, 12 * SEC)) {
        if (noSocket) { // both ends of the only working path may be affected
            probe("sys_no_socket");
            setRate(F_SOCKERR, 0);
            w.finish();
            return;
        }
        if (w.wanted("C24")) w.fail("C24", "not-connected", "node 1 is %s and node 2 %s twelve seconds after both started on a working network; sends failed only during the first %lld ms", stateName(w.P.state), stateName(w.S.state), (long long)(badFor / MS));
        simError("not connected");
    }
    setRate(F_SOCKERR, 0);
    gNoSocket = false;
    Load l(w);
    l.fps = (int)paramRange("fps", 15, 60);
    l.keyEvery = (int)paramRange("key_every", 10, 40);
    l.bigFrames = paramBool("big", 0.3);
    u64 n = 0;
    auto run = [&](i64 d) {
        const i64 end = now() + d;
        while (now() < end && !gLost) {
            if (wantDc) {
                const u64 h = hash3(seed(), 0x5c24, n++);
                if (h % 3) w.sendMsg(h & 64 ? w.P : w.S, h & 128 ? "p0" : "s0", h & 256, mix(h) % (h % 5 ? 1000 : 6000));
            }
            l.run(std::min<i64>(100 * MS, end - now()));
        }
    };
    const i64 base = paramRange("long_wait", 0, 3) == 0 ? 3 * SEC : 300 * MS;
    run(base);
    // 1: receive and poll calls fail; nothing is lost, so nothing may be missing
    const double pr = paramBool("recv", 0.8) ? paramReal("recv_p", 0, 0.6) : 0, pp = paramBool("poll", 0.8) ? paramReal("poll_p", 0, 0.6) : 0;
    errors(0, pr, pp);
    run(paramRange("dur1", 1, 4) * SEC);
    sleepFor(c.jbLength * MS + 300 * MS);
    if (!badFor) completeness(w, "C24", nullptr, c.jbLength * MS, (200 + 100 * (i64)w.tracks.size()) * MS);
    if (wantDc) drainChannels(w, now());
    // 2: sends fail too, sometimes all of them for a moment
    const int rounds = (int)paramRange("rounds", 1, 4);
    for (int r = 0; r < rounds; r++) {
        auto P_ = [&](const char* s) { return s + std::to_string(r); };
        const int kind = (int)(param(P_("kind").c_str()) % 3);
        errors(kind == 0 ? 1 : kind == 1 ? paramReal(P_("p").c_str(), 0.1, 0.6) : paramReal(P_("p").c_str(), 0, 0.1), paramBool(P_("r").c_str(), 0.5) ? pr : 0, paramBool(P_("e").c_str(), 0.5) ? pp : 0);
        run(kind == 0 ? paramRange(P_("all").c_str(), 20, 1200) * MS : paramRange(P_("some").c_str(), 300, 4000) * MS);
        errors(0, paramBool(P_("r2").c_str(), 0.3) ? pr : 0, paramBool(P_("e2").c_str(), 0.3) ? pp : 0);
        run(paramRange(P_("rest").c_str(), 0, 1500) * MS);
    }
    // 3: calls succeed again
    errors(0, 0, 0);
    run(3 * SEC + (i64)l.keyEvery * SEC / l.fps);
    if (gLost) {
        w.finish();
        return;
    }
    std::vector<size_t> from;
    for (auto& t : w.tracks) from.push_back(t.frames.size());
    run(1500 * MS);
    sleepFor(c.jbLength * MS + 500 * MS);
    completeness(w, "C24", from.data(), c.jbLength * MS, (250 + 100 * (i64)w.tracks.size()) * MS);
    if (wantDc) drainChannels(w, now());
    // idle: only timers are left
    sleepFor(500 * MS);
    const u64 before[3] = { 0, net::calls(1), net::calls(2) };
    sleepFor(4 * SEC);
    {
        Kernel k;
        for (int nd = 1; nd <= 2; nd++) {
            checked();
            probe(nd == 1 ? "idle_calls_1" : "idle_calls_2", net::calls(nd) - before[nd]);
            if (w.wanted("C24") && net::calls(nd) - before[nd] > 8000) w.fail("C24", "busy", "node %d made %llu system calls in four idle seconds", nd, (unsigned long long)(net::calls(nd) - before[nd]));
        }
    }
    w.finish();
}
