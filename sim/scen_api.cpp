// C22: the API called from many threads and from inside callbacks, at every stage of a connection's life.
#include "scen.h"
#include "srtc/media.h"
#include <thread>

namespace
{
struct Calls {
    World& w;
    i64 limit;
    bool closing = false;
    u64 made = 0;
    // an API call, which has to return in time
    template <typename F>
    void call(Peer& p, const char* what, F f)
    {
        Use use(p);
        if (!use.ok || !op()) return;
        NodeScope ns(p.node);
        const i64 t = now();
        f(*p.pc);
        Kernel k;
        made++;
        checked();
        probe(what);
        if (w.wanted("C22") && now() - t > limit) w.fail("C22", "slow-call", "%s of node %d took %.3f s to return", what, p.node, (double)(now() - t) / SEC);
    }
    void query(Peer& p, u64 h)
    {
        switch (h % 6) {
        case 0: call(p, "getTrackList", [&](auto& pc) {
                auto l = pc.getTrackList();
                for (auto& t : l) {
                    (void)t->getSSRC();
                    (void)t->getMedia()->getId();
                    (void)t->isSimulcast();
                    if (t->isSimulcast()) (void)t->getSimulcastLayer()->name;
                }
                checkList(p, l.size());
            });
            break;
        case 1: call(p, "getMediaList", [&](auto& pc) { auto l = pc.getMediaList(); }); break;
        case 2: call(p, "getOffer", [&](auto& pc) { auto o = pc.getOffer(); }); break;
        case 3: call(p, "getAnswer", [&](auto& pc) { auto a = pc.getAnswer(); }); break;
        case 4: call(p, "getMaxMessageSize", [&](auto& pc) { (void)pc.getDataChannelMaxMessageSize(); }); break;
        case 5:
            if (p.node == 2 && !w.tracks.empty()) {
                auto t = w.tracks[h / 7 % w.tracks.size()].sub;
                call(p, "requestPli", [&](auto& pc) { (void)pc.requestPictureLossIndicator(t); });
            } else if (p.node == 1 && !w.tracks.empty()) {
                auto t = w.tracks[h / 7 % w.tracks.size()].pub;
                if (t->isSimulcast()) {
                    srtc::SimulcastLayer l = *t->getSimulcastLayer();
                    l.width = (uint16_t)(64 + h / 64 % 1000);
                    l.kilobits_per_second = (uint32_t)(100 + h / 128 % 2000);
                    call(p, "updateSimulcast", [&](auto& pc) { (void)pc.updateVideoSimulcastLayer(t, l); });
                }
            }
            break;
        }
    }
    void checkList(Peer& p, size_t n)
    {
        Kernel k;
        if (w.wanted("C22") && n != w.tracks.size() && n != 0) w.fail("C22", "torn-list", "node %d lists %zu tracks of %zu", p.node, n, w.tracks.size());
    }
    void message(Peer& p, u64 h, size_t own = 0)
    {
        if (w.cfg.pubLabels.empty()) return;
        const i64 t = now();
        w.sendMsg(p, own ? w.cfg.pubLabels[own] : h & 2 ? w.cfg.pubLabels[0] : w.cfg.subLabels[0], h & 4, mix(h) % (h % 9 ? 400 : 20000));
        took("sendDataChannel", p, t);
    }
    void frame(int track, u64 h)
    {
        const i64 t = now();
        w.publish(track, h % 20 == 1, w.tracks[track].video ? 40 + mix(h) % (mix(h ^ 1) % 8 ? 1500 : 9000) : 20 + mix(h) % 300);
        took("publish", w.P, t);
    }
    void took(const char* what, Peer& p, i64 t)
    {
        Kernel k;
        checked();
        probe(what);
        made++;
        if (w.wanted("C22") && now() - t > limit) w.fail("C22", "slow-call", "%s of node %d took %.3f s to return", what, p.node, (double)(now() - t) / SEC);
    }
};
} // namespace

SCENARIO(api)
{
    setTimeLimit(now() + 120 * SEC, "deadlock");
    Config c;
    {
        Kernel k;
        pickProfile();
        pickNet(0.5);
        const int media = (int)(param("media") % 8);
        if (media != 0) {
            if (media != 1) {
                auto l = videoLine("v0", pickVideoCodec("codec0"));
                l.csdSeparate = paramBool("csd_sep", 0.3);
                if (paramBool("simulcast", 0.3)) {
                    l.layers.push_back({ "low", 320, 180, 15, 500 });
                    l.layers.push_back({ "hi", 1280, 720, 15, 1500 });
                }
                c.lines.push_back(l);
            }
            if (media == 1 || media > 4) c.lines.push_back(audioLine("a"));
        }
        c.subIsServer = paramBool("sub_is_server", 0.5);
        c.rtx = paramBool("rtx", 0.7);
        c.bwe = paramBool("bwe", 0.3);
        c.pliInterval = paramBool("pli", 0.5) ? (int)paramRange("pli_ms", 500, 1500) : 0;
        if (media == 0 || paramBool("dc", 0.6)) {
            c.pubLabels = { "p0", "p1", "b0", "b1", "b2", "b3", "r0" };
            c.subLabels = { "s0" };
        }
        const int extra = paramBool("cands", 0.4) ? (int)paramRange("extra", 1, 4) : 0;
        for (int i = 0; i <= extra; i++) { // several candidates, and more than one of them can work
            Cand cd;
            const std::string a = std::to_string(i + 1);
            const bool v6 = paramBool(("v6_" + a).c_str(), 0.4);
            cd.dialedByP = { v6 ? "fd00::2:" + a : "10.0.2." + a, (uint16_t)(5000 + i) };
            cd.dialedByS = { v6 ? "fd00::1:" + a : "10.0.1." + a, (uint16_t)(6000 + i) };
            cd.linked = i == 0 || paramBool(("linked_" + a).c_str(), 0.4);
            c.cands.push_back(cd);
        }
    }
    World w(c);
    // each thread uses labels of its own, so that the order of its messages is the order of sending
    w.also = { "C02", "C10", "C13" };
    schedFaults(paramReal("sched", 0.5, 15));
    if (paramBool("micro", 0.7)) setMicroStalls(paramRange("micro_us", 20, 4000) * US);
    const bool stalls = paramBool("stalls", 0.1);
    if (stalls) setRate(F_STALL, 0.0003);
    if (paramBool("lossy", 0.3)) setNet(paramReal("loss", 0, 0.1), 0.05, 0.2, paramRange("dmax", 5, 100) * MS, 0, 0, 0, net::ALL);
    Calls calls{ w, stalls ? 30 * SEC : 1 * SEC };
    const bool reenter = paramBool("reenter", 0.6);
    u64 reN = 0;
    if (reenter)
        w.reenter = [&](Peer& p) { // an application which calls the API from its listeners
            const u64 h = hash3(seed(), 0x4ee7, reN++);
            if (h % 4 == 0) calls.query(p, mix(h));
            if (h % 7 == 0) calls.message(p, mix(h ^ 2), 6);
        };
    w.offers();
    w.answers();
    const i64 t0 = now();
    const i64 run = paramRange("run", 50, 6000) * MS;
    const bool cut = paramBool("cut", 0.15);
    if (cut) net::addWindow({ t0 + paramRange("cut_ms", 0, 3000) * MS, t0 + 1000 * SEC, 1, 2, net::ALL });
    std::vector<std::thread> th;
    bool stop = false;
    auto spawn = [&](const char* name, std::function<void(u64)> f, i64 pace) {
        const u64 salt = hashStr(name) + th.size();
        th.emplace_back([&, f, pace, salt] {
            u64 n = 0;
            while (!stop) {
                const u64 h = hash3(seed(), salt, n++);
                f(h);
                sleepFor(h % 5 == 0 ? 1 : (i64)(mix(h) % (u64)pace));
            }
        });
    };
    // one thread per track publishes; the order of its frames is the order of delivery
    for (size_t i = 0; i < w.tracks.size(); i++)
        if (paramBool(("pub" + std::to_string(i)).c_str(), 0.8)) spawn(("publisher" + std::to_string(i)).c_str(), [&, i](u64 h) { calls.frame((int)i, h); }, paramRange("pace", 2, 40) * MS);
    const int nq = (int)paramRange("queriers", 1, 3);
    for (int i = 0; i < nq; i++) spawn(("q" + std::to_string(i)).c_str(), [&](u64 h) { calls.query(h & 64 ? w.P : w.S, mix(h)); }, 8 * MS);
    if (!c.pubLabels.empty() && paramBool("msgs", 0.8)) {
        spawn("msgP", [&](u64 h) { calls.message(w.P, h); }, 20 * MS);
        spawn("msgS", [&](u64 h) { calls.message(w.S, h); }, 20 * MS);
        if (paramBool("msg2", 0.3)) spawn("msgP2", [&](u64 h) { calls.message(w.P, mix(h), 1); }, 20 * MS);
    }
    if (paramBool("listeners", 0.6))
        spawn("listeners", [&](u64 h) {
            Peer& p = h & 64 ? w.P : w.S;
            calls.call(p, "setListeners", [&](auto&) { p.node == 1 ? w.installP() : w.installS(); });
        }, 60 * MS);
    // many calls in a row just when something else happens
    std::vector<i64> moments{ t0 };
    const int nclose = paramBool("closers", 0.7) ? (int)paramRange("nclose", 1, 3) : 0;
    for (int i = 0; i < nclose; i++) {
        const std::string n = std::to_string(i);
        moments.push_back(t0 + (paramBool(("early" + n).c_str(), 0.3) ? paramRange(("us" + n).c_str(), 0, 300000) * US : paramRange(("at" + n).c_str(), 0, run / MS) * MS));
    }
    for (size_t m = 0; m < moments.size(); m++)
        th.emplace_back([&, m] {
            const u64 salt = hash2(0xb0257, m);
            sleepUntil(moments[m] + (i64)(hash2(salt, seed()) % 100) * US - 30 * US);
            const int n = (int)(hash3(salt, seed(), 1) % 60);
            for (int i = 0; i < n; i++) {
                const u64 h = hash3(seed(), salt, (u64)i);
                Peer& p = h & 64 ? w.P : w.S;
                if (h % 5 == 0) calls.message(p, mix(h), 2 + m);
                else calls.query(p, mix(h));
            }
        });
    // starting is concurrent with the first calls
    w.startPeer(w.P);
    w.startPeer(w.S);
    // closing, from one or more threads, at any moment
    for (int i = 0; i < nclose; i++) {
        const std::string n = std::to_string(i);
        const bool onP = paramBool(("onP" + n).c_str(), 0.5);
        const i64 at = moments[i + 1];
        th.emplace_back([&, onP, at] {
            sleepUntil(at);
            Peer& p = onP ? w.P : w.S;
            const i64 t = now();
            {
                NodeScope ns(p.node);
                Use use(p);
                p.closeCalled = true;
                if (use.ok) p.pc->close();
            }
            Kernel k;
            checked();
            probe("closed");
            if (w.wanted("C22") && now() - t > (stalls ? 30 : 2) * SEC) w.fail("C22", "slow-close", "close() of node %d took %.3f s", p.node, (double)(now() - t) / SEC);
        });
    }
    sleepUntil(t0 + run);
    const bool early = paramBool("destroy_early", 0.3); // while the other threads still run; they stop using it before
    if (early) {
        w.destroy(paramBool("destroyP", 0.5) ? w.P : w.S);
        sleepFor(paramRange("after", 1, 300) * MS);
    }
    stop = true;
    for (auto& t : th) t.join();
    w.finish();
}
