// Shared pieces of the scenarios.
#pragma once
#include "world.h"
using namespace world;

struct Rng { // a private stream of random numbers
    u64 r;
    explicit Rng(u64 s) : r(s) {}
    u64 operator()(u64 m) { return m ? (r = mix(r + 0x9e37)) % m : 0; }
};

// random media lines and options
inline void mediaConfig(Config& c, int maxVideo = 2, bool audio = true)
{
    Kernel k;
    const int nv = maxVideo > 1 && paramBool("two_videos", 0.25) ? 2 : 1;
    const bool first = audio && paramBool("audio_first", 0.3);
    const bool haveAudio = audio && paramBool("audio", 0.75);
    if (haveAudio && first) c.lines.push_back(audioLine("a"));
    for (int i = 0; i < nv; i++) {
        auto l = videoLine("v" + std::to_string(i), pickVideoCodec(i ? "codec1" : "codec0"));
        l.csdSeparate = paramBool(i ? "csd_sep1" : "csd_sep0", 0.2);
        l.threeByte = paramBool("three_byte", 0.2);
        l.av1Ext = paramBool("av1_ext", 0.2);
        c.lines.push_back(l);
    }
    if (haveAudio && !first) c.lines.push_back(audioLine("a"));
    c.rtx = paramBool("rtx", 0.8);
    c.bwe = paramBool("bwe", 0.4);
    c.absCap = paramBool("abs_cap", 0.4);
    if (paramBool("simulcast", 0.15)) {
        c.rfc8851 = true;
        for (auto& ln : c.lines)
            if (ln.video) {
                ln.layers = { { "lo", 320, 180, 15, 400 }, { "hi", 1280, 720, 30, 2500 } };
                if (paramBool("three_layers", 0.4)) ln.layers.insert(ln.layers.begin() + 1, { "mid", 640, 360, 30, 1000 });
                break;
            }
    }
    c.subIsServer = paramBool("sub_is_server", 0.3);
    c.pliInterval = paramBool("pli", 0.6) ? (int)paramRange("pli_ms", 500, 4000) : 0;
    pickProfile();
}
inline void setNet(double loss, double dup, double delay, i64 delayMax, double corrupt = 0, double trunc = 0, double burst = 0, int mask = net::RTP | net::RTCP)
{
    Kernel k;
    for (auto* d : { &net::dir(1, 2), &net::dir(2, 1) }) {
        d->loss = loss;
        d->dup = dup;
        d->delay = delay;
        d->delayMax = delayMax;
        d->corrupt = corrupt;
        d->trunc = trunc;
        d->burst = burst;
        d->faultMask = mask;
    }
}
inline void clearNet() { setNet(0, 0, 0, 0); }
// connect both sides; a failure to connect is not this scenario's subject
inline void connectBoth(World& w, i64 timeout = 15 * SEC)
{
    w.start();
    if (!w.waitBoth(State::Connected, timeout)) simError("not connected");
}
std::string describeFrame(World& w, TrackInfo& t, PubFrame& f);
// every frame published while connected, from[track] on, must have been delivered (and no later than lateSlack after it was due)
void completeness(World& w, const char* prop, size_t* from, i64 jb, i64 lateSlack, const std::function<bool(TrackInfo&, PubFrame&)>& excused = nullptr);
// what a node has genuinely heard from the other side: RTP and RTCP of the first delivery of each datagram, which is
// certain to be accepted, and anything at all, which may have been
struct Heard {
    i64 certain[3] = { -1, -1, -1 };
    i64 any[3] = { -1, -1, -1 };
    std::set<u64> seen;
    void attach(World& w);
    void deliver(const net::Dgram& d);
};
i64 stateTime(Peer& p, State s); // of the last such report, or -1
void smallConfig(Config& c, double dcProb);
void traffic(World& w, i64 until); // random frames and messages
void drainChannels(World& w, i64 healed); // everything sent on open channels is delivered within a bounded time
