// Two real PeerConnections (a publisher and a subscriber) on loopback with a relay between them which can look at,
// drop, delay, copy, change or record every datagram. Only the public interface is used.
#pragma once
#include "srtc/encoded_frame.h"
#include "srtc/peer_connection.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/track.h"
#include "srtc/media.h"
#include "srtc/x509_certificate.h"
#include "srtc/track_stats.h"
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sstream>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>

using Bytes = std::vector<uint8_t>;
using srtc::PeerConnection;
using State = PeerConnection::ConnectionState;
using Clock = std::chrono::steady_clock;
inline double nowSec() { static const auto t0 = Clock::now(); return std::chrono::duration<double>(Clock::now() - t0).count(); }
inline void msleep(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

inline bool isStun(const Bytes& d) { return d.size() >= 20 && d[0] < 2; }
inline bool isDtls(const Bytes& d) { return d.size() >= 13 && d[0] >= 20 && d[0] <= 63; }
inline bool isRtcp(const Bytes& d) { return d.size() >= 8 && d[0] >= 128 && d[0] < 192 && d[1] >= 192 && d[1] <= 223; }
inline bool isRtp(const Bytes& d) { return d.size() >= 12 && d[0] >= 128 && d[0] < 192 && !isRtcp(d); }
inline uint16_t rtpSeq(const Bytes& d) { return (uint16_t)(d[2] << 8 | d[3]); }
inline uint32_t be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
inline uint32_t rtpSsrc(const Bytes& d) { return be32(&d[8]); }
inline bool rtpMarker(const Bytes& d) { return d[1] & 0x80; }
inline int rtpPt(const Bytes& d) { return d[1] & 0x7f; }

// dir 0: publisher to subscriber, 1: subscriber to publisher
struct Relay {
    int fd[2] = { -1, -1 }; // fd[0] faces the publisher, fd[1] the subscriber
    uint16_t port[2] = { 0, 0 };
    sockaddr_in peer[2] = {};
    std::mutex m;
    struct Late { double at; int dir; Bytes d; };
    std::list<Late> late;
    std::atomic<bool> quit{ false };
    std::thread th;
    // returns the delay in ms, or a negative number to drop; may change the datagram. Called on the relay's thread.
    std::function<int(int dir, Bytes& d)> policy;
    Relay()
    {
        for (int i = 0; i < 2; i++) {
            fd[i] = socket(AF_INET, SOCK_DGRAM, 0);
            sockaddr_in a = {};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (bind(fd[i], (sockaddr*)&a, sizeof a)) { perror("bind"); exit(99); }
            socklen_t n = sizeof a;
            getsockname(fd[i], (sockaddr*)&a, &n);
            port[i] = ntohs(a.sin_port);
            int sz = 4 << 20;
            setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
        }
        th = std::thread([this] { run(); });
    }
    ~Relay() { quit = true; th.join(); close(fd[0]); close(fd[1]); }
    void emit(int dir, const Bytes& d)
    {
        const int to = dir == 0 ? 1 : 0;
        if (peer[to].sin_port) (void)!sendto(fd[to], d.data(), d.size(), 0, (sockaddr*)&peer[to], sizeof peer[to]);
    }
    void inject(int dir, const Bytes& d, double delayMs = 0)
    {
        std::lock_guard<std::mutex> l(m);
        late.push_back({ nowSec() + delayMs / 1000, dir, d });
    }
    void run()
    {
        while (!quit) {
            pollfd p[2] = { { fd[0], POLLIN, 0 }, { fd[1], POLLIN, 0 } };
            poll(p, 2, 1);
            for (int i = 0; i < 2; i++) {
                if (!(p[i].revents & POLLIN)) continue;
                for (int k = 0; k < 64; k++) {
                    uint8_t buf[4096];
                    socklen_t n = sizeof peer[i];
                    const ssize_t r = recvfrom(fd[i], buf, sizeof buf, MSG_DONTWAIT, (sockaddr*)&peer[i], &n);
                    if (r < 0) break;
                    Bytes d(buf, buf + r);
                    const int delay = policy ? policy(i, d) : 0;
                    if (delay < 0) continue;
                    if (delay == 0) emit(i, d);
                    else { std::lock_guard<std::mutex> l(m); late.push_back({ nowSec() + delay / 1000.0, i, d }); }
                }
            }
            std::lock_guard<std::mutex> l(m);
            for (auto it = late.begin(); it != late.end();)
                if (it->at <= nowSec()) { emit(it->dir, it->d); it = late.erase(it); } else ++it;
        }
    }
};

struct PairConfig {
    srtc::Codec video = srtc::Codec::VP8;
    bool hasVideo = true, hasAudio = false, rtx = true, nack = true, bwe = false, absCap = false, pli = true;
    std::vector<std::string> pubLabels, subLabels;
    int jbLength = 0, nackDelay = 0, pliInterval = 0;
    size_t maxMessage = 262144;
    bool subIsServer = true, wrongFingerprint = false;
    size_t wrongDigit = 0; // position of the changed digit in the fingerprint's text
    std::vector<srtc::SimulcastLayer> layers;
    std::string deadCandidates; // extra candidate lines
};
struct Event { double at; std::string what, label; Bytes data; };
struct Pair {
    PairConfig c;
    Relay relay;
    std::shared_ptr<PeerConnection> P, S;
    std::shared_ptr<srtc::SdpOffer> po, so;
    struct T { std::string id, sub, layer; bool video; srtc::Codec codec; int pt; uint32_t ssrc = 0, rtx = 0; std::shared_ptr<srtc::Track> pub, rx; };
    std::vector<T> tracks;
    std::mutex m;
    struct Frame { double at; std::shared_ptr<srtc::Track> track; int64_t seqExt, tsExt; bool marker; Bytes data; };
    std::vector<Frame> frames;
    std::vector<std::pair<double, State>> ps, ss; // states
    std::vector<Event> pe, se; // data channel events
    std::vector<srtc::PublishConnectionStats> pstats;
    std::vector<srtc::SubscribeConnectionStats> sstats;
    std::vector<std::pair<uint32_t, srtc::SenderReport>> srs;
    std::atomic<int> keyReq{ 0 };

    struct L : PeerConnection::DataChannelListener {
        Pair* p; std::vector<Event>* v;
        void add(const char* w, const std::string& l, const void* d, size_t n) { std::lock_guard<std::mutex> g(p->m); v->push_back({ nowSec(), w, l, Bytes((const uint8_t*)d, (const uint8_t*)d + n) }); }
        void onDataChannelOpened(const std::string& l) override { add("open", l, "", 0); }
        void onDataChannelClosed(const std::string& l) override { add("close", l, "", 0); }
        void onDataChannelReceivedText(const std::string& l, const std::string& d) override { add("text", l, d.data(), d.size()); }
        void onDataChannelReceivedBinary(const std::string& l, const srtc::ByteBuffer& d) override { add("binary", l, d.data(), d.size()); }
    };
    static const char* rtpmap(srtc::Codec k)
    {
        switch (k) {
        case srtc::Codec::H264: return "H264/90000";
        case srtc::Codec::H265: return "H265/90000";
        case srtc::Codec::VP8: return "VP8/90000";
        case srtc::Codec::VP9: return "VP9/90000";
        case srtc::Codec::AV1: return "AV1/90000";
        default: return "opus/48000/2";
        }
    }
    [[noreturn]] static void die(const char* w, const std::string& s) { printf("setup: %s: %s\n", w, s.c_str()); exit(98); }
    explicit Pair(const PairConfig& cfg, const std::function<int(int, Bytes&)>& policy = nullptr, bool go = true) : c(cfg)
    {
        relay.policy = policy;
        int pt = 96;
        if (c.hasVideo) {
            if (c.layers.empty()) tracks.push_back({ "v", "v", "", true, c.video, pt });
            else for (auto& y : c.layers) tracks.push_back({ "v", "v-" + y.name, y.name, true, c.video, pt });
            pt += 2;
        }
        if (c.hasAudio) tracks.push_back({ "a", "a", "", false, srtc::Codec::Opus, pt });
        P = std::make_shared<PeerConnection>(srtc::Direction::Publish);
        S = std::make_shared<PeerConnection>(srtc::Direction::Subscribe);
        {
            srtc::PubOfferConfig oc;
            oc.cname = "pub"; oc.enable_rtx = c.rtx; oc.enable_bwe = c.bwe; oc.enable_abs_capture_time = c.absCap;
            oc.data_channel_config.data_channels = c.pubLabels;
            srtc::PubMediaConfig mc;
            std::string last;
            for (auto& t : tracks) {
                if (t.id == last) continue;
                last = t.id;
                srtc::PubMediaItem it;
                it.media_id = t.id;
                it.media_type = t.video ? srtc::MediaType::Video : srtc::MediaType::Audio;
                srtc::PubCodec k; k.codec = t.codec;
                if (t.codec == srtc::Codec::H264) k.profile_level_id = 0x42e01f;
                it.codec_list.push_back(k);
                if (t.video) it.layer_list = c.layers;
                mc.media_list.push_back(it);
            }
            auto [o, e] = P->createPublishOffer(oc, mc);
            if (e.isError()) die("offer", e.message);
            po = o;
            if (auto r = o->generate(); r.second.isError()) die("offer", r.second.message);
            if (auto r = P->setOffer(o); r.isError()) die("offer", r.message);
        }
        {
            srtc::SubOfferConfig oc;
            oc.cname = "sub"; oc.enable_abs_capture_time = c.absCap;
            oc.pli_interval_millis = (uint16_t)c.pliInterval;
            oc.jitter_buffer_length_millis = (uint16_t)c.jbLength; oc.jitter_buffer_nack_delay_millis = (uint16_t)c.nackDelay;
            oc.data_channel_config.data_channels = c.subLabels;
            srtc::SubMediaConfig mc;
            for (auto& t : tracks) {
                srtc::SubMediaItem it;
                it.media_id = t.sub;
                it.media_type = t.video ? srtc::MediaType::Video : srtc::MediaType::Audio;
                srtc::SubCodec k; k.codec = t.codec;
                if (t.codec == srtc::Codec::H264) k.profile_level_id = 0x42e01f;
                it.codec_list.push_back(k);
                mc.media_list.push_back(it);
            }
            auto [o, e] = S->createSubscribeOffer(oc, mc);
            if (e.isError()) die("offer", e.message);
            so = o;
            if (auto r = o->generate(); r.second.isError()) die("offer", r.second.message);
            if (auto r = S->setOffer(o); r.isError()) die("offer", r.message);
        }
        for (auto& t : tracks) {
            auto s = t.layer.empty() ? po->getMediaSSRC(t.id) : po->getVideoSimulastSSRC(t.id, t.layer);
            t.ssrc = s.first; t.rtx = c.rtx ? s.second : 0;
        }
        P->setConnectionStateListener([this](State s) { std::lock_guard<std::mutex> l(m); ps.push_back({ nowSec(), s }); });
        S->setConnectionStateListener([this](State s) { std::lock_guard<std::mutex> l(m); ss.push_back({ nowSec(), s }); });
        P->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats& s) { std::lock_guard<std::mutex> l(m); pstats.push_back(s); });
        P->setPublishKeyFrameRequestedListener([this] { keyReq++; });
        S->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats& s) { std::lock_guard<std::mutex> l(m); sstats.push_back(s); });
        S->setSubscribeSenderReportsListener([this](const std::shared_ptr<srtc::Track>& t, const srtc::SenderReport& r) { std::lock_guard<std::mutex> l(m); srs.push_back({ t->getSSRC(), r }); });
        S->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) {
            std::lock_guard<std::mutex> l(m);
            frames.push_back({ nowSec(), f->track, (int64_t)f->seq_ext, (int64_t)f->rtp_timestamp_ext, f->marker, Bytes(f->data.data(), f->data.data() + f->data.size()) });
        });
        auto lp = std::make_shared<L>(); lp->p = this; lp->v = &pe; P->setDataChannelListener(lp);
        auto ls = std::make_shared<L>(); ls->p = this; ls->v = &se; S->setDataChannelListener(ls);
        if (go) start();
    }
    ~Pair() { if (P) P->close(); if (S) S->close(); }
    std::string answerFor(bool forP)
    {
        std::ostringstream x;
        auto& remote = forP ? so : po;
        std::string fp = remote->getCertificate()->getSha256FingerprintHex();
        if (c.wrongFingerprint && !forP) fp[c.wrongDigit] = fp[c.wrongDigit] == '0' ? '1' : '0';
        const bool active = forP ? !c.subIsServer : c.subIsServer;
        x << "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\na=ice-ufrag:" << remote->getIceUFrag() << "\r\na=ice-pwd:" << remote->getIcePassword() << "\r\na=fingerprint:sha-256 " << fp
          << "\r\na=setup:" << (active ? "active" : "passive") << "\r\n";
        std::string last;
        for (auto& t : tracks) {
            if (forP && t.id == last) continue;
            last = t.id;
            x << "m=" << (t.video ? "video" : "audio") << " 9 UDP/TLS/RTP/SAVPF " << t.pt;
            if (c.rtx) x << " " << t.pt + 1;
            x << "\r\nc=IN IP4 0.0.0.0\r\na=mid:" << (forP ? t.id : t.sub) << "\r\na=" << (forP ? "recvonly" : "sendonly") << "\r\na=rtcp-mux\r\na=rtpmap:" << t.pt << " " << rtpmap(t.codec) << "\r\n";
            if (t.codec == srtc::Codec::H264) x << "a=fmtp:" << t.pt << " level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f\r\n";
            if (t.codec == srtc::Codec::Opus) x << "a=fmtp:" << t.pt << " minptime=10;stereo=1;useinbandfec=1\r\n";
            if (c.nack) x << "a=rtcp-fb:" << t.pt << " nack\r\n";
            if (t.video && c.pli) x << "a=rtcp-fb:" << t.pt << " nack pli\r\n";
            if (c.rtx) x << "a=rtpmap:" << t.pt + 1 << " rtx/90000\r\na=fmtp:" << t.pt + 1 << " apt=" << t.pt << "\r\n";
            if (c.bwe) x << "a=extmap:14 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01\r\n";
            if (c.absCap) x << "a=extmap:12 http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time\r\n";
            if (forP) {
                if (t.video && !c.layers.empty()) {
                    x << "a=extmap:1 urn:ietf:params:rtp-hdrext:sdes:mid\r\na=extmap:2 urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id\r\n";
                    if (c.rtx) x << "a=extmap:3 urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id\r\n";
                    x << "a=extmap:4 http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00\r\n";
                    std::string all;
                    for (auto& y : c.layers) { x << "a=rid:" << y.name << " recv\r\n"; all += (all.empty() ? "" : ";") + y.name; }
                    x << "a=simulcast:recv " << all << "\r\n";
                }
            } else {
                if (t.rtx) x << "a=ssrc-group:FID " << t.ssrc << " " << t.rtx << "\r\n";
                x << "a=ssrc:" << t.ssrc << " cname:pub\r\n";
                if (t.rtx) x << "a=ssrc:" << t.rtx << " cname:pub\r\n";
            }
        }
        if (!c.pubLabels.empty() || !c.subLabels.empty())
            x << "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\nc=IN IP4 0.0.0.0\r\na=mid:datachannel\r\na=sctp-port:5000\r\na=max-message-size:" << c.maxMessage << "\r\n";
        x << c.deadCandidates << "a=candidate:1 1 udp 2130706431 127.0.0.1 " << relay.port[forP ? 0 : 1] << " typ host\r\n";
        return x.str();
    }
    void start()
    {
        auto a = P->parsePublishAnswer(po, answerFor(true), nullptr);
        if (a.second.isError()) die("answer", a.second.message);
        auto b = S->parseSubscribeAnswer(so, answerFor(false), nullptr);
        if (b.second.isError()) die("answer", b.second.message);
        for (auto& t : tracks) {
            for (auto& tr : a.first->getTrackList()) if (tr->getMedia()->getId() == t.id && (t.layer.empty() || (tr->getSimulcastLayer() && tr->getSimulcastLayer()->name == t.layer))) t.pub = tr;
            for (auto& tr : b.first->getTrackList()) if (tr->getMedia()->getId() == t.sub) t.rx = tr;
        }
        if (auto e = P->setAnswer(a.first); e.isError()) die("answer", e.message);
        if (auto e = S->setAnswer(b.first); e.isError()) die("answer", e.message);
    }
    State pstate() { std::lock_guard<std::mutex> l(m); return ps.empty() ? State::Inactive : ps.back().second; }
    State sstate() { std::lock_guard<std::mutex> l(m); return ss.empty() ? State::Inactive : ss.back().second; }
    template <class F> bool wait(F f, double sec)
    {
        const double t = nowSec() + sec;
        while (nowSec() < t) { if (f()) return true; msleep(2); }
        return f();
    }
    void connect(double sec = 15) { if (!wait([&] { return pstate() == State::Connected && sstate() == State::Connected; }, sec)) { printf("not connected\n"); exit(97); } }
    // a frame whose content depends on n; VP8: even n/30 start is a key frame
    Bytes content(int n, size_t size, bool key)
    {
        Bytes d(size);
        for (size_t i = 0; i < size; i++) d[i] = (uint8_t)(n * 31 + i * 7 + (i >> 8));
        if (size >= 10) { d[0] = key ? 0x10 : 0x11; d[1] = 0; d[2] = 0; if (key) { d[3] = 0x9d; d[4] = 1; d[5] = 0x2a; } }
        return d;
    }
    void publish(int track, int n, const Bytes& d, int64_t ptsUsec)
    {
        auto& t = tracks[track];
        auto e = t.video ? P->publishVideoFrame(t.pub, ptsUsec, srtc::ByteBuffer(d.data(), d.size())) : P->publishAudioFrame(t.pub, ptsUsec, srtc::ByteBuffer(d.data(), d.size()));
        (void)n;
        if (e.isError()) printf("publish: %s\n", e.message.c_str());
    }
    size_t count(std::vector<Event>& v, const std::string& what) { std::lock_guard<std::mutex> l(m); size_t n = 0; for (auto& e : v) n += e.what == what; return n; }
};
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
