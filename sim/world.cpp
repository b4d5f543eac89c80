#include "world.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/media.h"
#include "srtc/logging.h"
#include "srtc/x509_certificate.h"
#include <algorithm>
#include <cstring>
#include <openssl/ssl.h>
#include <sstream>

using srtc::PeerConnection;

void initRepo()
{
    OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, nullptr);
    srtc::setLogLevel(100);
    // exercise certificate generation, digests and a context once so that OpenSSL's lazily fetched tables exist before forking
    srtc::X509Certificate cert;
    SSL_CTX_free(SSL_CTX_new(DTLS_server_method()));
    SSL_CTX_free(SSL_CTX_new(DTLS_client_method()));
    for (auto k : { 16, 32 })
        for (auto g : { SRTP_AEAD_AES_128_GCM, SRTP_AES128_CM_SHA1_80 }) {
            wire::Srtp s;
            const bool gcm = g == SRTP_AEAD_AES_128_GCM;
            if (!gcm && k == 32) continue;
            s.init(gcm && k == 32 ? SRTP_AEAD_AES_256_GCM : g, net::Bytes(k, 1), net::Bytes(gcm ? 12 : 14, 2));
            net::Bytes o, in(40, 0x80);
            s.protectRtp(in, 0, o);
        }
}

namespace world
{
const char* stateName(State s)
{
    switch (s) {
    case State::Inactive:
        return "Inactive";
    case State::Connecting:
        return "Connecting";
    case State::Connected:
        return "Connected";
    case State::Failed:
        return "Failed";
    case State::Closed:
        return "Closed";
    }
    return "?";
}

World::World(const Config& c) : cfg(c)
{
    Kernel k;
    P.node = 1;
    S.node = 2;
    if (cfg.cands.empty()) cfg.cands.push_back({ { "10.0.0.2", 5002 }, { "10.0.0.1", 5001 }, true });
    net::hooks.onSend = [this](const net::Dgram& d) { wireSend(d); };
    net::hooks.onDeliver = [this](const net::Dgram& d) { wireDeliver(d); };
    net::hooks.onDrop = [this](const net::Dgram& d, const char* w) { wireDrop(d, w); };
}
World::~World() {}

bool World::wanted(const char* prop) const { return plan().prop == prop || plan().prop == "ANY" || also.count(prop); }
void World::fail(const char* prop, const char* cls, const char* fmt, ...)
{
    char buf[2500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    violation(also.count(prop) && plan().prop != "ANY" ? plan().prop.c_str() : prop, cls, "%s", buf);
}

static const char* codecRtp(srtc::Codec c)
{
    switch (c) {
    case srtc::Codec::H264:
        return "H264/90000";
    case srtc::Codec::H265:
        return "H265/90000";
    case srtc::Codec::VP8:
        return "VP8/90000";
    case srtc::Codec::VP9:
        return "VP9/90000";
    case srtc::Codec::AV1:
        return "AV1/90000";
    default:
        return "opus/48000/2";
    }
}

void World::setupNet()
{
    for (auto& c : cfg.cands)
        if (c.linked) net::addLink(1, c.dialedByP, 2, c.dialedByS);
}

void World::offers()
{
    {
        Kernel k;
        setupNet();
        int ti = 0;
        for (size_t i = 0; i < cfg.lines.size(); i++) {
            auto& l = cfg.lines[i];
            const size_t n = std::max<size_t>(1, l.layers.size());
            for (size_t j = 0; j < n; j++) {
                TrackInfo t;
                t.index = ti++;
                t.line = (int)i;
                t.pubId = l.id;
                t.layer = l.layers.empty() ? "" : l.layers[j].name;
                t.subId = l.layers.empty() ? l.id : l.id + "-" + t.layer;
                t.video = l.video;
                t.codec = l.codec;
                t.clock = l.video ? 90000 : 48000;
                t.gen.codec = l.codec;
                t.gen.salt = hash3(seed(), 0x6e6e, t.index);
                t.gen.csdSeparate = l.csdSeparate;
                t.gen.threeByte = l.threeByte;
                t.gen.av1Ext = l.av1Ext;
                t.nextPts = (i64)(hash3(seed(), 0x7075, t.index) % 1000000000ULL);
                tracks.push_back(std::move(t));
            }
        }
    }
    {
        NodeScope ns(1);
        P.pc = std::make_shared<PeerConnection>(srtc::Direction::Publish);
        installP();
        srtc::PubOfferConfig oc;
        oc.cname = "pub";
        oc.enable_rtx = cfg.rtx;
        oc.enable_bwe = cfg.bwe;
        oc.enable_rfc8851 = cfg.rfc8851;
        oc.enable_abs_capture_time = cfg.absCap;
        oc.data_channel_config.data_channels = cfg.pubLabels;
        if (cfg.pubLabels.empty() && !cfg.subLabels.empty()) oc.data_channel_config.data_channels = {};
        srtc::PubMediaConfig mc;
        for (auto& l : cfg.lines) {
            srtc::PubMediaItem it;
            it.media_id = l.id;
            it.media_type = l.video ? srtc::MediaType::Video : srtc::MediaType::Audio;
            srtc::PubCodec c;
            c.codec = l.codec;
            if (l.codec == srtc::Codec::H264) c.profile_level_id = 0x42e01f;
            it.codec_list.push_back(c);
            it.layer_list = l.layers;
            mc.media_list.push_back(it);
        }
        auto [o, e] = P.pc->createPublishOffer(oc, mc);
        if (e.isError()) simError("publish offer: %s", e.message.c_str());
        P.offer = o;
        auto [text, e2] = o->generate();
        if (e2.isError()) simError("publish offer text: %s", e2.message.c_str());
        auto e3 = P.pc->setOffer(o);
        if (e3.isError()) simError("setOffer: %s", e3.message.c_str());
    }
    {
        NodeScope ns(2);
        S.pc = std::make_shared<PeerConnection>(srtc::Direction::Subscribe);
        installS();
        srtc::SubOfferConfig oc;
        oc.cname = "sub";
        oc.enable_abs_capture_time = cfg.absCap;
        oc.pli_interval_millis = (uint16_t)cfg.pliInterval;
        oc.jitter_buffer_length_millis = (uint16_t)cfg.jbLength;
        oc.jitter_buffer_nack_delay_millis = (uint16_t)cfg.nackDelay;
        oc.data_channel_config.data_channels = cfg.subLabels;
        srtc::SubMediaConfig mc;
        for (auto& t : tracks) {
            srtc::SubMediaItem it;
            it.media_id = t.subId;
            it.media_type = t.video ? srtc::MediaType::Video : srtc::MediaType::Audio;
            srtc::SubCodec c;
            c.codec = t.codec;
            if (t.codec == srtc::Codec::H264) c.profile_level_id = 0x42e01f;
            it.codec_list.push_back(c);
            mc.media_list.push_back(it);
        }
        auto [o, e] = S.pc->createSubscribeOffer(oc, mc);
        if (e.isError()) simError("subscribe offer: %s", e.message.c_str());
        S.offer = o;
        auto [text, e2] = o->generate();
        if (e2.isError()) simError("subscribe offer text: %s", e2.message.c_str());
        auto e3 = S.pc->setOffer(o);
        if (e3.isError()) simError("setOffer: %s", e3.message.c_str());
    }
    {
        Kernel k;
        for (auto* p : { &P, &S }) {
            p->ufrag = p->offer->getIceUFrag();
            p->pwd = p->offer->getIcePassword();
            p->fingerprint = p->offer->getCertificate()->getSha256FingerprintHex();
        }
        int payload = 96;
        for (size_t i = 0; i < cfg.lines.size(); i++) {
            for (auto& t : tracks) {
                if (t.line != (int)i) continue;
                auto s = t.layer.empty() ? P.offer->getMediaSSRC(t.pubId) : P.offer->getVideoSimulastSSRC(t.pubId, t.layer);
                t.ssrc = s.first;
                t.rtxSsrc = cfg.rtx ? s.second : 0;
                t.payload = payload;
                t.rtxPayload = cfg.rtx ? payload + 1 : 0;
            }
            payload += cfg.rtx ? 2 : 1;
        }
    }
}

// the SDP a signalling server would hand to one side, built from what the other side offered
std::string World::answerFor(bool forP)
{
    std::ostringstream ss;
    Peer& remote = forP ? S : P;
    std::string fp = remote.fingerprint;
    std::string alg = "sha-256";
    if (cfg.wrongFingerprint == remote.node) {
        const size_t at = (size_t)paramRange("wrong_digit", 0, 31) * 3 + (size_t)paramRange("wrong_half", 0, 1);
        switch (cfg.wrongHow) {
        case 1: // the beginning only
            fp.resize(3 * (size_t)paramRange("wrong_len", 1, 31) - 1);
            break;
        case 2: // the end only
            fp = fp.substr(3 * (size_t)paramRange("wrong_len", 1, 31));
            break;
        case 3:
            fp += ":00";
            break;
        case 4: // a digest of another kind
            alg = paramBool("wrong_alg", 0.5) ? "sha-1" : "sha-384";
            break;
        case 5: // no fingerprint at all
            fp.clear();
            break;
        case 6: // the peer shows no certificate
            break;
        case 7:
            for (auto& ch : fp)
                if (ch != ':') ch = '0';
            break;
        default: // one hexadecimal digit differs
            fp[at] = fp[at] == '0' ? '1' : '0';
        }
    }
    const bool active = forP ? !cfg.subIsServer : cfg.subIsServer; // "active" makes the local side the DTLS server
    ss << "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";
    std::string pwd = remote.pwd;
    if (cfg.wrongPasswordP && forP && !pwd.empty()) {
        char& ch = pwd[(size_t)paramRange("wrong_char", 0, (i64)pwd.size() - 1)];
        ch = ch == 'x' || ch == 'y' ? 'q' : 'x';
    }
    ss << "a=ice-ufrag:" << remote.ufrag << "\r\na=ice-pwd:" << pwd << "\r\n";
    if (!fp.empty()) ss << "a=fingerprint:" << alg << " " << fp << "\r\n";
    ss << "a=setup:" << (active ? "active" : "passive") << "\r\n";
    auto common = [&](const Line& l, const TrackInfo& t) {
        ss << "a=rtcp-mux\r\n";
        ss << "a=rtpmap:" << t.payload << " " << codecRtp(l.codec) << "\r\n";
        if (l.codec == srtc::Codec::H264) ss << "a=fmtp:" << t.payload << " level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f\r\n";
        if (l.codec == srtc::Codec::Opus) ss << "a=fmtp:" << t.payload << " minptime=10;stereo=1;useinbandfec=1\r\n";
        if (l.nack) ss << "a=rtcp-fb:" << t.payload << " nack\r\n";
        if (l.video && l.pli) ss << "a=rtcp-fb:" << t.payload << " nack pli\r\n";
        if (cfg.rtx) ss << "a=rtpmap:" << t.rtxPayload << " rtx/90000\r\na=fmtp:" << t.rtxPayload << " apt=" << t.payload << "\r\n";
        if (cfg.bwe) ss << "a=extmap:14 http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01\r\n";
        if (cfg.absCap) ss << "a=extmap:12 http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time\r\n";
    };
    auto mline = [&](const TrackInfo& t) {
        ss << "m=" << (t.video ? "video" : "audio") << " 9 UDP/TLS/RTP/SAVPF " << t.payload;
        if (cfg.rtx) ss << " " << t.rtxPayload;
        ss << "\r\nc=IN IP4 0.0.0.0\r\n";
    };
    for (size_t i = 0; i < cfg.lines.size(); i++) {
        auto& l = cfg.lines[i];
        bool first = true;
        for (auto& t : tracks) {
            if (t.line != (int)i) continue;
            if (forP) {
                if (!first) continue;
                first = false;
                mline(t);
                ss << "a=mid:" << l.id << "\r\na=recvonly\r\n";
                common(l, t);
                if (!l.layers.empty()) {
                    ss << "a=extmap:1 urn:ietf:params:rtp-hdrext:sdes:mid\r\na=extmap:2 urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id\r\n";
                    if (cfg.rtx) ss << "a=extmap:3 urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id\r\n";
                    ss << "a=extmap:4 http://www.webrtc.org/experiments/rtp-hdrext/video-layers-allocation00\r\n";
                    std::string all;
                    for (auto& y : l.layers) {
                        ss << "a=rid:" << y.name << " recv\r\n";
                        all += (all.empty() ? "" : ";") + y.name;
                    }
                    ss << "a=simulcast:recv " << all << "\r\n";
                }
            } else {
                mline(t);
                ss << "a=mid:" << t.subId << "\r\na=sendonly\r\n";
                common(l, t);
                if (t.rtxSsrc) ss << "a=ssrc-group:FID " << t.ssrc << " " << t.rtxSsrc << "\r\n";
                ss << "a=ssrc:" << t.ssrc << " cname:pub\r\n";
                if (t.rtxSsrc) ss << "a=ssrc:" << t.rtxSsrc << " cname:pub\r\n";
            }
        }
    }
    if (!cfg.pubLabels.empty() || !cfg.subLabels.empty())
        ss << "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\nc=IN IP4 0.0.0.0\r\na=mid:datachannel\r\na=sctp-port:5000\r\na=max-message-size:" << cfg.maxMessageSize << "\r\n";
    int n = 1;
    for (auto& c : cfg.cands) {
        auto& a = forP ? c.dialedByP : c.dialedByS;
        ss << "a=candidate:" << n++ << " 1 udp 2130706431 " << a.ip << " " << a.port << " typ host\r\n";
    }
    return ss.str();
}

void World::answers()
{
    for (auto* p : { &P, &S }) {
        std::string text;
        {
            Kernel k;
            text = answerFor(p == &P);
            tlog("answer for node %d:\n%s", p->node, text.c_str());
        }
        NodeScope ns(p->node);
        auto r = p == &P ? p->pc->parsePublishAnswer(p->offer, text, nullptr) : p->pc->parseSubscribeAnswer(p->offer, text, nullptr);
        if (r.second.isError()) simError("answer for node %d rejected: %s", p->node, r.second.message.c_str());
        p->answer = r.first;
        auto list = p->answer->getTrackList();
        Kernel k;
        if (list.size() != tracks.size()) simError("node %d has %zu tracks, expected %zu", p->node, list.size(), tracks.size());
        for (auto& tr : list) {
            for (auto& t : tracks) {
                if (p == &P) {
                    if (tr->getMedia()->getId() == t.pubId && (t.layer.empty() || (tr->getSimulcastLayer() && tr->getSimulcastLayer()->name == t.layer))) t.pub = tr;
                } else if (tr->getMedia()->getId() == t.subId) {
                    t.sub = tr;
                }
            }
        }
        for (auto& t : tracks)
            if (!(p == &P ? t.pub : t.sub)) simError("track %d not found on node %d", t.index, p->node);
    }
}
void World::startPeer(Peer& p)
{
    NodeScope ns(p.node);
    p.started = true;
    p.lastAuthentic = now();
    auto e = p.pc->setAnswer(p.answer);
    if (e.isError()) simError("setAnswer: %s", e.message.c_str());
}
void World::start()
{
    wire::certless = cfg.wrongFingerprint && cfg.wrongHow == 6 ? cfg.wrongFingerprint : 0;
    offers();
    answers();
    startPeer(P);
    const i64 skew = paramRange("start_skew", 0, 3) == 0 ? paramRange("start_skew_ns", 0, 400 * MS) : 0;
    if (skew) sleepFor(skew);
    startPeer(S);
}
bool World::waitState(Peer& p, State s, i64 timeout)
{
    return waitFor([&] { return p.state == s; }, timeout);
}
bool World::waitBoth(State s, i64 timeout)
{
    return waitFor([&] { return P.state == s && S.state == s; }, timeout);
}

// ------------------------------------------------------------------ listeners
void World::callbackGuard(Peer& p, const char* what)
{
    if (p.closed && wanted("C13")) fail("C13", "callback-after-close", "node %d: %s was reported after close() had returned", p.node, what);
    if (p.terminal && strcmp(what, "state") && wanted("C13")) fail("C13", "callback-after-terminal", "node %d: %s was reported after the terminal state %s", p.node, what, stateName(p.state));
}
Reenter::~Reenter()
{
    if (w.reenter) w.reenter(p);
}
void World::stateChange(Peer& p, State s)
{
    Reenter re(*this, p);
    Kernel k;
    tlog("node %d state -> %s", p.node, stateName(s));
    traceMix(hash3(0x57a7e, p.node, (u64)s));
    checked();
    callbackGuard(p, "state");
    const State prev = p.state;
    if (wanted("C13")) {
        if (p.terminal) fail("C13", "state-after-terminal", "node %d reported %s after the terminal state %s", p.node, stateName(s), stateName(prev));
        bool ok = false;
        if (s == State::Connecting) ok = prev == State::Inactive || prev == State::Connected;
        else if (s == State::Connected) ok = prev == State::Connecting;
        else if (s == State::Failed) ok = prev == State::Connecting || prev == State::Connected;
        else if (s == State::Closed) ok = prev == State::Connecting || prev == State::Connected || prev == State::Inactive;
        if (!ok) fail("C13", "bad-transition", "node %d reported %s directly after %s", p.node, stateName(s), stateName(prev));
    }
    p.state = s;
    p.states.push_back({ now(), s });
    if (s == State::Failed || s == State::Closed) p.terminal = true;
    probe(("state_" + std::string(stateName(s))).c_str());
    if (onState) onState(p, s);
}
void World::installP()
{
    P.pc->setConnectionStateListener([this](State s) { stateChange(P, s); });
    P.pc->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats& s) {
        Reenter re(*this, P);
        Kernel k;
        callbackGuard(P, "publish statistics");
        tlog("node 1 stats: frames %zu packets %zu bytes %zu lost %.2f%% rtt %.2f", s.frame_count, s.packet_count, s.byte_count, s.packets_lost_percent, s.rtt_ms);
        P.pubStats.push_back({ now(), s });
        probe("publish_stats");
        if (onStats) onStats(P);
    });
    P.pc->setPublishKeyFrameRequestedListener([this]() {
        Reenter re(*this, P);
        Kernel k;
        callbackGuard(P, "key frame request");
        tlog("node 1 key frame requested");
        P.keyReq++;
        P.keyReqTimes.push_back(now());
        probe("keyframe_requests");
        if (onKeyReq) onKeyReq(P);
    });
    installDc(P);
}
void World::installS()
{
    S.pc->setConnectionStateListener([this](State s) { stateChange(S, s); });
    S.pc->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats& s) {
        Reenter re(*this, S);
        Kernel k;
        callbackGuard(S, "subscribe statistics");
        tlog("node 2 stats: frames %zu packets %zu bytes %zu lost %.2f%% rtt %.2f", s.frame_count, s.packet_count, s.byte_count, s.packets_lost_percent, s.rtt_ms);
        S.subStats.push_back({ now(), s });
        probe("subscribe_stats");
        if (onStats) onStats(S);
    });
    S.pc->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) {
        Reenter re(*this, S);
        Kernel k;
        callbackGuard(S, "frame");
        frameOracle(f);
    });
    S.pc->setSubscribeSenderReportsListener([this](const std::shared_ptr<srtc::Track>& t, const srtc::SenderReport& sr) {
        Reenter re(*this, S);
        Kernel k;
        callbackGuard(S, "sender report");
        S.srs.push_back({ now(), t->getSSRC(), sr });
        probe("sender_reports");
        if (onSr) onSr(S.srs.back());
    });
    installDc(S);
}

struct DcListener : PeerConnection::DataChannelListener {
    World& w;
    Peer& p;
    DcListener(World& a, Peer& b) : w(a), p(b) {}
    void onDataChannelOpened(const std::string& label) override
    {
        Reenter re(w, p);
        Kernel k;
        tlog("node %d data channel '%s' opened", p.node, label.c_str());
        traceMix(hash2(0xdc01, hashStr(label.c_str())));
        checked();
        probe("dc_opened");
        if (p.closed && w.wanted("C13")) w.fail("C13", "callback-after-close", "node %d: data channel opened after close() returned", p.node);
        if (p.terminal && w.wanted("C13")) w.fail("C13", "callback-after-terminal", "node %d: data channel opened after the terminal state", p.node);
        if (w.wanted("C12")) {
            int known = 0, opens = 1; // a label that both sides configured names two channels
            for (auto* l : { &w.cfg.pubLabels, &w.cfg.subLabels })
                for (auto& x : *l) known += x == label;
            for (auto& e : p.dc) opens += e.kind == 0 && e.label == label;
            if (known && opens > known) w.fail("C12", "opened-twice", "node %d: channel '%s' announced as opened %d times", p.node, label.c_str(), opens);
            if (!known) w.fail("C12", "unknown-label", "node %d: channel '%s' announced, but no side configured that label", p.node, label.c_str());
        }
        p.openedLabels.insert(label);
        p.dc.push_back({ now(), 0, label, -1 });
        if (w.onDc) w.onDc(p, p.dc.back());
    }
    void onDataChannelClosed(const std::string& label) override
    {
        Reenter re(w, p);
        Kernel k;
        tlog("node %d data channel '%s' closed", p.node, label.c_str());
        if (p.closed && w.wanted("C13")) w.fail("C13", "callback-after-close", "node %d: data channel closed after close() returned", p.node);
        if (p.terminal && w.wanted("C13")) w.fail("C13", "callback-after-terminal", "node %d: data channel closed after the terminal state", p.node);
        if (!p.openedLabels.count(label) && w.wanted("C12")) w.fail("C12", "closed-not-open", "node %d: channel '%s' announced as closed, it was not open", p.node, label.c_str());
        if (w.wanted("C12")) {
            int opens = 0, closes = 1;
            for (auto& e : p.dc) opens += e.kind == 0 && e.label == label, closes += e.kind == 1 && e.label == label;
            if (opens && closes > opens) w.fail("C12", "closed-twice", "node %d: channel '%s' announced as closed %d times, as opened %d times", p.node, label.c_str(), closes, opens);
        }
        p.dc.push_back({ now(), 1, label, -1 });
        if (w.onDc) w.onDc(p, p.dc.back());
        probe("dc_closed");
    }
    void onDataChannelReceivedText(const std::string& label, const std::string& d) override { w.messageOracle(p, label, true, (const uint8_t*)d.data(), d.size()); }
    void onDataChannelReceivedBinary(const std::string& label, const srtc::ByteBuffer& d) override { w.messageOracle(p, label, false, d.data(), d.size()); }
};
void World::installDc(Peer& p) { p.pc->setDataChannelListener(std::make_shared<DcListener>(*this, p)); }

void World::messageOracle(Peer& p, const std::string& label, bool text, const uint8_t* d, size_t n)
{
    Reenter re(*this, p);
    Kernel k;
    auto& from = other(p);
    const u64 h = hash3(hashBytes(d, n), hashStr(label.c_str()), text);
    tlog("node %d message on '%s': %zu bytes %s", p.node, label.c_str(), n, text ? "text" : "binary");
    traceMix(hash2(0xdc02, h));
    checked();
    probe("dc_messages");
    if (p.closed && wanted("C13")) fail("C13", "callback-after-close", "node %d: data channel message after close() returned", p.node);
    if (p.terminal && wanted("C13")) fail("C13", "callback-after-terminal", "node %d: data channel message after the terminal state", p.node);
    if (wanted("C12") && !p.openedLabels.count(label)) fail("C12", "message-before-open", "node %d: message on '%s' delivered before the channel was announced as opened", p.node, label.c_str());
    auto it = from.sentByHash.find(h);
    if (it == from.sentByHash.end()) {
        if (wanted("C10")) {
            const char* what = "bytes that were never sent as one message";
            for (auto& m : from.sent)
                if (m.data.size() == n && (n == 0 || !memcmp(m.data.data(), d, n))) what = m.label != label ? "a message that was sent on another channel" : "a message that was sent with the other kind";
            fail("C10", "wrong-content", "node %d received on '%s' %s (%zu bytes)", p.node, label.c_str(), what, n);
        }
        p.dc.push_back({ now(), text ? 2 : 3, label, -1 });
        return;
    }
    // with equal contents the first undelivered copy after the last delivered message is meant
    int idx = it->second.back(), last = -1;
    for (int j = (int)p.dc.size() - 1; j >= 0 && last < 0; j--)
        if (p.dc[j].label == label) last = p.dc[j].msg;
    for (int pass = 0; pass < 2; pass++) {
        bool found = false;
        for (int i : it->second)
            if (!from.sent[i].delivered && (pass || i > last)) {
                idx = i;
                found = true;
                break;
            }
        if (found) break;
    }
    auto& m = from.sent[idx];
    if (m.delivered && wanted("C10")) fail("C10", "delivered-twice", "node %d: message #%d on '%s' (%zu bytes) was delivered twice", p.node, idx, label.c_str(), n);
    for (int j = (int)p.dc.size() - 1; j >= 0; j--) {
        if (unorderedLabels.count(label)) break;
        if (p.dc[j].label != label || p.dc[j].msg < 0) continue;
        if (p.dc[j].msg > idx && wanted("C10")) fail("C10", "out-of-order", "node %d: message #%d on '%s' delivered after the later message #%d", p.node, idx, label.c_str(), p.dc[j].msg);
        if (wanted("C10")) {
            // nothing between may have been skipped (messages of open channels only)
            for (int q = p.dc[j].msg + 1; q < idx; q++)
                if (from.sent[q].label == label && !from.sent[q].delivered && from.sent[q].connected && from.sent[q].opened) fail("C10", "skipped", "node %d: message #%d on '%s' delivered although the earlier message #%d was not", p.node, idx, label.c_str(), q);
        }
        break;
    }
    m.delivered++;
    from.deliveredCount++;
    m.deliveredAt = now();
    p.dc.push_back({ now(), text ? 2 : 3, label, idx });
    if (onDc) onDc(p, p.dc.back());
}
bool World::sendMsg(Peer& p, const std::string& label, bool text, size_t size)
{
    Use use(p);
    if (!use.ok || !op()) return false;
    std::string data;
    int idx;
    {
        Kernel k;
        Msg m;
        m.id = p.sent.size();
        m.text = text;
        m.label = label;
        m.at = now();
        m.connected = p.state == State::Connected;
        m.opened = p.openedLabels.count(label) > 0;
        const u64 h = hash3(seed(), 0xdc00 + p.node, m.id);
        m.data.resize(size);
        for (size_t i = 0; i < size; i++) m.data[i] = text ? (uint8_t)('!' + hash2(h, i / 8 * 8 + i % 3) % 90) : (uint8_t)(hash2(h, i / 8) >> (8 * (i % 8)));
        data.assign((const char*)m.data.data(), size);
        idx = (int)p.sent.size();
        p.sentByHash[hash3(hashBytes(m.data.data(), size), hashStr(label.c_str()), text)].push_back(idx);
        p.sent.push_back(std::move(m));
        tlog("node %d sends message #%d on '%s' (%zu bytes, %s)", p.node, idx, label.c_str(), size, text ? "text" : "binary");
    }
    NodeScope ns(p.node);
    bool ok;
    if (text) {
        ok = p.pc->sendDataChannelText(label, std::move(data)).isOk();
    } else {
        srtc::ByteBuffer b((const uint8_t*)data.data(), data.size());
        ok = p.pc->sendDataChannelBinary(label, std::move(b)).isOk();
    }
    Kernel k;
    p.sent[idx].ret = now();
    if (!ok) p.sent[idx].connected = false;
    if (p.state != State::Connected) p.sent[idx].connected = false;
    return ok;
}
void World::checkMessagesDelivered(Peer& from, const char* prop)
{
    Kernel k;
    for (size_t i = 0; i < from.sent.size(); i++) {
        auto& m = from.sent[i];
        checked();
        if (m.connected && m.opened && !m.delivered) {
            size_t missing = 0;
            for (auto& q : from.sent) missing += q.connected && q.opened && !q.delivered;
            fail(prop, "undelivered", "node %d: message #%zu on open channel '%s' (%zu bytes, sent at %.3f s) was not delivered (%zu of %zu missing)", from.node, i, m.label.c_str(), m.data.size(), (double)(m.at - 1000 * SEC) / 1e9, missing, from.sent.size());
        }
    }
}

// ------------------------------------------------------------------ frames
void World::frameOracle(const std::shared_ptr<srtc::EncodedFrame>& f)
{
    checked();
    TrackInfo* t = nullptr;
    for (auto& x : tracks)
        if (x.sub == f->track) t = &x;
    if (!t) {
        if (wanted("C26")) fail("C26", "unknown-track", "a frame was delivered for a track that is not in the subscriber's list");
        return;
    }
    std::vector<Bytes> params;
    bool well = true;
    auto c = media::canon(t->codec, f->data.data(), f->data.size(), &params, &well);
    const u64 h = hashBytes(c.data(), c.size());
    traceMix(hash3(0xf4a3e, t->index, h));
    int idx = -1;
    if (auto it = t->byHash.find(h); it != t->byHash.end()) idx = it->second;
    if (idx < 0 && !lossless) {
        // a frame whose supplemental information was lost is still a frame
        auto c2 = t->byCore.find(h);
        if (c2 != t->byCore.end()) {
            probe("frames_without_sei");
            idx = c2->second;
        }
    }
    if (idx < 0 || !well) {
        for (auto& o : tracks) {
            if (o.byHash.count(h) && &o != t) {
                if (wanted("C26")) fail("C26", "wrong-track", "a frame published on track %d was delivered on track %d", o.index, t->index);
                return;
            }
        }
        probe("frames_unknown");
        tlog("frame on track %d with unknown content: %zu bytes", t->index, f->data.size());
        if (wanted("C01")) {
            // describe how it differs
            std::string near = "resembles no published frame";
            for (auto& pf : t->frames) {
                if (c.size() > 40 && pf.size + 400 > c.size() && c.size() + 400 > pf.size) near = "size close to frame #" + std::to_string(pf.id);
            }
            fail("C01", "wrong-content", "track %d (codec %d): a delivered frame of %zu bytes (canonical %zu) equals no published frame%s; %s", t->index, (int)t->codec, f->data.size(), c.size(), well ? "" : " and is not well-formed", near.c_str());
        }
        return;
    }
    auto& pf = t->frames[idx];
    tlog("frame #%d of track %d delivered (%zu bytes, key %d) %.3f ms after publishing", idx, t->index, f->data.size(), pf.key, (double)(now() - pf.at) / 1e6);
    pf.deliveries++;
    t->delivered++;
    probe("frames_delivered");
    // parameter sets given separately while not connected are dropped by the publisher
    if (wanted("C01") && !(t->gen.csdSeparate && P.states.size() > 2)) {
        for (auto& q : params) {
            bool ok = false;
            for (auto& z : pf.csd) ok |= z == q;
            if (!ok) fail("C01", "wrong-parameter-sets", "track %d frame #%d was delivered with a parameter set that was not in force when it was published", t->index, idx);
        }
        if ((t->codec == srtc::Codec::H264 || t->codec == srtc::Codec::H265) && pf.key && params.size() != pf.csd.size()) fail("C01", "parameter-sets-missing", "track %d key frame #%d was delivered with %zu parameter sets, %zu in force", t->index, idx, params.size(), pf.csd.size());
    }
    if (wanted("C02")) {
        if (pf.deliveries > 1) fail("C02", "delivered-twice", "track %d frame #%d was delivered %d times", t->index, idx, pf.deliveries);
        if (idx < t->lastDelivered) fail("C02", "out-of-order", "track %d frame #%d was delivered after frame #%lld", t->index, idx, (long long)t->lastDelivered);
    }
    t->lastDelivered = std::max<i64>(t->lastDelivered, idx);
    if (wanted("C26")) {
        if (pf.absCap && cfg.absCap && f->abs_capture_time_ntp != pf.absCap) fail("C26", "capture-time", "track %d frame #%d was published with capture time %llx and delivered with %llx", t->index, idx, (unsigned long long)pf.absCap, (unsigned long long)f->abs_capture_time_ntp);
        if (!pf.absCap && f->abs_capture_time_ntp != 0) fail("C26", "capture-time-invented", "track %d frame #%d was published without a capture time and delivered with %llx", t->index, idx, (unsigned long long)f->abs_capture_time_ntp);
        if (!t->haveTs) {
            t->haveTs = true;
            t->firstTsExt = f->rtp_timestamp_ext;
            t->firstTsPts = pf.pts;
        }
        const i64 want = (i64)((__int128)(pf.pts - t->firstTsPts) * t->clock / 1000000);
        const i64 got = (i64)(f->rtp_timestamp_ext - t->firstTsExt); // extended: must not repeat after a wrap
        const i64 diff = got - want;
        if (diff > 2 || diff < -2) fail("C26", "timestamp", "track %d frame #%d: RTP timestamp differs from the first frame's by %lld ticks, the presentation times by %lld ticks", t->index, idx, (long long)got, (long long)want);
    }
    if (!pf.delivered) {
        pf.delivered = true;
        pf.deliveredAt = now();
    }
    if (onFrame) onFrame(*t, pf);
}
bool World::publish(int ti, bool key, size_t size, int slices, bool newCsd, i64 ptsStep, uint64_t absCap)
{
    Use use(P);
    if (!use.ok || !op()) {
        tracks[ti].nextPts += ptsStep;
        return false;
    }
    Bytes data;
    std::vector<Bytes> csd;
    int idx;
    auto& t = tracks[ti];
    {
        Kernel k;
        PubFrame f;
        f.id = t.frames.size();
        f.track = ti;
        f.key = key;
        f.pts = t.nextPts;
        f.at = now();
        f.connected = P.state == State::Connected;
        f.absCap = absCap;
        f.size = size;
        data = media::makeFrame(t.gen, f.id, key, size, slices, newCsd);
        f.csd = t.gen.csd;
        auto c = media::canon(t.codec, data.data(), data.size(), nullptr, nullptr);
        idx = (int)t.frames.size();
        t.byHash[hashBytes(c.data(), c.size())] = idx;
        auto core = media::canon(t.codec, data.data(), data.size(), nullptr, nullptr, true);
        if (core != c) t.byCore[hashBytes(core.data(), core.size())] = idx;
        f.size = c.size();
        t.frames.push_back(std::move(f));
        t.nextPts += ptsStep;
        frameCount++;
        probe("frames_published");
        tlog("publish frame #%d track %d key %d size %zu", idx, ti, key, data.size());
    }
    NodeScope ns(1);
    if (t.gen.csdSeparate && (!t.csdSent || newCsd) && P.state == State::Connected) {
        std::vector<srtc::ByteBuffer> v;
        {
            Kernel k;
            for (auto& c : t.gen.csd) {
                Bytes x{ 0, 0, 0, 1 };
                x.insert(x.end(), c.begin(), c.end());
                v.emplace_back(x.data(), x.size());
            }
            t.csdSent = true;
        }
        (void)P.pc->setVideoCodecSpecificData(t.pub, std::move(v));
    }
    if (t.gen.csdSeparate && P.state != State::Connected) t.csdSent = false;
    srtc::ByteBuffer b(data.data(), data.size());
    const i64 pts = t.frames[idx].pts;
    auto e = t.video ? P.pc->publishVideoFrame(t.pub, pts, std::move(b), absCap) : P.pc->publishAudioFrame(t.pub, pts, std::move(b), absCap);
    Kernel k;
    auto& f = t.frames[idx];
    f.ret = now();
    if (e.isError() || P.state != State::Connected) f.connected = false;
    if (f.connected) t.connectedFrames++;
    return true;
}
bool World::allDelivered(int ti, size_t from)
{
    for (size_t i = from; i < tracks[ti].frames.size(); i++)
        if (tracks[ti].frames[i].connected && !tracks[ti].frames[i].delivered) return false;
    return true;
}

// ------------------------------------------------------------------ closing
void World::close(Peer& p)
{
    Use use(p);
    if (!use.ok || p.closed) return;
    {
        Kernel k;
        p.closeCalled = true;
        p.closeCalledAt = now();
        tlog("node %d close()", p.node);
    }
    {
        NodeScope ns(p.node);
        p.pc->close();
    }
    Kernel k;
    p.closed = true;
    tlog("node %d close() returned", p.node);
    checkLifecycleFinal(p);
}
void World::destroy(Peer& p)
{
    if (!p.pc || p.gone) return;
    p.gone = true;
    while (p.users > 0) sleepFor(100 * US);
    race::acquire(&p.users);
    NodeScope ns(p.node);
    if (!p.closed) {
        Kernel k;
        p.closeCalled = true;
        p.closeCalledAt = now();
    }
    p.pc.reset();
    Kernel k;
    if (!p.closed) {
        p.closed = true;
        checkLifecycleFinal(p);
    }
}
void World::checkLifecycleFinal(Peer& p)
{
    if (!wanted("C13")) return;
    checked();
    if (p.started && !p.terminal) fail("C13", "no-terminal-state", "node %d: close() returned but neither Closed nor Failed was ever reported (last state %s)", p.node, stateName(p.state));
}
void World::finish()
{
    close(P);
    close(S);
    sleepFor(50 * MS);
    destroy(P);
    destroy(S);
}

// ------------------------------------------------------------------ wire
// C30: what a path with the IPv6 minimum MTU carries: 1280 - 40 (IP) - 8 (UDP). Media frames which are not split up
// (audio) are judged only if they fit on their own.
static constexpr size_t kPathLimit = 1280 - 40 - 8;
void World::sizeOracle(const net::Dgram& d)
{
    static const char* names[] = { "STUN", "DTLS", "RTP", "RTCP", "other" };
    const int c = d.cls == net::STUN ? 0 : d.cls == net::DTLS ? 1 : d.cls == net::RTP ? 2 : d.cls == net::RTCP ? 3 : 4;
    if (d.data.size() > 1100) probe(c == 1 ? "large_dtls" : c == 2 ? "large_rtp" : c == 3 ? "large_rtcp" : "large_other");
    if (d.data.size() > kPathLimit)
        fail("C30", (std::string("oversize-") + names[c]).c_str(), "node %d sent a %s datagram of %zu bytes; the path carries %zu", d.from, names[c], d.data.size(), kPathLimit);
}
void World::wireSend(const net::Dgram& d)
{
    if (onSend) onSend(d);
    if (d.cls != net::RTP && wanted("C30")) sizeOracle(d);
    if (!observeWire || (d.cls != net::RTP && d.cls != net::RTCP)) return;
    auto& o = obs[d.from];
    if (!o.srtp.ready()) {
        const bool server = d.from == 1 ? !cfg.subIsServer : cfg.subIsServer;
        wire::initSrtp(o.srtp, d.from, server);
        if (!o.srtp.ready()) return;
    }
    WirePkt w;
    w.dg = d.id;
    w.t = now();
    w.node = d.from;
    w.size = d.data.size();
    Bytes plain;
    if (d.cls == net::RTP) {
        if (!o.rtp(d.data, plain, w.index)) {
            undecodable = true;
            probe("wire_undecodable");
            return;
        }
        w.rtp = wire::parseRtp(plain);
        w.plainSize = plain.size();
        probe("wire_rtp");
        for (auto& t : tracks) {
            if (w.rtp.ssrc == t.ssrc) w.track = t.index;
            if (t.rtxSsrc && w.rtp.ssrc == t.rtxSsrc) {
                w.track = t.index;
                w.retransmission = true;
                if (w.rtp.payload.size() >= 2) w.origSeq = wire::be16(w.rtp.payload.data());
            }
        }
    } else {
        w.isRtcp = true;
        if (!o.rtcp(d.data, plain, w.rtcpIndex)) {
            undecodable = true;
            probe("wire_undecodable");
            return;
        }
        w.plainSize = plain.size();
        w.rtcp = wire::parseRtcp(plain);
        probe("wire_rtcp");
    }
    if (!w.isRtcp && w.track >= 0) mapFrame(w);
    if (wanted("C30") && (w.track < 0 || tracks[w.track].codec != srtc::Codec::Opus || w.rtp.payload.size() <= 1060)) sizeOracle(d);
    wirePkts.push_back(std::move(w));
    byDg[d.id] = &wirePkts.back();
    if (onWire) onWire(wirePkts.back());
}
// Which published frame does a media packet belong to? Matched through the RTP timestamp, independent of the code.
void World::mapFrame(WirePkt& w)
{
    auto& t = tracks[w.track];
    if (w.retransmission) {
        auto it = mSeqMap.find((u64)w.track << 32 | w.origSeq);
        if (it != mSeqMap.end()) w.frame = it->second.second;
        return;
    }
    if (!t.wireTs || w.rtp.ts != t.wireLastTs) {
        int f = -1;
        if (!t.wireTs) {
            for (size_t i = 0; i < t.frames.size() && f < 0; i++)
                if (t.frames[i].connected) f = (int)i;
        } else {
            // the nearest frame whose presentation time fits, later ones first
            auto& base = t.frames[t.wireFrame];
            i64 best = 4;
            for (int i = std::max(0, t.wireFrame - 40); i < (int)t.frames.size(); i++) {
                const i64 want = (i64)((__int128)(t.frames[i].pts - base.pts) * t.clock / 1000000);
                const i64 d = std::abs((i64)(int32_t)(w.rtp.ts - t.wireLastTs - (uint32_t)want));
                if (d < best || (d == best && i == t.wireFrame + 1)) {
                    best = d;
                    f = i;
                }
            }
        }
        if (f >= 0) {
            t.wireTs = true;
            t.wireLastTs = w.rtp.ts;
            t.wireFrame = f;
        }
        w.frame = f;
    } else {
        w.frame = t.wireFrame;
    }
    if (w.frame >= 0) {
        auto& f = t.frames[w.frame];
        if (!f.wireSeen) {
            f.wireSeen = true;
            f.rtpTs = w.rtp.ts;
            f.firstSent = now();
            f.firstSeq = w.rtp.seq;
        }
        f.packets++;
        f.lastSent = now();
        mSeqMap[(u64)w.track << 32 | w.rtp.seq] = { w.track, w.frame };
    }
}
void World::wireDeliver(const net::Dgram& d)
{
    if (onDeliver) onDeliver(d);
    if (!observeWire || !d.genuine || d.injected) return;
    auto it = byDg.find(d.id);
    if (it == byDg.end()) return;
    it->second->arrivals++;
    if (it->second->arrived < 0) {
        it->second->arrived = now();
        if (it->second->track >= 0 && it->second->frame >= 0) {
            auto& f = tracks[it->second->track].frames[it->second->frame];
            f.lastArrival = std::max(f.lastArrival, now());
        }
    }
}
void World::wireDrop(const net::Dgram& d, const char* why)
{
    if (onDropHook) onDropHook(d, why);
    if (!observeWire) return;
    auto it = byDg.find(d.id);
    if (it != byDg.end()) {
        it->second->lost = true;
        if (it->second->track >= 0 && it->second->frame >= 0 && !it->second->retransmission) tracks[it->second->track].frames[it->second->frame].lostPackets++;
    }
}

void World::skipSequence(int ti, int n)
{
    NodeScope ns(1);
    Kernel k;
    auto src = tracks[ti].pub->getRtpPacketSource();
    for (int i = 0; i < n; i++) {
        auto [roc, seq] = src->getNextSequence();
        (void)roc;
        if ((i & 8191) == 8191) obs[1].streams[tracks[ti].ssrc].high += 8192;
        (void)seq;
    }
    tlog("skipped %d sequence numbers of track %d", n, ti);
}
// moves the next sequence number close to the wrap by consuming numbers through the public interface
void World::advanceSequence(int ti, int before, bool rtxToo, int beforeRtx)
{
    NodeScope ns(1);
    Kernel k;
    auto src = tracks[ti].pub->getRtpPacketSource();
    for (int i = 0; i < 70000; i++) {
        auto [roc, seq] = src->getNextSequence();
        if (roc > 0) break;
        if ((int)seq >= 65535 - before) break;
    }
    if (rtxToo && tracks[ti].rtxSsrc) {
        auto rs = tracks[ti].pub->getRtxPacketSource();
        if (rs)
            for (int i = 0; i < 70000; i++) {
                auto [roc, seq] = rs->getNextSequence();
                if (roc > 0 || (int)seq >= 65535 - beforeRtx) break;
            }
    }
}
void World::advanceTimestamp(int ti, i64 ticksBefore)
{
    NodeScope ns(1);
    Kernel k;
    auto& t = tracks[ti];
    auto ts = t.pub->getRtpTimeSource();
    const uint32_t cur = ts->getFrameTimestamp(t.nextPts);
    const u64 dist = (0x100000000ULL - cur) - (u64)ticksBefore;
    t.nextPts += (i64)((__int128)dist * 1000000 / t.clock);
    (void)ts->getFrameTimestamp(t.nextPts);
}

// ------------------------------------------------------------------ helpers
Line videoLine(const std::string& id, srtc::Codec c)
{
    Line l;
    l.id = id;
    l.codec = c;
    return l;
}
Line audioLine(const std::string& id)
{
    Line l;
    l.id = id;
    l.video = false;
    l.codec = srtc::Codec::Opus;
    return l;
}
srtc::Codec pickVideoCodec(const char* n)
{
    static const srtc::Codec c[] = { srtc::Codec::H264, srtc::Codec::VP8, srtc::Codec::H265, srtc::Codec::VP9, srtc::Codec::AV1 };
    return c[param(n) % 5];
}
void pickProfile()
{
    static const char* const p[] = { "", "SRTP_AEAD_AES_128_GCM", "SRTP_AEAD_AES_256_GCM", "SRTP_AES128_CM_SHA1_80", "SRTP_AES128_CM_SHA1_32" };
    wire::forceProfiles = p[param("srtp_profile") % 5];
}
void pickNet(double scale)
{
    auto& a = net::dir(1, 2);
    auto& b = net::dir(2, 1);
    const i64 base = paramBool("slow_path", 0.2) ? paramRange("lat_slow", 60 * MS, 150 * MS) : paramRange("lat", 200 * US, 40 * MS);
    a.latency = (i64)((double)base * scale);
    b.latency = a.latency + paramRange("lat_asym", 0, 5 * MS);
    a.jitter = paramRange("jit_a", 0, 3 * MS);
    b.jitter = paramRange("jit_b", 0, 3 * MS);
}
void schedFaults(double scale)
{
    const int mode = (int)(param("sched_mode") % 4);
    if (mode == 0) {
        setRate(F_PREEMPT, 0.002 * scale);
        setRate(F_PICK, 0.02 * scale);
    } else if (mode == 1) {
        setRate(F_PREEMPT, 0.05 * scale);
        setRate(F_PICK, 0.2 * scale);
        setRate(F_BBPREEMPT, 1e-5 * scale);
    } else if (mode == 2) {
        setRate(F_PREEMPT, 0.01 * scale);
        setRate(F_PICK, 0.1 * scale);
        setRate(F_BBPREEMPT, 1e-4 * scale);
    } else {
        setRate(F_PREEMPT, 0.0005 * scale);
        setRate(F_OVERSLEEP, 0.01 * scale);
    }
    setRate(F_EPOLLORD, 0.05);
}
size_t pickSize(u64 h, bool key, bool video)
{
    const u64 r = h >> 8;
    if (!video) return h % 32 == 5 ? 1000 + r % 276 : 10 + r % 400;
    switch (h % 8) {
    case 0:
        return 8 + r % 40;
    case 1:
        return 1100 + r % 140; // around one packet
    case 2:
        return 2300 + r % 300;
    case 3:
        return key ? 20000 + r % 60000 : 5000 + r % 12000;
    default:
        return key ? 4000 + r % 12000 : 300 + r % 3000;
    }
}
void Load::run(i64 duration, const std::function<void()>& tick)
{
    const i64 end = now() + duration;
    {
        Kernel k;
        if (nextAt.empty())
            for (auto& t : w.tracks) {
                nextAt.push_back(now() + (i64)(hash3(seed(), 0x10ad, t.index) % (u64)(20 * MS)));
                perTrack.push_back(0);
                ptsOff.push_back(0);
            }
    }
    while (true) {
        size_t best = 0;
        for (size_t i = 1; i < nextAt.size(); i++)
            if (nextAt[i] < nextAt[best]) best = i;
        if (nextAt[best] >= end) break;
        if (nextAt[best] > now()) sleepUntil(nextAt[best]);
        auto& t = w.tracks[best];
        const u64 i = perTrack[best]++;
        const u64 h = hash3(seed(), 0x512e + best, i);
        const i64 period = t.video ? SEC / fps : audioPeriod;
        i64 ptsStep = period / 1000;
        if (!fixedSize && irregular) { // jitter of the source, without drift
            const i64 j = (i64)(hash3(seed(), 0x9175 + best, i) % (u64)(period / 2000)) - period / 4000;
            const i64 step = std::max<i64>(ptsStep + j - ptsOff[best], 1000); // (the rate may have changed since)
            ptsOff[best] += step - ptsStep;
            ptsStep = step;
        }
        if (w.ptsJumps && (h >> 23) % 128 == 0) ptsStep += 2000000 + (i64)((h >> 33) % 3600000000ULL); // the source's clock jumps
        const bool key = !t.video || i % (u64)keyEvery == 0;
        size_t size = pickSize(h, key, t.video);
        if (!bigFrames && size > 30000) size = 30000;
        size = std::max<size_t>(8, (size_t)((double)size * sizeScale));
        if (fixedSize) size = fixedSize;
        const int slices = !fixedSize && t.video && (h >> 40) % 4 == 0 ? 2 + (int)((h >> 44) % 3) : 1;
        const bool newCsd = !fixedSize && (h >> 50) % 6 == 0;
        uint64_t absCap = 0;
        if (w.cfg.absCap && (h >> 55) % 3 != 0) absCap = 0xe000000000000000ULL + (h >> 12);
        w.publish((int)best, key, size, slices, newCsd, ptsStep, absCap);
        nextAt[best] += period;
        if (nextAt[best] < now() - 200 * MS) nextAt[best] = now(); // the driver was stalled
        if (tick) tick();
    }
    if (now() < end) sleepUntil(end);
}
} // namespace world
