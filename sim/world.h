// Two PeerConnections (publisher = node 1, subscriber = node 2) joined by the simulated network, with oracles.
#pragma once
#include "harness.h"
#include "media.h"
#include "net.h"
#include "race.h"
#include "wire.h"
#include "srtc/data_channel_message.h"
#include "srtc/encoded_frame.h"
#include "srtc/peer_connection.h"
#include "srtc/sender_report.h"
#include "srtc/track.h"
#include <deque>
#include <set>
#include <unordered_map>

namespace world
{
using namespace sim;
using net::Bytes;
using State = srtc::PeerConnection::ConnectionState;

struct Line {
    std::string id;
    bool video = true;
    srtc::Codec codec = srtc::Codec::H264;
    std::vector<srtc::SimulcastLayer> layers;
    bool csdSeparate = false, threeByte = false, av1Ext = false;
    bool nack = true, pli = true;
};
struct Cand {
    net::Addr dialedByP, dialedByS;
    bool linked = true;
};
struct Config {
    std::vector<Line> lines;
    bool rtx = true, bwe = false, absCap = false, rfc8851 = false;
    int pliInterval = 2000, jbLength = 0, nackDelay = 0;
    std::vector<std::string> pubLabels, subLabels;
    std::vector<Cand> cands; // empty: one linked IPv4 candidate
    bool subIsServer = false;
    int wrongHow = 0;
    int wrongFingerprint = 0; // node whose certificate is misrepresented to the other side
    bool wrongPasswordP = false;
    int maxMessageSize = 262144;
    bool inlineOracles = true;
};

struct PubFrame {
    u64 id = 0;
    int track = 0;
    i64 pts = 0;
    i64 at = 0;     // simulated time of the call
    i64 ret = 0;
    bool key = false;
    bool connected = false; // the publisher had reported Connected
    uint64_t absCap = 0;
    size_t size = 0;
    std::vector<Bytes> csd; // parameter sets in force
    bool delivered = false;
    i64 deliveredAt = 0;
    int deliveries = 0;
    uint32_t rtpTs = 0; // from the wire
    int packets = 0;
    bool wireSeen = false;
    i64 firstSent = 0, lastSent = 0;
    i64 lastArrival = 0; // arrival of the last of its packets
    int lostPackets = 0;
    uint16_t firstSeq = 0;
};
struct TrackInfo {
    int index = 0, line = 0;
    std::string pubId, subId, layer;
    bool video = true;
    srtc::Codec codec = srtc::Codec::H264;
    uint32_t ssrc = 0, rtxSsrc = 0;
    int payload = 0, rtxPayload = 0;
    int clock = 90000;
    media::Gen gen;
    std::shared_ptr<srtc::Track> pub, sub;
    std::vector<PubFrame> frames;
    std::unordered_map<u64, int> byHash, byCore; // byCore: without supplemental information
    i64 lastDelivered = -1;
    std::map<u64, int> dupFrames;
    bool haveTs = false;
    u64 firstTsExt = 0;
    i64 firstTsPts = 0;
    i64 nextPts = 0;
    bool csdSent = false;
    u64 delivered = 0;
    u64 connectedFrames = 0;
    // matching of RTP timestamps on the wire to frames
    bool wireTs = false;
    uint32_t wireLastTs = 0;
    int wireFrame = -1;
};
struct StateRec {
    i64 t;
    State s;
};
struct Msg {
    u64 id;
    bool text;
    Bytes data;
    std::string label;
    i64 at, ret;
    bool connected;
    bool opened; // the label had been announced open on the sending side
    int delivered = 0;
    i64 deliveredAt = 0;
};
struct DcEvent {
    i64 t;
    int kind; // 0 opened, 1 closed, 2 text, 3 binary
    std::string label;
    int msg; // index in the other side's sent list, or -1
};
struct Peer {
    int node = 0;
    std::shared_ptr<srtc::PeerConnection> pc;
    std::shared_ptr<srtc::SdpOffer> offer;
    std::shared_ptr<srtc::SdpAnswer> answer;
    std::string ufrag, pwd, fingerprint;
    std::vector<StateRec> states;
    State state = State::Inactive;
    bool started = false, closeCalled = false, closed = false; // close() returned
    i64 closeCalledAt = 0;
    bool terminal = false;
    i64 lastAuthentic = 0;
    std::vector<DcEvent> dc;
    std::vector<Msg> sent;
    size_t deliveredCount = 0; // of those sent
    std::map<u64, std::vector<int>> sentByHash;
    std::set<std::string> openedLabels;
    u64 keyReq = 0;
    std::vector<i64> keyReqTimes;
    std::vector<std::pair<i64, srtc::PublishConnectionStats>> pubStats;
    std::vector<std::pair<i64, srtc::SubscribeConnectionStats>> subStats;
    struct Sr {
        i64 t;
        uint32_t ssrc;
        srtc::SenderReport sr;
    };
    std::vector<Sr> srs;
    int inCallback = 0;
    int users = 0;     // threads inside a call of the API
    bool gone = false; // about to be destroyed: no more calls
};

class World;
struct Reenter { // declare before a Kernel: it ends afterwards
    World& w;
    Peer& p;
    Reenter(World& a, Peer& b) : w(a), p(b) {}
    ~Reenter();
};
// an application does not destroy a connection while another of its threads is calling it
struct Use {
    Peer& p;
    bool ok;
    explicit Use(Peer& peer) : p(peer)
    {
        Kernel k;
        ok = p.pc && !p.gone;
        if (ok) p.users++;
    }
    ~Use()
    {
        if (ok) race::release(&p.users); // the application's own synchronisation with destroy()
        Kernel k;
        if (ok) p.users--;
    }
};

// everything the wire observer decoded
struct WirePkt {
    u64 dg = 0;
    i64 t = 0;
    int node = 0;
    bool isRtcp = false;
    wire::Rtp rtp;
    u64 index = 0;
    std::vector<wire::Rtcp> rtcp;
    uint32_t rtcpIndex = 0;
    size_t size = 0, plainSize = 0;
    bool retransmission = false;
    uint16_t origSeq = 0;
    int track = -1;
    int frame = -1;
    i64 arrived = -1; // first genuine arrival
    int arrivals = 0;
    bool lost = false; // dropped by the network
};

class World
{
public:
    Config cfg;
    Peer P, S;
    std::vector<TrackInfo> tracks;
    std::set<std::string> also; // oracles reported under plan().prop as well
    bool observeWire = false;
    bool ptsJumps = false; // the presentation times jump ahead now and then
    bool lossless = false; // frames must arrive with everything they were published with
    std::deque<WirePkt> wirePkts;
    std::unordered_map<u64, WirePkt*> byDg;
    wire::Observer obs[3];
    bool undecodable = false;
    u64 frameCount = 0;
    i64 healAt = 0;
    bool ownPolicy = false;
    std::function<void(TrackInfo&, PubFrame&)> onFrame;
    std::function<void(Peer&, State)> onState;
    std::function<void(WirePkt&)> onWire;
    std::function<void(const net::Dgram&)> onSend, onDeliver;
    void sizeOracle(const net::Dgram& d);
    std::set<std::string> unorderedLabels; // channels opened as unordered: messages may overtake each other
    std::function<void(const net::Dgram&, const char*)> onDropHook;
    std::function<void(Peer&, const DcEvent&)> onDc;
    std::function<void(Peer&)> onStats, onKeyReq;
    std::function<void(const Peer::Sr&)> onSr;
    std::function<void(Peer&)> reenter; // called on the network thread at the end of every callback, may call the API

    explicit World(const Config& c);
    ~World();
    void offers();
    void answers();
    void startPeer(Peer& p); // setAnswer
    void start(); // offers, answers, both set
    bool waitState(Peer& p, State s, i64 timeout);
    bool waitBoth(State s, i64 timeout);
    bool publish(int track, bool key, size_t size, int slices = 1, bool newCsd = false, i64 ptsStep = 33333, uint64_t absCap = 0);
    bool sendMsg(Peer& p, const std::string& label, bool text, size_t size);
    void close(Peer& p);
    void destroy(Peer& p);
    void finish(); // close both, final life-cycle oracle
    Peer& other(Peer& p) { return p.node == 1 ? S : P; }
    bool wanted(const char* prop) const;
    [[noreturn]] void fail(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    void advanceSequence(int track, int before, bool rtxToo, int beforeRtx = -1);
    void advanceTimestamp(int track, i64 ticksBefore);
    void skipSequence(int track, int n); // as if n packets had been sent and lost
    bool allDelivered(int track, size_t from = 0);
    void mapFrame(WirePkt& w);
    void setupNet();
    std::string answerFor(bool forP);
    void checkLifecycleFinal(Peer& p);
    void checkMessagesDelivered(Peer& from, const char* prop);
    void messageOracle(Peer& p, const std::string& label, bool text, const uint8_t* d, size_t n);

    void installP(); // set all listeners
    void installS();
    void installDc(Peer& p);

private:
    void stateChange(Peer& p, State s);
    void callbackGuard(Peer& p, const char* what);
    void frameOracle(const std::shared_ptr<srtc::EncodedFrame>& f);
    void wireSend(const net::Dgram& d);
    void wireDeliver(const net::Dgram& d);
    void wireDrop(const net::Dgram& d, const char* why);
    std::unordered_map<u64, std::pair<int, int>> mSeqMap; // (track, extended-ish seq) -> frame
};

const char* stateName(State s);
// random configuration helpers (from run parameters)
Line videoLine(const std::string& id, srtc::Codec c);
Line audioLine(const std::string& id);
srtc::Codec pickVideoCodec(const char* pname);
void pickProfile();
void pickNet(double scale); // latency, jitter for both directions
void schedFaults(double scale); // scheduling deviations
size_t pickSize(u64 h, bool key, bool video);

// a paced media workload run on the calling (driver) thread
struct Load {
    World& w;
    int fps = 30;
    int keyEvery = 30;
    bool bigFrames = false;
    double sizeScale = 1.0;
    size_t fixedSize = 0; // all frames of this size and shape
    i64 audioPeriod = 20 * MS;
    i64 t0 = 0;
    u64 n = 0;
    std::vector<u64> perTrack;
    std::vector<i64> nextAt, ptsOff;
    bool irregular;
    explicit Load(World& world) : w(world), irregular(paramBool("irregular_source", 0.3)) {}
    void run(i64 duration, const std::function<void()>& tick = nullptr);
};
} // namespace world
