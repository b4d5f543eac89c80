// Independent view of the wire: SRTP/SRTCP keys, decryption, encryption, RTP/RTCP/STUN parsing.
#pragma once
#include "net.h"
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace wire
{
using net::Bytes;
using sim::i64;
using sim::u64;

struct Rtp {
    bool ok = false;
    bool marker = false, padding = false, hasExt = false;
    int pt = 0;
    uint16_t seq = 0;
    uint32_t ts = 0, ssrc = 0;
    uint16_t extProfile = 0;
    Bytes ext;     // raw extension body
    Bytes payload; // without padding
    int padLen = 0;
    size_t headerSize = 0;
    // parsed one/two byte extension elements
    std::map<int, Bytes> extMap() const;
};
Rtp parseRtp(const Bytes& plain);
size_t rtpHeaderSize(const Bytes& b); // 0 when malformed

struct Rtcp {
    int pt = 0, rc = 0;
    uint32_t ssrc = 0;
    Bytes body; // after the 8-byte header
};
std::vector<Rtcp> parseRtcp(const Bytes& plain);

// keys of one DTLS session
struct Keys {
    bool have = false;
    int profile = 0;
    Bytes key[2], salt[2]; // [0] written by the DTLS client, [1] by the DTLS server
};
struct Derived {
    Bytes rtpKey, rtpAuth, rtpSalt, rtcpKey, rtcpAuth, rtcpSalt;
};
class Srtp
{
public:
    bool init(int profile, const Bytes& key, const Bytes& salt);
    bool ready() const { return mReady; }
    int tagLen() const { return mTag; }
    bool unprotectRtp(const Bytes& in, uint32_t roc, Bytes& out) const;
    bool protectRtp(const Bytes& plain, uint32_t roc, Bytes& out) const;
    bool unprotectRtcp(const Bytes& in, Bytes& out, uint32_t& index) const;
    bool protectRtcp(const Bytes& plain, uint32_t index, Bytes& out) const;

private:
    bool mReady = false, mGcm = false;
    int mProfile = 0, mTag = 0, mKeyLen = 16;
    Derived d;
};

// session observer: decrypts everything a node sends, tracking the rollover counter per SSRC in send order
struct Observer {
    struct Stream {
        bool init = false;
        u64 high = 0; // highest extended sequence number
    };
    Srtp srtp;
    std::map<uint32_t, Stream> streams;
    // index (roc<<16|seq) is returned in `index`
    bool rtp(const Bytes& in, Bytes& plain, u64& index);
    bool rtcp(const Bytes& in, Bytes& plain, uint32_t& index) { return srtp.unprotectRtcp(in, plain, index); }
};

// the keys exported by nodes during DTLS; index = node
extern std::map<int, Keys> sessionKeys;
extern std::map<int, int> keyExports;
extern std::function<void(int node, Bytes&)> sslWrite; // change what a node writes into its DTLS session
extern int certless; // this node has no certificate to show
extern std::string forceProfiles; // non-empty: restrict the offered SRTP profiles
void initSrtp(Srtp& s, int node, bool writtenByServer);

// STUN
struct Stun {
    bool ok = false;
    int type = 0;
    Bytes tid; // 12 bytes
    std::string username;
    bool hasIntegrity = false, hasFingerprint = false, useCandidate = false;
    bool fingerprintOk = false;
    size_t integrityOffset = 0;
    int errorCode = 0;
};
Stun parseStun(const Bytes& b);
bool stunIntegrityOk(const Bytes& b, const std::string& key);
Bytes makeStun(int type, const Bytes& tid, const std::string& username, const std::string& key, bool integrity, bool fingerprint, bool useCandidate, bool controlling, const net::Addr* xorMapped = nullptr);
uint32_t crc32(const uint8_t* p, size_t n);
uint32_t crc32c(const uint8_t* p, size_t n);
void fixSctp(Bytes& b); // set the checksum
inline uint16_t be16(const uint8_t* p) { return (uint16_t)(p[0] << 8 | p[1]); }
inline uint32_t be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
inline void put16(Bytes& b, uint32_t v)
{
    b.push_back((uint8_t)(v >> 8));
    b.push_back((uint8_t)v);
}
inline void put32(Bytes& b, uint32_t v)
{
    put16(b, v >> 16);
    put16(b, v & 0xffff);
}
} // namespace wire
