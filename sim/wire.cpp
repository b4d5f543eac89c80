#include "wire.h"
#include <arpa/inet.h>
#include <cstring>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/srtp.h>
#include <openssl/ssl.h>

using namespace sim;

namespace wire
{
std::map<int, Keys> sessionKeys;
std::function<void(int node, Bytes&)> sslWrite;
uint32_t crc32c(const uint8_t* p, size_t n)
{
    uint32_t c = 0xffffffffu;
    for (size_t i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1;
    }
    return ~c;
}
void fixSctp(Bytes& b)
{
    if (b.size() < 12) return;
    memset(&b[8], 0, 4);
    const uint32_t c = crc32c(b.data(), b.size());
    for (int i = 0; i < 4; i++) b[8 + i] = (uint8_t)(c >> (8 * i));
}
std::map<int, int> keyExports;
int certless = 0;
std::string forceProfiles;

size_t rtpHeaderSize(const Bytes& b)
{
    if (b.size() < 12 || (b[0] >> 6) != 2) return 0;
    size_t h = 12 + 4 * (b[0] & 15);
    if (b[0] & 0x10) {
        if (b.size() < h + 4) return 0;
        h += 4 + 4 * (size_t)be16(&b[h + 2]);
    }
    return h <= b.size() ? h : 0;
}
Rtp parseRtp(const Bytes& b)
{
    Rtp r;
    r.headerSize = rtpHeaderSize(b);
    if (!r.headerSize) return r;
    r.padding = b[0] & 0x20;
    r.hasExt = b[0] & 0x10;
    r.marker = b[1] & 0x80;
    r.pt = b[1] & 0x7f;
    r.seq = be16(&b[2]);
    r.ts = be32(&b[4]);
    r.ssrc = be32(&b[8]);
    if (r.hasExt) {
        size_t h = 12 + 4 * (b[0] & 15);
        r.extProfile = be16(&b[h]);
        r.ext.assign(b.begin() + h + 4, b.begin() + r.headerSize);
    }
    size_t end = b.size();
    if (r.padding) {
        if (end <= r.headerSize) return r;
        r.padLen = b[end - 1];
        if (r.padLen == 0 || r.headerSize + r.padLen > end) return r;
        end -= r.padLen;
    }
    r.payload.assign(b.begin() + r.headerSize, b.begin() + end);
    r.ok = true;
    return r;
}
std::map<int, Bytes> Rtp::extMap() const
{
    std::map<int, Bytes> m;
    size_t i = 0;
    if (extProfile == 0xBEDE) {
        while (i < ext.size()) {
            int id = ext[i] >> 4, len = (ext[i] & 15) + 1;
            if (ext[i] == 0) {
                i++;
                continue;
            }
            if (id == 15 || i + 1 + len > ext.size()) break;
            m[id] = Bytes(ext.begin() + i + 1, ext.begin() + i + 1 + len);
            i += 1 + len;
        }
    } else if ((extProfile & 0xfff0) == 0x1000) {
        while (i + 1 < ext.size()) {
            int id = ext[i];
            if (id == 0) {
                i++;
                continue;
            }
            int len = ext[i + 1];
            if (i + 2 + len > ext.size()) break;
            m[id] = Bytes(ext.begin() + i + 2, ext.begin() + i + 2 + len);
            i += 2 + len;
        }
    }
    return m;
}
std::vector<Rtcp> parseRtcp(const Bytes& p)
{
    std::vector<Rtcp> v;
    size_t i = 0;
    while (i + 8 <= p.size()) {
        size_t len = 4 * ((size_t)be16(&p[i + 2]) + 1);
        if (i + len > p.size() || len < 8) break;
        Rtcp r;
        r.rc = p[i] & 31;
        r.pt = p[i + 1];
        r.ssrc = be32(&p[i + 4]);
        r.body.assign(p.begin() + i + 8, p.begin() + i + len);
        v.push_back(r);
        i += len;
    }
    return v;
}

// ------------------------------------------------------------------ SRTP (RFC 3711, RFC 7714)
static Bytes aesCtr(const Bytes& key, const uint8_t iv[16], const uint8_t* in, size_t n)
{
    Bytes out(n + 16);
    auto c = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(c, key.size() == 32 ? EVP_aes_256_ctr() : EVP_aes_128_ctr(), nullptr, key.data(), iv);
    int l = 0;
    EVP_EncryptUpdate(c, out.data(), &l, in, (int)n);
    EVP_CIPHER_CTX_free(c);
    out.resize(n);
    return out;
}
static Bytes kdf(const Bytes& key, const Bytes& salt, int label, size_t n)
{
    uint8_t iv[16] = {};
    memcpy(iv, salt.data(), std::min<size_t>(salt.size(), 14)); // a 12-byte salt is left-aligned (RFC 7714: padded on the right)
    iv[7] ^= (uint8_t)label;
    Bytes z(n, 0);
    return aesCtr(key, iv, z.data(), n);
}
bool Srtp::init(int profile, const Bytes& key, const Bytes& salt)
{
    mProfile = profile;
    mGcm = profile == SRTP_AEAD_AES_128_GCM || profile == SRTP_AEAD_AES_256_GCM;
    mTag = mGcm ? 16 : profile == SRTP_AES128_CM_SHA1_32 ? 4 : 10;
    mKeyLen = (int)key.size();
    const size_t sl = mGcm ? 12 : 14;
    d.rtpKey = kdf(key, salt, 0, key.size());
    d.rtpAuth = kdf(key, salt, 1, 20);
    d.rtpSalt = kdf(key, salt, 2, sl);
    d.rtcpKey = kdf(key, salt, 3, key.size());
    d.rtcpAuth = kdf(key, salt, 4, 20);
    d.rtcpSalt = kdf(key, salt, 5, sl);
    mReady = true;
    return true;
}
static Bytes hmac(const Bytes& key, const uint8_t* p, size_t n, const uint8_t* q, size_t m)
{
    Bytes all(p, p + n);
    all.insert(all.end(), q, q + m);
    Bytes out(20);
    unsigned l = 20;
    HMAC(EVP_sha1(), key.data(), (int)key.size(), all.data(), all.size(), out.data(), &l);
    return out;
}
static bool gcm(bool enc, const Bytes& key, const uint8_t iv[12], const Bytes& aad, const uint8_t* in, size_t n, uint8_t* tag, Bytes& out)
{
    auto c = EVP_CIPHER_CTX_new();
    out.assign(n + 16, 0);
    auto ci = key.size() == 32 ? EVP_aes_256_gcm() : EVP_aes_128_gcm();
    int l = 0;
    EVP_CipherInit_ex(c, ci, nullptr, key.data(), iv, enc);
    EVP_CipherUpdate(c, nullptr, &l, aad.data(), (int)aad.size());
    if (n) EVP_CipherUpdate(c, out.data(), &l, in, (int)n);
    if (!enc) EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_TAG, 16, tag);
    int l2 = 0;
    int r = EVP_CipherFinal_ex(c, out.data() + n, &l2);
    if (enc) EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, tag);
    EVP_CIPHER_CTX_free(c);
    out.resize(n);
    return r > 0;
}
static void ivRtpCm(uint8_t iv[16], const Bytes& salt, uint32_t ssrc, uint32_t roc, uint16_t seq)
{
    memset(iv, 0, 16);
    memcpy(iv, salt.data(), 14);
    uint8_t t[16] = {};
    t[4] = ssrc >> 24, t[5] = ssrc >> 16, t[6] = ssrc >> 8, t[7] = (uint8_t)ssrc;
    t[8] = roc >> 24, t[9] = roc >> 16, t[10] = roc >> 8, t[11] = (uint8_t)roc;
    t[12] = seq >> 8, t[13] = (uint8_t)seq;
    for (int i = 0; i < 16; i++) iv[i] ^= t[i];
}
static void ivRtpGcm(uint8_t iv[12], const Bytes& salt, uint32_t ssrc, uint32_t roc, uint16_t seq)
{
    uint8_t t[12] = { 0, 0, (uint8_t)(ssrc >> 24), (uint8_t)(ssrc >> 16), (uint8_t)(ssrc >> 8), (uint8_t)ssrc, (uint8_t)(roc >> 24), (uint8_t)(roc >> 16), (uint8_t)(roc >> 8), (uint8_t)roc, (uint8_t)(seq >> 8), (uint8_t)seq };
    for (int i = 0; i < 12; i++) iv[i] = t[i] ^ salt[i];
}
bool Srtp::unprotectRtp(const Bytes& in, uint32_t roc, Bytes& out) const
{
    const size_t h = rtpHeaderSize(in);
    if (!h || in.size() < h + mTag) return false;
    const uint16_t seq = be16(&in[2]);
    const uint32_t ssrc = be32(&in[8]);
    if (mGcm) {
        uint8_t iv[12], tag[16];
        ivRtpGcm(iv, d.rtpSalt, ssrc, roc, seq);
        memcpy(tag, &in[in.size() - 16], 16);
        Bytes pl;
        if (!gcm(false, d.rtpKey, iv, Bytes(in.begin(), in.begin() + h), &in[0] + h, in.size() - h - 16, tag, pl)) return false;
        out.assign(in.begin(), in.begin() + h);
        out.insert(out.end(), pl.begin(), pl.end());
        return true;
    }
    uint8_t r[4] = { (uint8_t)(roc >> 24), (uint8_t)(roc >> 16), (uint8_t)(roc >> 8), (uint8_t)roc };
    auto m = hmac(d.rtpAuth, in.data(), in.size() - mTag, r, 4);
    if (memcmp(m.data(), &in[in.size() - mTag], mTag)) return false;
    uint8_t iv[16];
    ivRtpCm(iv, d.rtpSalt, ssrc, roc, seq);
    auto pl = aesCtr(d.rtpKey, iv, in.data() + h, in.size() - h - mTag);
    out.assign(in.begin(), in.begin() + h);
    out.insert(out.end(), pl.begin(), pl.end());
    return true;
}
bool Srtp::protectRtp(const Bytes& plain, uint32_t roc, Bytes& out) const
{
    const size_t h = rtpHeaderSize(plain);
    if (!h) return false;
    const uint16_t seq = be16(&plain[2]);
    const uint32_t ssrc = be32(&plain[8]);
    out.assign(plain.begin(), plain.begin() + h);
    if (mGcm) {
        uint8_t iv[12], tag[16];
        ivRtpGcm(iv, d.rtpSalt, ssrc, roc, seq);
        Bytes ct;
        gcm(true, d.rtpKey, iv, out, plain.data() + h, plain.size() - h, tag, ct);
        out.insert(out.end(), ct.begin(), ct.end());
        out.insert(out.end(), tag, tag + 16);
        return true;
    }
    uint8_t iv[16];
    ivRtpCm(iv, d.rtpSalt, ssrc, roc, seq);
    auto ct = aesCtr(d.rtpKey, iv, plain.data() + h, plain.size() - h);
    out.insert(out.end(), ct.begin(), ct.end());
    uint8_t r[4] = { (uint8_t)(roc >> 24), (uint8_t)(roc >> 16), (uint8_t)(roc >> 8), (uint8_t)roc };
    auto m = hmac(d.rtpAuth, out.data(), out.size(), r, 4);
    out.insert(out.end(), m.begin(), m.begin() + mTag);
    return true;
}
bool Srtp::unprotectRtcp(const Bytes& in, Bytes& out, uint32_t& index) const
{
    // for SRTCP the SHA1_32 profile also uses an 80-bit tag (RFC 5764)
    const size_t tagLen = mGcm ? 16 : 10;
    if (in.size() < 8 + 4 + tagLen) return false;
    const uint32_t ssrc = be32(&in[4]);
    if (mGcm) {
        const uint32_t e = be32(&in[in.size() - 4]);
        index = e & 0x7fffffff;
        Bytes aad(in.begin(), in.begin() + 8);
        aad.insert(aad.end(), in.end() - 4, in.end());
        uint8_t iv[12] = { 0, 0, (uint8_t)(ssrc >> 24), (uint8_t)(ssrc >> 16), (uint8_t)(ssrc >> 8), (uint8_t)ssrc, 0, 0, (uint8_t)(index >> 24), (uint8_t)(index >> 16), (uint8_t)(index >> 8), (uint8_t)index };
        for (int i = 0; i < 12; i++) iv[i] ^= d.rtcpSalt[i];
        uint8_t tag[16];
        memcpy(tag, &in[in.size() - 20], 16);
        Bytes pl;
        if (!gcm(false, d.rtcpKey, iv, aad, in.data() + 8, in.size() - 8 - 20, tag, pl)) return false;
        out.assign(in.begin(), in.begin() + 8);
        out.insert(out.end(), pl.begin(), pl.end());
        return true;
    }
    const size_t t = in.size() - tagLen;
    const uint32_t e = be32(&in[t - 4]);
    index = e & 0x7fffffff;
    auto m = hmac(d.rtcpAuth, in.data(), t, nullptr, 0);
    if (memcmp(m.data(), &in[t], tagLen)) return false;
    uint8_t iv[16];
    ivRtpCm(iv, d.rtcpSalt, ssrc, index >> 16, (uint16_t)index);
    auto pl = aesCtr(d.rtcpKey, iv, in.data() + 8, t - 4 - 8);
    out.assign(in.begin(), in.begin() + 8);
    out.insert(out.end(), pl.begin(), pl.end());
    return true;
}
bool Srtp::protectRtcp(const Bytes& plain, uint32_t index, Bytes& out) const
{
    if (plain.size() < 8) return false;
    const uint32_t ssrc = be32(&plain[4]);
    const uint32_t e = 0x80000000u | index;
    Bytes eb;
    put32(eb, e);
    out.assign(plain.begin(), plain.begin() + 8);
    if (mGcm) {
        Bytes aad = out;
        aad.insert(aad.end(), eb.begin(), eb.end());
        uint8_t iv[12] = { 0, 0, (uint8_t)(ssrc >> 24), (uint8_t)(ssrc >> 16), (uint8_t)(ssrc >> 8), (uint8_t)ssrc, 0, 0, (uint8_t)(index >> 24), (uint8_t)(index >> 16), (uint8_t)(index >> 8), (uint8_t)index };
        for (int i = 0; i < 12; i++) iv[i] ^= d.rtcpSalt[i];
        uint8_t tag[16];
        Bytes ct;
        gcm(true, d.rtcpKey, iv, aad, plain.data() + 8, plain.size() - 8, tag, ct);
        out.insert(out.end(), ct.begin(), ct.end());
        out.insert(out.end(), tag, tag + 16);
        out.insert(out.end(), eb.begin(), eb.end());
        return true;
    }
    uint8_t iv[16];
    ivRtpCm(iv, d.rtcpSalt, ssrc, index >> 16, (uint16_t)index);
    auto ct = aesCtr(d.rtcpKey, iv, plain.data() + 8, plain.size() - 8);
    out.insert(out.end(), ct.begin(), ct.end());
    out.insert(out.end(), eb.begin(), eb.end());
    auto m = hmac(d.rtcpAuth, out.data(), out.size(), nullptr, 0);
    out.insert(out.end(), m.begin(), m.begin() + 10);
    return true;
}
bool Observer::rtp(const Bytes& in, Bytes& plain, u64& index)
{
    if (!srtp.ready() || in.size() < 12) return false;
    const uint32_t ssrc = be32(&in[8]);
    const uint16_t seq = be16(&in[2]);
    auto& s = streams[ssrc];
    // candidates around the highest index seen in send order
    const u64 roc = s.high >> 16;
    u64 guess = roc;
    if (s.init) {
        const int diff = (int)seq - (int)(s.high & 0xffff);
        if (diff < -32768) guess = roc + 1;
        else if (diff > 32768 && roc > 0) guess = roc - 1;
    }
    if (!srtp.unprotectRtp(in, (uint32_t)guess, plain)) {
        bool ok = false;
        for (u64 g : { (u64)0, roc + 1, roc, roc ? roc - 1 : 0, roc + 2 })
            if (srtp.unprotectRtp(in, (uint32_t)g, plain)) {
                guess = g;
                ok = true;
                break;
            }
        if (!ok) return false;
    }
    index = guess << 16 | seq;
    if (!s.init || index > s.high) s.high = index;
    s.init = true;
    return true;
}
void initSrtp(Srtp& s, int node, bool writtenByServer)
{
    auto it = sessionKeys.find(node);
    if (it == sessionKeys.end() || !it->second.have) return;
    s.init(it->second.profile, it->second.key[writtenByServer], it->second.salt[writtenByServer]);
}

// ------------------------------------------------------------------ STUN
uint32_t crc32(const uint8_t* p, size_t n)
{
    uint32_t c = 0xffffffff;
    for (size_t i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1)));
    }
    return ~c;
}
Stun parseStun(const Bytes& b)
{
    Stun s;
    if (b.size() < 20 || b[0] > 3 || be32(&b[4]) != 0x2112A442) return s;
    s.type = be16(&b[0]);
    s.tid.assign(b.begin() + 8, b.begin() + 20);
    size_t i = 20;
    const size_t end = std::min<size_t>(b.size(), 20 + be16(&b[2]));
    while (i + 4 <= end) {
        const int t = be16(&b[i]);
        const size_t l = be16(&b[i + 2]);
        if (i + 4 + l > end) return s;
        if (t == 6) s.username.assign((const char*)&b[i + 4], l);
        if (t == 8) {
            s.hasIntegrity = true;
            s.integrityOffset = i;
        }
        if (t == 9 && l >= 4) s.errorCode = b[i + 6] * 100 + b[i + 7];
        if (t == 0x25) s.useCandidate = true;
        if (t == 0x8028 && l == 4) {
            s.hasFingerprint = true;
            s.fingerprintOk = (crc32(b.data(), i) ^ 0x5354554eu) == be32(&b[i + 4]);
        }
        i += 4 + ((l + 3) & ~(size_t)3);
    }
    s.ok = true;
    return s;
}
static Bytes hmacRaw(const std::string& key, const Bytes& b)
{
    Bytes out(20);
    unsigned l = 20;
    HMAC(EVP_sha1(), key.data(), (int)key.size(), b.data(), b.size(), out.data(), &l);
    return out;
}
bool stunIntegrityOk(const Bytes& b, const std::string& key)
{
    auto s = parseStun(b);
    if (!s.ok || !s.hasIntegrity || s.integrityOffset + 24 > b.size()) return false;
    Bytes c(b.begin(), b.begin() + s.integrityOffset);
    const size_t len = s.integrityOffset + 24 - 20;
    c[2] = len >> 8, c[3] = (uint8_t)len;
    auto m = hmacRaw(key, c);
    return memcmp(m.data(), &b[s.integrityOffset + 4], 20) == 0;
}
Bytes makeStun(int type, const Bytes& tid, const std::string& username, const std::string& key, bool integrity, bool fingerprint, bool useCandidate, bool controlling, const net::Addr* xm)
{
    Bytes b;
    put16(b, type);
    put16(b, 0);
    put32(b, 0x2112A442);
    b.insert(b.end(), tid.begin(), tid.end());
    auto setLen = [&](size_t extra) {
        size_t l = b.size() - 20 + extra;
        b[2] = l >> 8, b[3] = (uint8_t)l;
    };
    if (!username.empty()) {
        put16(b, 6);
        put16(b, username.size());
        b.insert(b.end(), username.begin(), username.end());
        while (b.size() % 4) b.push_back(0);
    }
    if (type == 1) {
        put16(b, 0x24);
        put16(b, 4);
        put32(b, 0x6e0001ff);
        put16(b, controlling ? 0x802a : 0x8029);
        put16(b, 8);
        put32(b, 0x12345678);
        put32(b, 0x9abcdef0);
        if (useCandidate) {
            put16(b, 0x25);
            put16(b, 0);
        }
    }
    if (xm) {
        put16(b, 0x20);
        put16(b, 8);
        b.push_back(0);
        b.push_back(1);
        put16(b, (uint16_t)xm->port ^ 0x2112);
        in_addr a = {};
        inet_pton(AF_INET, xm->ip.c_str(), &a);
        put32(b, ntohl(a.s_addr) ^ 0x2112A442);
    }
    if (integrity) {
        setLen(24);
        auto m = hmacRaw(key, b);
        put16(b, 8);
        put16(b, 20);
        b.insert(b.end(), m.begin(), m.end());
    }
    if (fingerprint) {
        setLen(8);
        const uint32_t c = crc32(b.data(), b.size()) ^ 0x5354554eu;
        put16(b, 0x8028);
        put16(b, 4);
        put32(b, c);
    }
    setLen(0);
    return b;
}
} // namespace wire

// ------------------------------------------------------------------ seams in OpenSSL calls
extern "C" {
int __real_SSL_export_keying_material(SSL*, unsigned char*, size_t, const char*, size_t, const unsigned char*, size_t, int);
int __wrap_SSL_export_keying_material(SSL* s, unsigned char* out, size_t olen, const char* label, size_t llen, const unsigned char* ctx, size_t clen, int use)
{
    int r = __real_SSL_export_keying_material(s, out, olen, label, llen, ctx, clen, use);
    if (inSim()) {
        Kernel k;
        auto prof = SSL_get_selected_srtp_profile(s);
        if (prof && llen == 19) {
            wire::Keys keys;
            keys.profile = (int)prof->id;
            const bool gcm = prof->id == SRTP_AEAD_AES_128_GCM || prof->id == SRTP_AEAD_AES_256_GCM;
            const size_t kl = prof->id == SRTP_AEAD_AES_256_GCM ? 32 : 16, sl = gcm ? 12 : 14;
            // read the material independently of how many bytes the caller asked for
            net::Bytes m(2 * (kl + sl));
            __real_SSL_export_keying_material(s, m.data(), m.size(), "EXTRACTOR-dtls_srtp", 19, nullptr, 0, 0);
            keys.key[0].assign(m.begin(), m.begin() + kl);
            keys.key[1].assign(m.begin() + kl, m.begin() + 2 * kl);
            keys.salt[0].assign(m.begin() + 2 * kl, m.begin() + 2 * kl + sl);
            keys.salt[1].assign(m.begin() + 2 * kl + sl, m.end());
            keys.have = true;
            wire::sessionKeys[currentNode()] = keys;
            wire::keyExports[currentNode()]++;
        }
    }
    return r;
}
int __real_SSL_write(SSL*, const void*, int);
int __wrap_SSL_write(SSL* s, const void* p, int n)
{
    if (inSim() && wire::sslWrite && n > 0) {
        wire::Bytes b((const uint8_t*)p, (const uint8_t*)p + n);
        {
            Kernel k;
            wire::sslWrite(currentNode(), b);
        }
        if (b.empty()) return n;
        return __real_SSL_write(s, b.data(), (int)b.size()) > 0 ? n : -1;
    }
    return __real_SSL_write(s, p, n);
}
int __real_SSL_CTX_use_certificate(SSL_CTX*, X509*);
int __wrap_SSL_CTX_use_certificate(SSL_CTX* c, X509* x)
{
    if (inSim() && wire::certless == currentNode()) return 1;
    return __real_SSL_CTX_use_certificate(c, x);
}
int __real_SSL_CTX_use_PrivateKey(SSL_CTX*, EVP_PKEY*);
int __wrap_SSL_CTX_use_PrivateKey(SSL_CTX* c, EVP_PKEY* k)
{
    if (inSim() && wire::certless == currentNode()) return 1;
    return __real_SSL_CTX_use_PrivateKey(c, k);
}
int __real_SSL_CTX_check_private_key(const SSL_CTX*);
int __wrap_SSL_CTX_check_private_key(const SSL_CTX* c)
{
    if (inSim() && wire::certless == currentNode()) return 1;
    return __real_SSL_CTX_check_private_key(c);
}
int __real_SSL_set_tlsext_use_srtp(SSL*, const char*);
int __wrap_SSL_set_tlsext_use_srtp(SSL* s, const char* p)
{
    if (inSim() && !wire::forceProfiles.empty()) return __real_SSL_set_tlsext_use_srtp(s, wire::forceProfiles.c_str());
    return __real_SSL_set_tlsext_use_srtp(s, p);
}
}
