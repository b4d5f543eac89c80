#include "media.h"
#include <cstring>

using namespace sim;
using srtc::Codec;

namespace media
{
// The payload of a NAL unit: many zeros, emulation prevention where the standard requires it, and no zero at the end
static void fillNz(Bytes& b, size_t n, u64 h)
{
    const bool zeros = h % 3 == 0;
    size_t run = 0;
    for (size_t i = 0; i < n; i += 8) {
        u64 x = hash2(h, i), z = zeros ? hash2(h, i + 1) : 0xffff;
        for (size_t k = 0; k < 8 && i + k < n; k++) {
            uint8_t v = (uint8_t)(1 + (x & 0xff) % 255);
            if (!(z & 1) && i + k + 1 < n) v = z & 2 ? 0 : (uint8_t)(x & 3);
            if (run >= 2 && v <= 3) {
                if (i + k + 1 == n) v = 0x80;
                else { b.push_back(3); run = 0; if (++k + i >= n) break; x >>= 8; z >>= 2; if (v == 0 && i + k + 1 >= n) v = 1; }
            }
            b.push_back(v);
            run = v ? 0 : run + 1;
            x >>= 8;
            z >>= 2;
        }
    }
    if (b.back() == 0) b.back() = 0x80;
}
static void fillAny(Bytes& b, size_t n, u64 h)
{
    for (size_t i = 0; i < n; i += 8) {
        u64 x = hash2(h, i);
        for (size_t k = 0; k < 8 && i + k < n; k++) {
            b.push_back((uint8_t)x);
            x >>= 8;
        }
    }
}
static void startCode(Bytes& b, bool three)
{
    if (!three) b.push_back(0);
    b.push_back(0);
    b.push_back(0);
    b.push_back(1);
}
static void leb(Bytes& b, size_t v)
{
    do {
        uint8_t x = v & 0x7f;
        v >>= 7;
        if (v) x |= 0x80;
        b.push_back(x);
    } while (v);
}
static void obu(Bytes& b, int type, int tid, int sid, const Bytes& pl)
{
    const bool ext = tid || sid;
    b.push_back((uint8_t)(type << 3 | (ext ? 4 : 0) | 2));
    if (ext) b.push_back((uint8_t)(tid << 5 | sid << 3));
    leb(b, pl.size());
    b.insert(b.end(), pl.begin(), pl.end());
}

Bytes makeFrame(Gen& g, u64 id, bool key, size_t size, int slices, bool newCsd)
{
    const u64 h = hash3(g.salt, id, 0xf00d);
    Bytes out;
    if (slices < 1) slices = 1;
    switch (g.codec) {
    case Codec::H264:
    case Codec::H265: {
        const bool h5 = g.codec == Codec::H265;
        if (g.csd.empty() || newCsd) {
            g.csd.clear();
            g.csdVersion++;
            const int types4[] = { 7, 8 }, types5[] = { 32, 33, 34 };
            for (int i = 0; i < (h5 ? 3 : 2); i++) {
                Bytes p;
                if (h5) {
                    p.push_back((uint8_t)(types5[i] << 1));
                    p.push_back(1);
                } else {
                    p.push_back((uint8_t)(0x60 | types4[i]));
                }
                fillNz(p, 8 + hash3(g.salt, g.csdVersion, i) % 40, hash3(g.salt, 77 + g.csdVersion, i));
                g.csd.push_back(p);
            }
        }
        if (key && !g.csdSeparate)
            for (auto& p : g.csd) {
                startCode(out, false);
                out.insert(out.end(), p.begin(), p.end());
            }
        if (h % 7 == 3) { // supplemental information
            startCode(out, false);
            if (h5) {
                out.push_back(39 << 1);
                out.push_back(1);
            } else {
                out.push_back(6);
            }
            fillNz(out, 6 + h % 30, hash2(h, 0x5e1));
        }
        for (int s = 0; s < slices; s++) {
            startCode(out, g.threeByte && s > 0);
            size_t n = std::max<size_t>(size / slices, 4);
            if (h5) {
                out.push_back((uint8_t)((key ? 19 + (id % 2) : 1) << 1));
                out.push_back((uint8_t)(1 + (id % 3)));
                out.push_back(s == 0 ? 0x80 | (uint8_t)(1 + id % 100) : 0x01 | (uint8_t)(h & 0x7e));
            } else {
                out.push_back(key ? 0x65 : 0x41);
                out.push_back(s == 0 ? 0x80 | (uint8_t)(id % 100) : 0x40 | (uint8_t)(id % 60)); // first_mb_in_slice
            }
            fillNz(out, n, hash2(h, s + 1));
        }
        break;
    }
    case Codec::VP8: {
        fillAny(out, std::max<size_t>(size, 12), h);
        out[0] = (out[0] & 0xfe) | (key ? 0 : 1);
        break;
    }
    case Codec::VP9: {
        fillAny(out, std::max<size_t>(size, 12), h);
        out[0] = (uint8_t)(0x80 | (key ? 0 : 4) | (out[0] & 3)); // frame_marker 2, profile 0, show_existing 0, frame_type
        break;
    }
    case Codec::AV1: {
        const int tid = g.av1Ext ? (key ? 0 : 1 + (int)(id % 3)) : 0;
        if (id & 1) obu(out, 2, 0, 0, {});
        if (key) {
            Bytes p;
            fillAny(p, 10 + id % 10, hash2(h, 99));
            obu(out, 1, 0, 0, p);
        }
        if (slices == 1) {
            Bytes p;
            fillAny(p, std::max<size_t>(size, 8), h);
            p[0] = (uint8_t)((key ? 0 : 1) << 5 | (p[0] & 0x1f));
            obu(out, 6, tid, 0, p);
        } else {
            Bytes p;
            fillAny(p, 20, h);
            p[0] = (uint8_t)((key ? 0 : 1) << 5 | (p[0] & 0x1f));
            obu(out, 3, tid, 0, p);
            for (int s = 0; s < slices; s++) {
                Bytes q;
                fillAny(q, std::max<size_t>(size / slices, 8), hash2(h, s + 5));
                obu(out, 4, tid, 0, q);
            }
        }
        break;
    }
    default:
        fillAny(out, std::max<size_t>(size, 10), h);
        break;
    }
    return out;
}

static std::vector<Bytes> nalus(const uint8_t* p, size_t n, bool* ok)
{
    std::vector<Bytes> v;
    size_t i = 0;
    *ok = true;
    // leading start code required
    if (!(n >= 4 && p[0] == 0 && p[1] == 0 && (p[2] == 1 || (p[2] == 0 && p[3] == 1)))) *ok = false;
    size_t start = SIZE_MAX;
    while (i < n) {
        if (i + 2 < n && p[i] == 0 && p[i + 1] == 0 && (p[i + 2] == 1 || (i + 3 < n && p[i + 2] == 0 && p[i + 3] == 1))) {
            if (start != SIZE_MAX) v.emplace_back(p + start, p + i);
            i += p[i + 2] == 1 ? 3 : 4;
            start = i;
        } else {
            i++;
        }
    }
    if (start != SIZE_MAX) v.emplace_back(p + start, p + n);
    return v;
}

Bytes canon(Codec c, const uint8_t* p, size_t n, std::vector<Bytes>* params, bool* okOut, bool withoutSei)
{
    Bytes out;
    bool ok = true;
    if (c == Codec::H264 || c == Codec::H265) {
        for (auto& u : nalus(p, n, &ok)) {
            if (u.size() < 2) {
                ok = false;
                continue;
            }
            const int t = c == Codec::H264 ? u[0] & 31 : (u[0] >> 1) & 63;
            const bool param = c == Codec::H264 ? t == 7 || t == 8 : t >= 32 && t <= 34;
            if (param) {
                if (params) params->push_back(u);
                continue;
            }
            if (withoutSei && t == (c == Codec::H264 ? 6 : 39)) continue;
            leb(out, u.size());
            out.insert(out.end(), u.begin(), u.end());
        }
    } else if (c == Codec::AV1) {
        size_t i = 0;
        while (i < n) {
            const uint8_t h = p[i++];
            const int type = (h >> 3) & 15;
            uint8_t ext = 0;
            if (h & 0x80) ok = false;
            if (h & 4) {
                if (i >= n) {
                    ok = false;
                    break;
                }
                ext = p[i++];
            }
            size_t sz = n - i;
            if (h & 2) {
                sz = 0;
                int sh = 0;
                while (i < n) {
                    const uint8_t b = p[i++];
                    sz |= (size_t)(b & 0x7f) << sh;
                    sh += 7;
                    if (!(b & 0x80)) break;
                    if (sh > 35) {
                        ok = false;
                        break;
                    }
                }
            }
            if (sz > n - i) {
                ok = false;
                break;
            }
            if (type != 2) {
                out.push_back((uint8_t)type);
                out.push_back(ext & 0xf8);
                leb(out, sz);
                out.insert(out.end(), p + i, p + i + sz);
            }
            i += sz;
        }
    } else {
        out.assign(p, p + n);
    }
    if (okOut) *okOut = ok;
    return out;
}
} // namespace media
