// Frame generator and comparison for all codecs.
#pragma once
#include "net.h"
#include "srtc/byte_buffer.h"
#include "srtc/srtc.h"

namespace media
{
using net::Bytes;
using sim::u64;

struct Gen {
    srtc::Codec codec = srtc::Codec::H264;
    u64 salt = 0;
    bool csdSeparate = false; // parameter sets through setVideoCodecSpecificData
    bool threeByte = false;   // 3-byte start codes
    bool av1Ext = false;      // temporal ids
    std::vector<Bytes> csd;   // current parameter sets (without start codes)
    int csdVersion = 0;
};
// a frame of roughly `size` bytes; unique per (salt, id)
Bytes makeFrame(Gen& g, u64 id, bool key, size_t size, int slices, bool newCsd);
// canonical content: what must survive the trip
Bytes canon(srtc::Codec c, const uint8_t* p, size_t n, std::vector<Bytes>* params, bool* wellFormed, bool withoutSei = false);
} // namespace media
