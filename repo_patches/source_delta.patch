From 00c192d24bb4d8ab99dd07338e6dee6042e222c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 01/51] fix: keep fractions of a clock tick when computing RTP
 timestamps

---
 include/srtc/rtp_time_source.h | 1 +
 src/rtp_time_source.cpp        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..c555f6b 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -25,6 +25,7 @@ private:
     std::optional<int64_t> mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
+    int64_t mCurrFraction;
 };
 
 } // namespace srtc
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..5e8ed9f 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -9,6 +9,7 @@ RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     , mClockRate(clockRate)
     , mCurrTime(std::chrono::steady_clock::now())
     , mCurrRtp(mRandom.next())
+    , mCurrFraction(0)
 {
 }
 
@@ -26,7 +27,10 @@ uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // Carry the fraction of a clock tick over to the next frame so that rounding errors do not accumulate
+    const auto elapsed_scaled = elapsed_usec * mClockRate + mCurrFraction;
+    mCurrRtp += static_cast<uint32_t>(elapsed_scaled / 1000000);
+    mCurrFraction = elapsed_scaled % 1000000;
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From 76e74d07e2ff82c1cba05f47dc472de67f93454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 02/51] fix: re-send lost DTLS handshake messages

---
 include/srtc/peer_candidate.h |  4 ++++
 src/peer_candidate.cpp        | 41 +++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/include/srtc/peer_candidate.h b/include/srtc/peer_candidate.h
index 31a1288..17b6fca 100644
--- a/include/srtc/peer_candidate.h
+++ b/include/srtc/peer_candidate.h
@@ -211,6 +211,9 @@ private:
 
     void freeDTLS();
 
+    void updateDtlsTimeout();
+    void onDtlsTimeout();
+
     // RTT
     std::optional<float> calculateRtt(const std::chrono::steady_clock::time_point& now) const;
 
@@ -241,6 +244,7 @@ private:
     std::weak_ptr<Task> mTaskConnectTimeout;
     std::weak_ptr<Task> mTaskSendStunConnectRequest;
     std::weak_ptr<Task> mTaskSendStunConnectResponse;
+    std::weak_ptr<Task> mTaskDtlsTimeout;
     std::weak_ptr<Task> mTaskConnectionLostTimeout;
     std::weak_ptr<Task> mTaskConnectionRestoreTimeout;
     std::weak_ptr<Task> mTaskExpireStunRequests;
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..0df0200 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -80,6 +80,8 @@ constexpr auto kKeepAliveCheckTimeout = std::chrono::milliseconds(1000);
 constexpr auto kKeepAliveSendTimeout = std::chrono::milliseconds(3000);
 constexpr auto kConnectRepeatPeriod = std::chrono::milliseconds(100);
 constexpr auto kConnectRepeatIncrement = std::chrono::milliseconds(100);
+constexpr auto kDtlsTimeoutInitial = std::chrono::microseconds(250 * 1000);
+constexpr auto kDtlsTimeoutMax = std::chrono::microseconds(1000 * 1000);
 constexpr auto kMaxRecentEnough = std::chrono::milliseconds(5 * 1000);
 
 // https://datatracker.ietf.org/doc/html/rfc5245#section-4.1.2.1
@@ -156,6 +158,15 @@ bool is_stun_message(const srtc::ByteBuffer& buf)
     return false;
 }
 
+unsigned int dtls_timeout_callback([[maybe_unused]] SSL* ssl, unsigned int timeout_usec)
+{
+    // The DTLS handshake has to complete within kConnectTimeout, so repeat lost messages quickly
+    if (timeout_usec == 0) {
+        return static_cast<unsigned int>(kDtlsTimeoutInitial.count());
+    }
+    return std::min(timeout_usec * 2, static_cast<unsigned int>(kDtlsTimeoutMax.count()));
+}
+
 bool is_dtls_message(const srtc::ByteBuffer& buf)
 {
     // https://datatracker.ietf.org/doc/html/rfc7983#section-5
@@ -783,6 +794,7 @@ void PeerCandidate::run()
             SSL_CTX_set_read_ahead(mDtlsCtx, 1);
 
             mDtlsSsl = SSL_new(mDtlsCtx);
+            DTLS_set_timer_cb(mDtlsSsl, dtls_timeout_callback);
 
             mDtlsBio = BIO_new_dgram(this);
             SSL_set_bio(mDtlsSsl, mDtlsBio, mDtlsBio);
@@ -797,6 +809,8 @@ void PeerCandidate::run()
                 SSL_set_connect_state(mDtlsSsl);
                 SSL_do_handshake(mDtlsSsl);
             }
+
+            updateDtlsTimeout();
         }
     }
 
@@ -1028,6 +1042,8 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         if (mDtlsState == DtlsState::Failed) {
             freeDTLS();
         }
+
+        updateDtlsTimeout();
     } else if (mDtlsState == DtlsState::Completed) {
         uint8_t tmp[4096];
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
@@ -1559,6 +1575,31 @@ BIO* PeerCandidate::BIO_new_dgram(PeerCandidate* pc)
     return b;
 }
 
+void PeerCandidate::updateDtlsTimeout()
+{
+    Task::cancelHelper(mTaskDtlsTimeout);
+
+    // Lost handshake messages need to be sent again
+    struct timeval timeout = {};
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl && DTLSv1_get_timeout(mDtlsSsl, &timeout) == 1) {
+        const auto delay = std::chrono::milliseconds(timeout.tv_sec * 1000 + timeout.tv_usec / 1000 + 1);
+        mTaskDtlsTimeout = mScheduler.submit(delay, __FILE__, __LINE__, [this] { onDtlsTimeout(); });
+    }
+}
+
+void PeerCandidate::onDtlsTimeout()
+{
+    if (mDtlsState == DtlsState::Activating && mDtlsSsl) {
+        LOG(SRTC_LOG_V, "DTLS handshake timeout #%u", mUniqueId);
+
+        if (DTLSv1_handle_timeout(mDtlsSsl) < 0) {
+            LOG(SRTC_LOG_E, "Error re-sending a DTLS handshake message");
+        }
+
+        updateDtlsTimeout();
+    }
+}
+
 void PeerCandidate::freeDTLS()
 {
     if (mDtlsSsl) {
-- 
2.43.0


From 6e86c7fe36513db27d093d71e64accca434f82e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 03/51] fix: only the first OBU of an AV1 packet can be a
 continuation

---
 src/depacketizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..05e5e08 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -125,8 +125,8 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
-                        // Start of a new OBU
+                    if (!valueZ || obuIndex > 0) {
+                        // Start of a new OBU, only the first one can be a continuation from the previous packet
                         bufferedObu.flushTo(w);
 
                         const auto obuHeader = reader.readU8();
-- 
2.43.0


From 032140a86bb9216414f09c5d79631bf3bd4337e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 04/51] fix: AV1 packetizer sizes of OBU fragments with layer
 ids, extensions after a flush

---
 src/packetizer_av1.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..53ac790 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -150,6 +150,9 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
 
                     payload.clear();
                     packetNumber += 1;
+
+                    // Prepare the extension, the padding and the size of the next packet
+                    continue;
                 }
             }
 
@@ -165,7 +168,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
             // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            const auto headerSize = isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2u : 1u) : 0u;
+            const auto writeSize = headerSize + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From a70ffa0b6572cda45d928e0bebfbd76af781cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 05/51] fix: jitter buffer schedules packets older than its
 first packet

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..82f3f73 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // Can be negative: because of reordering, the packet we took as the base is not always the earliest one
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto time_delta =
+        std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 8ec9d7c6d1cd74ba37184629db38e226a2ebf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 06/51] fix: jitter buffer delivers a frame again when its
 packets are repeated

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..0d878c4 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,6 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mLastFrameSeq;
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 82f3f73..55b0c27 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,17 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    if (mLastFrameSeq.has_value() && mLastFrameSeq.value() >= seq_ext) {
+        // A duplicate, or a re-transmission that lost the race with the original
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
+            " belongs to a frame we already have",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
@@ -650,6 +661,8 @@ void JitterBuffer::appendToResult(std::vector<std::shared_ptr<EncodedFrame>>& re
                                   const std::chrono::steady_clock::time_point& now,
                                   std::vector<ByteBuffer>& list)
 {
+    mLastFrameSeq = last->seq_ext;
+
     if (!list.empty()) {
         // Check that we're not trying to go backwards
         if (mLastFrameTimeStamp.has_value() && mLastFrameTimeStamp.value() > item->rtp_timestamp_ext) {
-- 
2.43.0


From bb0058cd9c224c949dd08ed66884750e3deb7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 07/51] fix: jitter buffer rejects everything after a large gap

---
 src/jitter_buffer.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 55b0c27..9502a14 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -131,9 +131,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
     if (mItemList) {
         const auto elapsed = now - mLastPacketTime;
-        if (elapsed >= kNoPacketsResetDelay && seq_ext >= mMaxSeq + mCapacity / 8) {
+        if ((elapsed >= kNoPacketsResetDelay && seq_ext >= mMaxSeq + mCapacity / 8) ||
+            seq_ext >= mMaxSeq + mCapacity / 4) {
             LOG(SRTC_LOG_W,
-                "Jitter buffer for SSRC = %" PRIu32 ", media = %s: no packets for %ld ms, resetting",
+                "Jitter buffer for SSRC = %" PRIu32 ", media = %s: large gap after no packets for %ld ms, resetting",
                 mTrack->getSSRC(),
                 to_string(media->getType()).c_str(),
                 static_cast<long>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()));
@@ -167,17 +168,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             static_cast<uint16_t>(mMinSeq),
             static_cast<uint16_t>(mMaxSeq));
         return;
-    } else if (seq_ext >= mMaxSeq + mCapacity / 4) {
-        // Out of range, much greater than max
-        LOG(SRTC_LOG_W,
-            "Jitter buffer for SSRC = %u, media = %s: The new packet SEQ = %" PRIu16 " is too early, s, min = %" PRIu16
-            ", max = %" PRIu16,
-            mTrack->getSSRC(),
-            to_string(media->getType()).c_str(),
-            seq,
-            static_cast<uint16_t>(mMinSeq),
-            static_cast<uint16_t>(mMaxSeq));
-        return;
     }
 
     // Can be negative: because of reordering, the packet we took as the base is not always the earliest one
@@ -234,7 +224,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From de4007571b4b3eaa0f894ca4f89f9c48685f5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 08/51] fix: late packets from before a sequence number wrap

---
 include/srtc/extended_value.h |  2 --
 src/extended_value.cpp        | 14 ++------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index bf6a06e..6b31edf 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -1,6 +1,5 @@
 #pragma once
 
-#include <chrono>
 #include <cstdint>
 #include <optional>
 
@@ -21,7 +20,6 @@ public:
 private:
     const uint64_t mRolloverIncrement;
     uint64_t mRolloverValue;
-    std::chrono::steady_clock::time_point mRolloverTime;
     std::optional<T> mLastValue;
 };
 
diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 58666e1..3bd98b8 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -2,13 +2,6 @@
 
 #include <limits>
 
-namespace
-{
-
-constexpr auto mRolloverBack = std::chrono::milliseconds(1000);
-
-}
-
 namespace srtc
 {
 
@@ -27,7 +20,6 @@ uint64_t ExtendedValue<T>::extend(T src)
     // Lazy init
     if (mRolloverValue == 0) {
         mRolloverValue = mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
     }
 
     // Do we even have a previous value?
@@ -43,14 +35,12 @@ uint64_t ExtendedValue<T>::extend(T src)
     if (mLastValue.value() >= max - margin && src <= margin) {
         // Rollover
         mRolloverValue += mRolloverIncrement;
-        mRolloverTime = std::chrono::steady_clock::now();
         mLastValue = src;
         return mRolloverValue | src;
     }
 
-    if (mLastValue.value() <= margin && src >= max - margin &&
-        std::chrono::steady_clock::now() - mRolloverTime <= mRolloverBack) {
-        // We just had a rollover, and the new value wants to go backwards
+    if (mLastValue.value() <= margin && src >= max - margin) {
+        // We had a rollover not that many values ago, and the new value wants to go backwards
         return (mRolloverValue - mRolloverIncrement) | src;
     }
 
-- 
2.43.0


From a3b8e9a072a63470f556162a5ddc2b1da66cfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 09/51] fix: SRTP rollover count and replay window across
 wraps, gaps, reconnects and forgeries

---
 include/srtc/replay_protection.h |   1 +
 include/srtc/srtp_connection.h   |  13 ++--
 src/peer_candidate.cpp           |   2 -
 src/replay_protection.cpp        |  13 ++++
 src/srtp_connection.cpp          | 110 ++++++++++++++++++++-----------
 5 files changed, 89 insertions(+), 50 deletions(-)

diff --git a/include/srtc/replay_protection.h b/include/srtc/replay_protection.h
index b7ddf21..2772ea2 100644
--- a/include/srtc/replay_protection.h
+++ b/include/srtc/replay_protection.h
@@ -13,6 +13,7 @@ public:
 
     [[nodiscard]] bool canProceed(uint32_t value);
     bool set(uint32_t value);
+    void jumpForward(uint32_t value);
 
 private:
     const uint32_t mMaxPossibleValue;
diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..dcac15f 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -25,8 +25,6 @@ public:
 	static std::pair<std::shared_ptr<SrtpConnection>, Error> create(ssl_st* dtls_ssl, bool isSetupActive);
 	~SrtpConnection();
 
-	void onPeerConnected();
-
 	[[nodiscard]] size_t getMediaProtectionOverhead() const;
 
 	// Returns false on error
@@ -69,18 +67,17 @@ private:
 
 	struct ChannelValue {
 		std::unique_ptr<ReplayProtection> replayProtection;
-		uint32_t rolloverCount;
-		std::optional<uint16_t> lastSequence16;
+		uint32_t lastIndex;
 	};
 
 	using ChannelMap = std::unordered_map<ChannelKey, ChannelValue, hash_channel_key, equal_to_channel_key>;
 
 	ChannelMap mSrtpInMap;
-	ChannelMap mSrtpOutMap;
 
-	ChannelValue& ensureSrtpChannel(ChannelMap& map,
-									const ChannelKey& key,
-									uint32_t maxPossibleValueForReplayProtection);
+	std::optional<uint32_t> getLastIndex(const ChannelKey& key) const;
+	bool canProceed(const ChannelKey& key, uint32_t index) const;
+	static bool isPastWindow(const ChannelValue& channelValue, uint32_t index);
+	void onAuthenticated(const ChannelKey& key, uint32_t index);
 
 	bool getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const;
 	bool getMediaSequenceNumber(const ByteBuffer& packet, uint16_t& outSequenceNumber) const;
diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 0df0200..fc4cb41 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1651,8 +1651,6 @@ void PeerCandidate::emitOnDtlsConnected()
 {
     mListener->onCandidateDtlsConnected(this);
 
-    mSrtpConnection->onPeerConnected();
-
     if (mExtensionSourceTWCC) {
         mExtensionSourceTWCC->onPeerConnected();
     }
diff --git a/src/replay_protection.cpp b/src/replay_protection.cpp
index 88d2e45..66499ef 100644
--- a/src/replay_protection.cpp
+++ b/src/replay_protection.cpp
@@ -123,6 +123,19 @@ bool ReplayProtection::set(uint32_t value)
     }
 }
 
+void ReplayProtection::jumpForward(uint32_t value)
+{
+    assert(mStorage);
+
+    if (((value - mCurMax) & mMaxPossibleValue) < mSize) {
+        setForward(value);
+    } else {
+        std::memset(mStorage, 0, mStorageSize);
+        setImpl(mStorage, mStorageSize, value);
+        mCurMax = value;
+    }
+}
+
 void ReplayProtection::setForward(uint32_t value)
 {
     mCurMax = (mCurMax + 1) & mMaxPossibleValue;
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..95e1572 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -19,6 +19,8 @@
 #include "srtc/srtp_crypto.h"
 #include "srtc/util.h"
 
+#include <algorithm>
+#include <limits>
 #include <mutex>
 
 #include <openssl/srtp.h>
@@ -30,6 +32,13 @@
 
 #define LOG(level, ...) srtc::log(level, "SrtpConnection", __VA_ARGS__)
 
+namespace
+{
+
+constexpr uint32_t kReplayWindowSize = 2048;
+
+}
+
 namespace srtc
 {
 
@@ -111,14 +120,6 @@ std::pair<std::shared_ptr<SrtpConnection>, Error> SrtpConnection::create(SSL* dt
 
 SrtpConnection::~SrtpConnection() = default;
 
-void SrtpConnection::onPeerConnected()
-{
-    // We may have missed some packets while not connected, so need to reset replay protection.
-    // Technically we only need this for the incoming map, but let's clear both for consistency.
-    mSrtpInMap.clear();
-    mSrtpOutMap.clear();
-}
-
 size_t SrtpConnection::getMediaProtectionOverhead() const
 {
     return mCrypto->getMediaProtectionOverhead();
@@ -162,7 +163,6 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
     const ChannelKey key = { ssrc, 0 };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
 
     uint32_t sequenceNumber;
     if (!getControlSequenceNumber(packetData, sequenceNumber)) {
@@ -170,7 +170,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    if (!canProceed(key, sequenceNumber)) {
         LOG(SRTC_LOG_E, "Replay protection says we can't proceed with RTCP packet seq = %u", sequenceNumber);
         return false;
     }
@@ -188,7 +188,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
         return false;
     }
 
-    channelValue.replayProtection->set(sequenceNumber);
+    onAuthenticated(key, sequenceNumber);
     return true;
 }
 
@@ -206,15 +206,31 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
     const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
-    auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
-
     uint16_t sequenceNumber;
     if (!getMediaSequenceNumber(packetData, sequenceNumber)) {
         LOG(SRTC_LOG_E, "Error getting sequence number from incoming RTP packet");
         return false;
     }
 
-    if (!channelValue.replayProtection->canProceed(sequenceNumber)) {
+    // https://datatracker.ietf.org/doc/html/rfc3711#section-3.3.1
+    // Because of jitter, we may cross the rollover back and forth. The rollover count is relative to the highest
+    // authenticated sequence number.
+    uint32_t rolloverCount = 0;
+    if (const auto last = getLastIndex(key); last.has_value()) {
+        const auto lastSequence = static_cast<uint16_t>(last.value());
+        rolloverCount = last.value() >> 16;
+
+        if (static_cast<uint16_t>(sequenceNumber - lastSequence) < 0x8000u) {
+            if (sequenceNumber < lastSequence) {
+                rolloverCount += 1;
+            }
+        } else if (sequenceNumber > lastSequence && rolloverCount > 0) {
+            rolloverCount -= 1;
+        }
+    }
+
+    const auto index = (rolloverCount << 16) | sequenceNumber;
+    if (!canProceed(key, index)) {
         LOG(SRTC_LOG_E,
             "Replay protection says we can't proceed with RTP packet ssrc = %" PRIu32 ", seq = %u",
             ssrc,
@@ -222,22 +238,6 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    // Because of jitter, we may cross the rollover back and forth, only count once
-    auto rolloverCount = channelValue.rolloverCount;
-    if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
-    } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
-        if (rolloverCount > 0) {
-            rolloverCount -= 1;
-        }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
-            rolloverCount += 1;
-        }
-        channelValue.lastSequence16 = sequenceNumber;
-    }
-
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
         LOG(SRTC_LOG_E, "Error decrypting media");
         return false;
@@ -252,7 +252,7 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
-    channelValue.replayProtection->set(sequenceNumber);
+    onAuthenticated(key, index);
     return true;
 }
 
@@ -262,18 +262,48 @@ SrtpConnection::SrtpConnection(const std::shared_ptr<SrtpCrypto>& crypto, unsign
 {
 }
 
-SrtpConnection::ChannelValue& SrtpConnection::ensureSrtpChannel(ChannelMap& map,
-                                                                const ChannelKey& key,
-                                                                uint32_t maxPossibleValueForReplayProtection)
+std::optional<uint32_t> SrtpConnection::getLastIndex(const ChannelKey& key) const
 {
-    const auto iter = map.find(key);
-    if (iter != map.end()) {
-        return iter->second;
+    const auto iter = mSrtpInMap.find(key);
+    if (iter == mSrtpInMap.end()) {
+        return std::nullopt;
     }
+    return iter->second.lastIndex;
+}
 
-    auto replayProtection = std::make_unique<ReplayProtection>(maxPossibleValueForReplayProtection, 2048);
-    const auto result = map.insert({ key, ChannelValue{ std::move(replayProtection), 0, {} } });
-    return result.first->second;
+bool SrtpConnection::canProceed(const ChannelKey& key, uint32_t index) const
+{
+    const auto iter = mSrtpInMap.find(key);
+    if (iter == mSrtpInMap.end()) {
+        return true;
+    }
+
+    // A long gap is not a replay
+    const auto& channelValue = iter->second;
+    return isPastWindow(channelValue, index) || channelValue.replayProtection->canProceed(index);
+}
+
+bool SrtpConnection::isPastWindow(const ChannelValue& channelValue, uint32_t index)
+{
+    return index > channelValue.lastIndex && index - channelValue.lastIndex > kReplayWindowSize / 4;
+}
+
+void SrtpConnection::onAuthenticated(const ChannelKey& key, uint32_t index)
+{
+    auto& channelValue = mSrtpInMap[key];
+
+    if (!channelValue.replayProtection) {
+        channelValue.replayProtection =
+            std::make_unique<ReplayProtection>(std::numeric_limits<uint32_t>::max(), kReplayWindowSize);
+        channelValue.lastIndex = index;
+    }
+
+    if (isPastWindow(channelValue, index)) {
+        channelValue.replayProtection->jumpForward(index);
+    } else {
+        channelValue.replayProtection->set(index);
+    }
+    channelValue.lastIndex = std::max(channelValue.lastIndex, index);
 }
 
 bool SrtpConnection::getControlSequenceNumber(const ByteBuffer& packet, uint32_t& outSequenceNumber) const
-- 
2.43.0


From 861634ef7cd9b86f3feec9f5a8fa438046a7d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 10/51] fix: keep-alive requests were never started

---
 src/peer_candidate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index fc4cb41..828a8b6 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1676,6 +1676,7 @@ void PeerCandidate::onReceivedFromRemote()
 
     if (!mIsConnected) {
         mIsConnected = true;
+        updateKeepAliveTimeout();
         emitOnDtlsConnected();
     }
 }
-- 
2.43.0


From c55c6fb4edb51991588f15d92d604c8f9ce91b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 11/51] fix: forged STUN responses affect the pending request
 and the RTT

---
 src/peer_candidate.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 828a8b6..690f1a8 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -909,34 +909,33 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
         uint8_t id[STUN_MESSAGE_TRANS_ID_LEN];
         stun::stun_message_id(&incomingMessage, id);
 
+        // Verify first: a forged response should not have any effect on the pending request or on our RTT
         float rtt = 0.0f;
-        if (mIceAgent->forgetTransaction(id, rtt)) {
+        if (errorCode != 0 || !mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
+            LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+        } else if (mIceAgent->forgetTransaction(id, rtt)) {
             LOG(SRTC_LOG_V, "Removed old STUN transaction ID for binding request, rtt = %.2f", rtt);
 
             mIceRttFilter.update(rtt);
 
-            if (errorCode == 0 && mIceAgent->verifyResponseMessage(&incomingMessage, mAnswer->getIcePassword())) {
-                if (mSentUseCandidate) {
-                    // Keep-alive
-                    LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
+            if (mSentUseCandidate) {
+                // Keep-alive
+                LOG(SRTC_LOG_V, "STUN keep-alive response verification succeeded");
 
-                    if (mDtlsState == DtlsState::Completed) {
-                        // We are connected again
-                        onReceivedFromRemote();
-                    }
-                } else {
-                    // Initial connection
-                    LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
+                if (mDtlsState == DtlsState::Completed) {
+                    // We are connected again
+                    onReceivedFromRemote();
+                }
+            } else {
+                // Initial connection
+                LOG(SRTC_LOG_V, "STUN binding response verification succeeded, sending use candidate request");
 
-                    mSentUseCandidate = true;
+                mSentUseCandidate = true;
 
-                    emitOnIceConnected();
-                    sendStunBindingResponse(0);
+                emitOnIceConnected();
+                sendStunBindingResponse(0);
 
-                    mDtlsState = DtlsState::Activating;
-                }
-            } else {
-                LOG(SRTC_LOG_E, "STUN response verification failed, ignoring");
+                mDtlsState = DtlsState::Activating;
             }
         }
     }
-- 
2.43.0


From 122432395f05f6225a8dea20624c7a36a2f50120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 12/51] fix: feedback for several tracks re-used SRTCP indices
 and was rejected

---
 src/peer_candidate.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 690f1a8..8e6fa4b 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -504,8 +504,11 @@ void PeerCandidate::sendPictureLossIndicator(const std::shared_ptr<Track>& track
 
         w.writeU32(ssrc);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kPayloadSpecific, std::move(payload));
-        sendRtcpPacket(track, packet);
+        // The SSRC and the sequence have to come from the same source, or we'd be re-using SRTCP indices
+        const auto source = mControlPacketSource;
+        const auto packet =
+            std::make_shared<RtcpPacket>(source->getSSRC(), 1, RtcpPacket::kPayloadSpecific, std::move(payload));
+        sendRtcpPacket(source, packet);
     }
 }
 
@@ -547,8 +550,10 @@ void PeerCandidate::sendNacks(const std::shared_ptr<Track>& track, const std::ve
             seq,
             blp);
 
-        const auto packet = std::make_shared<RtcpPacket>(0, 1, RtcpPacket::kFeedback, std::move(payload));
-        sendRtcpPacket(track, packet);
+        const auto source = mControlPacketSource;
+        const auto packet =
+            std::make_shared<RtcpPacket>(source->getSSRC(), 1, RtcpPacket::kFeedback, std::move(payload));
+        sendRtcpPacket(source, packet);
     }
 }
 
-- 
2.43.0


From 39e76eef675b9f12f1d663a2dbf0b7cf7274531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 13/51] fix: publisher's extended reports re-used SRTCP indices
 of sender reports

---
 src/peer_candidate.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 8e6fa4b..7884eef 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -390,7 +390,15 @@ void PeerCandidate::sendPublishReports()
             }
         }
 
-        const auto source = mControlPacketSource;
+        // Our control SSRC is one of the tracks' SSRCs, which has its own sequence used for sender reports
+        auto source = mControlPacketSource;
+        for (const auto& track : mTrackList) {
+            if (track->getSSRC() == source->getSSRC()) {
+                source = track->getRtcpPacketSource();
+                break;
+            }
+        }
+
         const auto packet =
             std::make_shared<RtcpPacket>(source->getSSRC(), 0, RtcpPacket::kExtendedReport, std::move(payload));
         sendRtcpPacket(source, packet);
-- 
2.43.0


From a0615188f33b096e028dbd200a042b5e923e22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 14/51] fix: large Opus frames were truncated

---
 src/packetizer_opus.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/packetizer_opus.cpp b/src/packetizer_opus.cpp
index 833f02a..e4771af 100644
--- a/src/packetizer_opus.cpp
+++ b/src/packetizer_opus.cpp
@@ -35,10 +35,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerOpus::generate(
 
     const auto frameTimestamp = timeSource->getFrameTimestamp(pts_usec);
 
+    // There is no fragmentation for Opus, and a truncated frame can't be decoded
     auto payload = frame.copy();
-    if (payload.size() > RtpPacket::kMaxPayloadSize) {
-        payload.resize(RtpPacket::kMaxPayloadSize);
-    }
 
     auto extension = buildExtension(track, extensionSourceList, false, 0);
 
-- 
2.43.0


From 867c927faba75104fa991042811ca0de3da870b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 15/51] fix: sequence number wrap within a gap of more than a
 quarter of the range

---
 src/extended_value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extended_value.cpp b/src/extended_value.cpp
index 3bd98b8..3483c34 100644
--- a/src/extended_value.cpp
+++ b/src/extended_value.cpp
@@ -32,8 +32,8 @@ uint64_t ExtendedValue<T>::extend(T src)
     constexpr auto margin = std::numeric_limits<T>::max() / 4;
     constexpr auto max = std::numeric_limits<T>::max();
 
-    if (mLastValue.value() >= max - margin && src <= margin) {
-        // Rollover
+    if (mLastValue.value() > src && mLastValue.value() - src > max / 2) {
+        // Rollover, possibly with a large gap
         mRolloverValue += mRolloverIncrement;
         mLastValue = src;
         return mRolloverValue | src;
-- 
2.43.0


From 9d0b8d162fe9be6103fc636e39ea6bbbad2e8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 16/51] fix: packets from before a reconnect were delivered
 after newer frames

---
 include/srtc/extended_value.h  |  2 +-
 include/srtc/jitter_buffer.h   |  3 +++
 include/srtc/peer_connection.h |  1 +
 src/jitter_buffer.cpp          | 11 +++++++++++
 src/peer_connection.cpp        |  6 ++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/srtc/extended_value.h b/include/srtc/extended_value.h
index 6b31edf..95bff1b 100644
--- a/include/srtc/extended_value.h
+++ b/include/srtc/extended_value.h
@@ -18,7 +18,7 @@ public:
     [[nodiscard]] std::optional<uint64_t> get() const;
 
 private:
-    const uint64_t mRolloverIncrement;
+    uint64_t mRolloverIncrement;
     uint64_t mRolloverValue;
     std::optional<T> mLastValue;
 };
diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 0d878c4..9e2b9ce 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -36,6 +36,9 @@ public:
 
     [[nodiscard]] std::shared_ptr<Track> getTrack() const;
 
+    // The same stream goes on after a reconnect
+    void continueFrom(const JitterBuffer& previous);
+
     // Adding received packets
     void consume(const std::shared_ptr<RtpPacket>& packet);
 
diff --git a/include/srtc/peer_connection.h b/include/srtc/peer_connection.h
index 567a55f..c33c542 100644
--- a/include/srtc/peer_connection.h
+++ b/include/srtc/peer_connection.h
@@ -222,6 +222,7 @@ private:
         // Subscribing
         std::shared_ptr<Depacketizer> depacketizer;
         std::shared_ptr<JitterBuffer> jitterBuffer;
+        std::shared_ptr<JitterBuffer> previousJitterBuffer; // while re-connecting
 
         TrackEntry(const std::shared_ptr<Track>& track)
             : track(track)
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 9502a14..20deb49 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -76,6 +76,17 @@ std::shared_ptr<Track> JitterBuffer::getTrack() const
     return mTrack;
 }
 
+void JitterBuffer::continueFrom(const JitterBuffer& previous)
+{
+    assert(mTrack == previous.mTrack);
+
+    mExtValueSeq = previous.mExtValueSeq;
+    mExtValueRtpTimestamp = previous.mExtValueRtpTimestamp;
+
+    mLastFrameSeq = previous.mLastFrameSeq;
+    mLastFrameTimeStamp = previous.mLastFrameTimeStamp;
+}
+
 void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 {
     assert(mTrack == packet->getTrack());
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index a7769df..acd9aa7 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -844,6 +844,7 @@ void PeerConnection::onCandidateConnecting([[maybe_unused]] PeerCandidate* candi
 
     for (auto& trackEntry : mTrackEntryList) {
         if (trackEntry.jitterBuffer) {
+            trackEntry.previousJitterBuffer = std::move(trackEntry.jitterBuffer);
             trackEntry.jitterBuffer.reset();
         }
     }
@@ -922,6 +923,11 @@ void PeerConnection::onCandidateDtlsConnected(PeerCandidate* candidate)
             trackEntry.depacketizer->reset();
             trackEntry.jitterBuffer = std::make_shared<JitterBuffer>(
                 trackEntry.track, trackEntry.depacketizer, kJitterBufferSize, length, nackDelay);
+
+            if (trackEntry.previousJitterBuffer) {
+                trackEntry.jitterBuffer->continueFrom(*trackEntry.previousJitterBuffer);
+                trackEntry.previousJitterBuffer.reset();
+            }
         }
     }
 
-- 
2.43.0


From 7eac108ece27d504a648454c5bd3899f3e75eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 17/51] fix: data channel messages were corrupted, reordered or
 lost with reordered SCTP chunks

Fragments were appended in the order of arrival, channel open and ack messages
were processed before earlier ones, and chunks over the limit were forgotten
after they had been acknowledged. Process chunks in TSN order.
---
 src/sctp/sctp_defs.h      |  1 +
 src/sctp/sctp_session.cpp | 64 +++++++++++++++++++++++++--------------
 src/sctp/sctp_session.h   |  9 ++++--
 3 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 736c0bb..579bacb 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -64,6 +64,7 @@ constexpr uint32_t kReconfigResultSuccess = 0x00000000;
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
 constexpr uint16_t kInitStreams = 1024;
+constexpr size_t   kMaxOutOfOrderChunks = 1024; // chunks held until those before them arrive
 
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..8950656 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -504,44 +504,60 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 
     ByteReader r(chunk.data, chunk.size);
     const auto peerTSN = r.readU32();
-    const auto streamId = r.readU16();
-    const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
-    const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
     const bool isDuplicate =
-        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderTsns.count(peerTSN) > 0;
+        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderChunks.count(peerTSN) > 0;
     if (isDuplicate) {
         sendSack();
         return;
     }
 
-    if (peerTSN == mPeerCumulativeTsn + 1) {
-        mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
-        while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
-                break;
-            mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+    if (peerTSN != mPeerCumulativeTsn + 1) {
+        // Fragments and messages have to be processed in the order in which they were sent, so hold this one until
+        // those before it have arrived. When there are too many, or the gap is too large to be reported, drop
+        // it without acknowledging, and it will be sent again.
+        if (mPeerOutOfOrderChunks.size() < kMaxOutOfOrderChunks && peerTSN - mPeerCumulativeTsn <= 0xFFFFu) {
+            mPeerOutOfOrderChunks.emplace(peerTSN, HeldChunk{ chunk.flags, ByteBuffer(chunk.data, chunk.size) });
         }
+        sendSack();
+        return;
+    }
+
+    // Collect the chunks which are now consecutive
+    std::list<HeldChunk> ready;
+    mPeerCumulativeTsn = peerTSN;
+    while (true) {
+        const auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+        if (it == mPeerOutOfOrderChunks.end())
+            break;
+        mPeerCumulativeTsn++;
+        ready.push_back(std::move(it->second));
+        mPeerOutOfOrderChunks.erase(it);
     }
     sendSack();
 
+    processDataChunk(chunk.flags, chunk.data, chunk.size);
+    for (const auto& held : ready) {
+        processDataChunk(held.flags, held.body.data(), held.body.size());
+    }
+}
+
+void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t size)
+{
+    ByteReader r(data, size);
+    r.skip(4); // TSN
+    const auto streamId = r.readU16();
+    const auto ssn = r.readU16();
+    const auto ppid = r.readU32();
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
@@ -759,8 +775,12 @@ void SctpSession::sendSack()
     };
     std::vector<GapBlock> gapBlocks;
 
-    if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+    if (!mPeerOutOfOrderChunks.empty()) {
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderChunks.size());
+        for (const auto& held : mPeerOutOfOrderChunks) {
+            tsns.push_back(held.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..1c5910f 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -97,7 +97,11 @@ private:
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+    struct HeldChunk {
+        uint8_t flags;
+        ByteBuffer body;
+    };
+    std::map<uint32_t, HeldChunk> mPeerOutOfOrderChunks; // by TSN, received but not yet consecutive
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -110,6 +114,7 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void processDataChunk(uint8_t flags, const uint8_t* data, size_t size);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From 5e2a4025e8bed5a95947c37a685129c4be568428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 18/51] fix: the first message of a data channel had the SSN of
 the open or ack message

The receiver discarded it as already delivered.
---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 8950656..4bd513d 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -478,7 +478,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // DCEP messages are ordered messages of the stream
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -612,7 +612,7 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From 03b72a2369f8025bcf39c449e064fe11e8f2de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 19/51] fix: a repeated or late SCTP INIT or INIT ACK restarted
 the peer's TSNs

Both sides send an INIT, so the peer's data can arrive before our INIT ACK.
Resetting the cumulative TSN afterwards stalled all channels for good. Answers
to such early data also had no verification tag.
---
 src/sctp/sctp_session.cpp | 34 ++++++++++++++++++++++++----------
 src/sctp/sctp_session.h   |  2 ++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 4bd513d..fe7d4e9 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -254,6 +254,18 @@ void SctpSession::sendCookieEcho(unsigned iteration)
     mTaskT1Cookie = mScheduler.submit(delay, __FILE__, __LINE__, [this, iteration] { sendCookieEcho(iteration + 1); });
 }
 
+void SctpSession::setPeer(
+    uint32_t tag, uint32_t rwnd, uint16_t outStreams, uint16_t inStreams, uint32_t initialTsn)
+{
+    mPeerKnown = true;
+    mPeerTag = tag;
+    mPeerRwnd = rwnd;
+    mPeerOutStreams = outStreams;
+    mPeerInStreams = inStreams;
+    mPeerCumulativeTsn = initialTsn - 1;
+    mPeerOutOfOrderChunks.clear();
+}
+
 void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
 {
     if (chunk.size < 16)
@@ -270,10 +282,9 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+    if (!mPeerKnown) {
+        setPeer(peerInitiateTag, peerRwnd, peerOutStreams, peerInStreams, peerInitialTsn);
+    }
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
@@ -424,11 +435,14 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
         case kChunkInitAck:
             if (mState == State::CookieWait && chunk.size >= 16) {
                 ByteReader r(chunk.data, chunk.size);
-                mPeerTag = r.readU32();
-                mPeerRwnd = r.readU32();
-                mPeerOutStreams = r.readU16();
-                mPeerInStreams = r.readU16();
-                mPeerCumulativeTsn = r.readU32() - 1; // peerInitialTsn - 1
+                const auto peerTag = r.readU32();
+                const auto peerRwnd = r.readU32();
+                const auto peerOutStreams = r.readU16();
+                const auto peerInStreams = r.readU16();
+                const auto peerInitialTsn = r.readU32();
+                if (!mPeerKnown || peerTag != mPeerTag) {
+                    setPeer(peerTag, peerRwnd, peerOutStreams, peerInStreams, peerInitialTsn);
+                }
 
                 for (const auto& param : chunk.parseParams(16)) {
                     if (param.type == kParamStateCookie) {
@@ -499,7 +513,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
 {
     // DATA chunk body: TSN(4) + streamId(2) + SSN(2) + PPID(4) + payload
-    if (chunk.size < 12)
+    if (!mPeerKnown || chunk.size < 12)
         return;
 
     ByteReader r(chunk.data, chunk.size);
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index 1c5910f..c84f38b 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -91,6 +91,7 @@ private:
     State mState;
     uint32_t mInitiateTag;                  // our tag — peer puts this in verificationTag of packets it sends us
     uint32_t mInitialTsn;                   // our DATA chunk sequence counter start
+    bool mPeerKnown = false;                // have seen peer's INIT or INIT ACK
     uint32_t mPeerTag;                      // peer's tag — we put this in verificationTag of packets we send
     uint16_t mPeerOutStreams;               // number of outbound streams the peer supports
     uint16_t mPeerInStreams;                // number of inbound streams the peer supports
@@ -109,6 +110,7 @@ private:
 
     void sendInit(unsigned iteration);
     void sendCookieEcho(unsigned iteration);
+    void setPeer(uint32_t tag, uint32_t rwnd, uint16_t outStreams, uint16_t inStreams, uint32_t initialTsn);
     void onReceiveInit(const SctpPacket::Chunk& chunk);
     void onReceiveCookieEcho(const SctpPacket::Chunk& chunk);
     void onAssociationEstablished();
-- 
2.43.0


From 61227932b710844ce029ad25aee4eca6542dc783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 20/51] fix: data channel messages larger than the peer's
 window were never sent

A message waited for the window to have room for all of it, and blocked all
others, while smaller ones sent later could overtake those that waited. Queue
fragments instead, in order, and always allow one to be in flight.
---
 src/sctp/sctp_session.cpp | 150 ++++++++++++++------------------------
 src/sctp/sctp_session.h   |   5 +-
 2 files changed, 56 insertions(+), 99 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index fe7d4e9..3fc14c0 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -109,24 +109,15 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    const size_t payloadSize =
+    const size_t messageSize =
         message.kind == DataChannelMessage::Kind::kText ? message.text.size() : message.binary.size();
 
-    if (mMaxMessageSize > 0 && payloadSize > mMaxMessageSize) {
-        LOG(SRTC_LOG_W, "send: message size %zu exceeds peer max %" PRIu32 ", dropping", payloadSize, mMaxMessageSize);
+    if (mMaxMessageSize > 0 && messageSize > mMaxMessageSize) {
+        LOG(SRTC_LOG_W, "send: message size %zu exceeds peer max %" PRIu32 ", dropping", messageSize, mMaxMessageSize);
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
-        mPendingSend.emplace_back(std::move(message));
-        return;
-    }
-
-    sendMessageNow(*it, std::move(message));
-}
-
-void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& message)
-{
+    auto& channel = *it;
     std::string textStorage;
     const uint8_t* payload;
     size_t payloadSize;
@@ -145,31 +136,16 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
 
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
-    const bool wasEmpty = mSentChunks.empty();
 
     constexpr size_t kMaxFragmentPayload = 1100;
 
-    auto sendFragment = [&](uint8_t flags, const uint8_t* fragPayload, size_t fragSize) {
-        const uint32_t tsn = mCurrentTsn++;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(channel.streamId);
-        cw.writeU16(ssn);
-        cw.writeU32(ppid);
-        cw.write(fragPayload, fragSize);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, flags, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, flags, fragSize, std::move(chunkBody) });
-        mFlightSize += static_cast<uint32_t>(fragSize);
-    };
-
     if (payloadSize <= kMaxFragmentPayload) {
-        sendFragment(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag), payload, payloadSize);
+        queueDataChunk(static_cast<uint8_t>(kDataFlagComplete | unorderedFlag),
+                       channel.streamId,
+                       ssn,
+                       ppid,
+                       payload,
+                       payloadSize);
     } else {
         size_t offset = 0;
         bool isFirst = true;
@@ -181,35 +157,54 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
                 flags |= kDataFlagB;
             if (isLast)
                 flags |= kDataFlagE;
-            sendFragment(flags, payload + offset, fragSize);
+            queueDataChunk(flags, channel.streamId, ssn, ppid, payload + offset, fragSize);
             offset += fragSize;
             isFirst = false;
         }
     }
 
-    if (wasEmpty) {
-        startT3Rtx();
-    }
+    transmitPending();
+}
+
+void SctpSession::queueDataChunk(
+    uint8_t flags, uint16_t streamId, uint16_t ssn, uint32_t ppid, const uint8_t* payload, size_t payloadSize)
+{
+    const uint32_t tsn = mCurrentTsn++;
+
+    ByteBuffer chunkBody;
+    ByteWriter cw(chunkBody);
+    cw.writeU32(tsn);
+    cw.writeU16(streamId);
+    cw.writeU16(ssn);
+    cw.writeU32(ppid);
+    cw.write(payload, payloadSize);
+
+    mPendingChunks.push_back(SentChunk{ tsn, flags, payloadSize, std::move(chunkBody) });
 }
 
 void SctpSession::transmitPending()
 {
-    while (!mPendingSend.empty()) {
-        auto& msg = mPendingSend.front();
+    const bool wasEmpty = mSentChunks.empty();
 
-        auto it = std::find_if(
-            mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == msg.label; });
-        if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
-            mPendingSend.pop_front();
-            continue;
-        }
+    while (!mPendingChunks.empty()) {
+        const auto& chunk = mPendingChunks.front();
 
-        const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
+        // There can always be one chunk in flight, or a closed window would never open again
+        if (!mSentChunks.empty() && (mFlightSize + chunk.payloadSize > mPeerRwnd ||
+                                     mSentChunks.size() >= kMaxOutOfOrderChunks)) {
             break;
+        }
 
-        sendMessageNow(*it, std::move(msg));
-        mPendingSend.pop_front();
+        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
+        builder.addChunk(kChunkData, chunk.flags, chunk.body);
+        mListener->onSctpSendPacket(builder.build());
+
+        mFlightSize += static_cast<uint32_t>(chunk.payloadSize);
+        mSentChunks.splice(mSentChunks.end(), mPendingChunks, mPendingChunks.begin());
+    }
+
+    if (wasEmpty && !mSentChunks.empty()) {
+        startT3Rtx();
     }
 }
 
@@ -484,30 +479,12 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     pw.writeU16(0); // protocol length
     pw.write(reinterpret_cast<const uint8_t*>(channel.label.data()), channel.label.size());
 
-    const bool wasEmpty = mSentChunks.empty();
-    const uint32_t tsn = mCurrentTsn++;
-    const size_t payloadSize = payload.size();
-
-    ByteBuffer chunkBody;
-    ByteWriter cw(chunkBody);
-    cw.writeU32(tsn);
-    cw.writeU16(channel.streamId);
-    cw.writeU16(channel.sendSsn++); // DCEP messages are ordered messages of the stream
-    cw.writeU32(kPpidDcep);
-    cw.write(payload);
-
-    SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-    builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-    mListener->onSctpSendPacket(builder.build());
-
     channel.state = DataChannelState::kOpening;
 
-    mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, payloadSize, std::move(chunkBody) });
-    mFlightSize += static_cast<uint32_t>(payloadSize);
-
-    if (wasEmpty) {
-        startT3Rtx();
-    }
+    // DCEP messages are ordered messages of the stream
+    queueDataChunk(
+        kDataFlagComplete, channel.streamId, channel.sendSsn++, kPpidDcep, payload.data(), payload.size());
+    transmitPending();
 }
 
 void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
@@ -618,28 +595,9 @@ void SctpSession::processDataChunk(uint8_t flags, const uint8_t* data, size_t si
         channel.receiveBuffer.consumeSsn(ssn);
 
         // Send ACK
-        const bool wasEmpty = mSentChunks.empty();
-        const uint32_t tsn = mCurrentTsn++;
-        constexpr size_t kAckPayloadSize = 1;
-
-        ByteBuffer chunkBody;
-        ByteWriter cw(chunkBody);
-        cw.writeU32(tsn);
-        cw.writeU16(streamId);
-        cw.writeU16(channel.sendSsn++);
-        cw.writeU32(kPpidDcep);
-        cw.writeU8(kDcepMsgAck);
-
-        SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
-        builder.addChunk(kChunkData, kDataFlagComplete, chunkBody);
-        mListener->onSctpSendPacket(builder.build());
-
-        mSentChunks.push_back(SentChunk{ tsn, kDataFlagComplete, kAckPayloadSize, std::move(chunkBody) });
-        mFlightSize += kAckPayloadSize;
-
-        if (wasEmpty) {
-            startT3Rtx();
-        }
+        const uint8_t ackPayload = kDcepMsgAck;
+        queueDataChunk(kDataFlagComplete, streamId, channel.sendSsn++, kPpidDcep, &ackPayload, sizeof(ackPayload));
+        transmitPending();
 
         mListener->onSctpDataChannelOpen(label);
     }
@@ -749,9 +707,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         startT3Rtx(); // restart on progress
     }
 
-    if (anyNewlyAcked) {
-        transmitPending();
-    }
+    transmitPending();
 }
 
 void SctpSession::retransmitOldest()
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index c84f38b..d3dc394 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -76,7 +76,7 @@ private:
         ByteBuffer body; // TSN(4) + streamId(2) + ssn(2) + ppid(4) + payload
     };
     std::list<SentChunk> mSentChunks;
-    std::list<DataChannelMessage> mPendingSend;
+    std::list<SentChunk> mPendingChunks; // not sent yet, in TSN order
     uint32_t mFlightSize = 0;
 
     RandomGenerator<uint32_t> mRandom;
@@ -121,7 +121,8 @@ private:
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
 
-    void sendMessageNow(DataChannel& channel, DataChannelMessage&& message);
+    void queueDataChunk(
+        uint8_t flags, uint16_t streamId, uint16_t ssn, uint32_t ppid, const uint8_t* payload, size_t payloadSize);
     void transmitPending();
     void retransmitOldest();
     void startT3Rtx();
-- 
2.43.0


From 1a9e662e0d8e079b7ee676473c335c47e052fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 21/51] fix: messages were dropped if another channel with the
 same label was not open yet

---
 src/sctp/sctp_session.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 3fc14c0..76ee29f 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -103,9 +103,10 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    auto it = std::find_if(
-        mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) { return ch.label == message.label; });
-    if (it == mDataChannels.end() || it->state != DataChannelState::kOpen) {
+    auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
+        return ch.label == message.label && ch.state == DataChannelState::kOpen;
+    });
+    if (it == mDataChannels.end()) {
         return;
     }
 
-- 
2.43.0


From d4e7e4bb2d0280d5ca6f9537299b0a6bfef23c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 22/51] fix: a change of the system clock made the SCTP
 handshake fail for good

---
 src/sctp/sctp_session.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 76ee29f..357d70c 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -29,6 +29,13 @@ std::chrono::milliseconds retransmitDelay(unsigned iteration)
     return std::chrono::milliseconds(delay);
 }
 
+// The time in a cookie is only read by the side which wrote it, and should not be affected by clock changes
+uint32_t getSteadyTimeSecs()
+{
+    const auto now = std::chrono::steady_clock::now().time_since_epoch();
+    return static_cast<uint32_t>(std::chrono::duration_cast<std::chrono::seconds>(now).count());
+}
+
 } // namespace
 
 namespace srtc::sctp
@@ -299,7 +306,7 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     ByteBuffer cookieData;
     ByteWriter cw(cookieData);
 
-    const auto nowSecs = getSystemTimeSecs();
+    const auto nowSecs = getSteadyTimeSecs();
 
     cw.writeU32(nowSecs);
     cw.writeU32(kCookieLifetime);
@@ -367,7 +374,7 @@ void SctpSession::onReceiveCookieEcho(const SctpPacket::Chunk& chunk)
     ByteReader r(chunk.data, kCookieTotalSize);
     const auto createdAt = r.readU32();
     const auto lifetime = r.readU32();
-    const auto nowSecs = getSystemTimeSecs();
+    const auto nowSecs = getSteadyTimeSecs();
     if (nowSecs > createdAt + lifetime) {
         LOG(SRTC_LOG_W, "COOKIE_ECHO expired");
         return;
-- 
2.43.0


From b146529195be2ebb6fa036701d8b40876feb93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 23/51] fix: a wrong entry in a CRC-32c table

The checksum of a packet depended on its alignment, and about half of the large
packets were computed differently by the sender and the receiver and rejected.
---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From aa26d8d1fde3be99ba1f7f78cc82d230612e388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 24/51] fix: data channels which the peer had already opened
 were opened back to it

---
 src/sctp/sctp_session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 357d70c..86a7fb9 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -471,7 +471,10 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 void SctpSession::onAssociationEstablished()
 {
     for (auto& channel : mDataChannels) {
-        sendDataChannelOpen(channel);
+        // The peer could have opened some already
+        if (channel.state == DataChannelState::kNone) {
+            sendDataChannelOpen(channel);
+        }
     }
 }
 
-- 
2.43.0


From 559e04135e5d8040d41b11ea90c94ca72662f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 25/51] fix: messages were dropped on channels opened by the
 peer before our handshake was done

---
 src/sctp/sctp_session.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 86a7fb9..919f74e 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -106,10 +106,7 @@ bool SctpSession::isChannelOpen(const std::string& label) const
 
 void SctpSession::send(DataChannelMessage&& message)
 {
-    if (mState != State::Established) {
-        return;
-    }
-
+    // The peer's half of the handshake is enough for a channel to be open
     auto it = std::find_if(mDataChannels.begin(), mDataChannels.end(), [&](const DataChannel& ch) {
         return ch.label == message.label && ch.state == DataChannelState::kOpen;
     });
-- 
2.43.0


From 0de7a574384fd18d6300e5c1e32aedd9811c3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 26/51] fix: DTLS records were read one per datagram and lagged
 behind for good

Records which arrived around the end of the handshake, or several in one
datagram, stayed queued until later datagrams arrived.
---
 src/peer_candidate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 7884eef..832f828 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -1056,7 +1056,11 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
         }
 
         updateDtlsTimeout();
-    } else if (mDtlsState == DtlsState::Completed) {
+    }
+
+    // There can be more than one record to read: a datagram can contain several of them, and some can have arrived
+    // before the handshake was completed
+    while (mDtlsState == DtlsState::Completed && mDtlsSsl) {
         uint8_t tmp[4096];
         const auto r = SSL_read(mDtlsSsl, tmp, sizeof(tmp));
 
@@ -1075,6 +1079,7 @@ void PeerCandidate::onReceivedDtlsMessage(ByteBuffer&& buf)
                     emitOnDtlsDisconnected({ Error::Code::InvalidData, "DTLS connection lost unexpectedly" });
                 }
             }
+            break;
         }
     }
 }
-- 
2.43.0


From 9c1a10380da6c030facca81a067dac1f65be0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 27/51] fix: lost data channel chunks were not sent again while
 newer ones got acknowledged

---
 src/sctp/sctp_session.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 919f74e..d64c1f4 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -679,7 +679,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 
     mPeerRwnd = aRwnd;
 
-    bool anyNewlyAcked = false;
+    const auto oldestTsn = mSentChunks.empty() ? 0 : mSentChunks.front().tsn;
 
     // Remove cumulatively ACKed chunks
     auto it = mSentChunks.begin();
@@ -687,7 +687,6 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
         if (static_cast<int32_t>(it->tsn - cumTsn) <= 0) {
             mFlightSize = static_cast<uint32_t>(mFlightSize >= it->payloadSize ? mFlightSize - it->payloadSize : 0);
             it = mSentChunks.erase(it);
-            anyNewlyAcked = true;
         } else {
             ++it;
         }
@@ -702,7 +701,6 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
                 git = mSentChunks.erase(git);
-                anyNewlyAcked = true;
             } else {
                 ++git;
             }
@@ -711,8 +709,10 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
 
     if (mSentChunks.empty()) {
         stopT3Rtx();
-    } else if (anyNewlyAcked) {
-        startT3Rtx(); // restart on progress
+    } else if (mSentChunks.front().tsn != oldestTsn) {
+        // Restart only when the oldest chunk was acked (RFC 4960 §6.3.2), or it would never get retransmitted as long as
+        // newer ones keep getting acked
+        startT3Rtx();
     }
 
     transmitPending();
-- 
2.43.0


From 5ddacf7e8c19da10fab3a98fa558ac3d2af6b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 28/51] fix: frames, statistics and closed channels were
 reported after the final connection state

---
 include/srtc/peer_connection.h |  3 +++
 src/peer_connection.cpp        | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/srtc/peer_connection.h b/include/srtc/peer_connection.h
index c33c542..6e91e24 100644
--- a/include/srtc/peer_connection.h
+++ b/include/srtc/peer_connection.h
@@ -142,6 +142,8 @@ private:
 
     void setConnectionState(ConnectionState state) SRTC_LOCKS_EXCLUDED(mMutex, mListenerMutex);
 
+    void setFinalConnectionState(ConnectionState state);
+
     void startConnecting();
 
     bool mIsStarted SRTC_GUARDED_BY(mMutex) = { false };
@@ -244,6 +246,7 @@ private:
     std::weak_ptr<Task> mTaskPictureLossIndicator;
 
     // These are only used on the worker thread so don't need mutexes
+    ConnectionState mFinalConnectionState = ConnectionState::Inactive;
     std::shared_ptr<LoopScheduler> mLoopScheduler;
     std::shared_ptr<PeerCandidate> mSelectedCandidate;
     std::list<std::shared_ptr<PeerCandidate>> mConnectingCandidateList;
diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index acd9aa7..3794c5c 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -706,6 +706,10 @@ void PeerConnection::networkThreadWorkerFunc()
                 processJitterBuffer(trackEntry.jitterBuffer);
             }
         }
+
+        if (mFinalConnectionState != ConnectionState::Inactive) {
+            break;
+        }
     }
 
     mLoopScheduler.reset();
@@ -717,8 +721,9 @@ void PeerConnection::networkThreadWorkerFunc()
     mMediaEntryList.clear();
     mTrackEntryList.clear();
 
-    // We are all done
-    setConnectionState(ConnectionState::Closed);
+    // We are all done, nothing gets reported after this
+    setConnectionState(mFinalConnectionState == ConnectionState::Inactive ? ConnectionState::Closed
+                                                                          : mFinalConnectionState);
 }
 
 void PeerConnection::setConnectionState(ConnectionState state)
@@ -752,6 +757,14 @@ void PeerConnection::setConnectionState(ConnectionState state)
     }
 }
 
+void PeerConnection::setFinalConnectionState(ConnectionState state)
+{
+    // The network thread will exit and then report the state, after it is done with reporting everything else
+    if (mFinalConnectionState == ConnectionState::Inactive) {
+        mFinalConnectionState = state;
+    }
+}
+
 void PeerConnection::startConnecting()
 {
     setConnectionState(ConnectionState::Connecting);
@@ -944,10 +957,10 @@ void PeerConnection::onCandidateDtlsDisconnected(PeerCandidate* candidate, const
 {
     if (mSelectedCandidate.get() == candidate) {
         if (error.isOk()) {
-            setConnectionState(ConnectionState::Closed);
+            setFinalConnectionState(ConnectionState::Closed);
         } else {
             LOG(SRTC_LOG_E, "DTLS disconnected with error: %d %s", static_cast<int>(error.code), error.message.c_str());
-            setConnectionState(ConnectionState::Failed);
+            setFinalConnectionState(ConnectionState::Failed);
         }
     }
 }
@@ -967,7 +980,7 @@ void PeerConnection::onCandidateFailedToConnect(PeerCandidate* candidate, const
 
     // We have tried all candidates and they all failed
     if (mConnectingCandidateList.empty()) {
-        setConnectionState(ConnectionState::Failed);
+        setFinalConnectionState(ConnectionState::Failed);
     }
 }
 
-- 
2.43.0


From 07f502c49b0e9595157c048c76bd5b1514c77fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 29/51] fix: round-trip times computed from reports were twice
 as long as the real ones

---
 src/receiver_reference_time_reports_history.cpp | 4 ++--
 src/sender_reports_history.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/receiver_reference_time_reports_history.cpp b/src/receiver_reference_time_reports_history.cpp
index e0c757b..e23f988 100644
--- a/src/receiver_reference_time_reports_history.cpp
+++ b/src/receiver_reference_time_reports_history.cpp
@@ -43,8 +43,8 @@ std::optional<float> ReceiverReferenceTimeReportsHistory::calculateRtt(uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // The remote delay has already been subtracted, what's left is the time for the roundtrip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
diff --git a/src/sender_reports_history.cpp b/src/sender_reports_history.cpp
index fa784b6..3f8b24b 100644
--- a/src/sender_reports_history.cpp
+++ b/src/sender_reports_history.cpp
@@ -41,8 +41,8 @@ std::optional<float> SenderReportsHistory::calculateRtt(uint32_t ssrc, uint32_t
                 trackItem.reportList.erase(iter);
 
                 if (now >= received) {
-                    // The 2 is so we get the actual back-and-forth (roundtrip) value
-                    return 2 * 1 / 1000.0f *
+                    // The remote delay has already been subtracted, what's left is the time for the roundtrip
+                    return 1 / 1000.0f *
                            static_cast<float>(
                                std::chrono::duration_cast<std::chrono::microseconds>(now - received).count());
                 }
-- 
2.43.0


From 9c82efd4f263e15987ac4cecc92a59c699e5438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 30/51] fix: TWCC feedback accumulated the rounding error of
 arrival time deltas

---
 src/twcc_subscribe.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 3411f98..0605547 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -34,6 +34,12 @@ constexpr auto kMaxSmallDeltaMicros = 250 * std::numeric_limits<uint8_t>::max();
 constexpr auto kMinLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::min();
 constexpr auto kMaxLargeDeltaMicros = 250 * std::numeric_limits<int16_t>::max();
 
+// Rounded towards zero to the units used for deltas
+int32_t roundDelta(int64_t delta_micros)
+{
+    return static_cast<int32_t>(delta_micros / 250 * 250);
+}
+
 class Builder
 {
 public:
@@ -550,8 +556,9 @@ uint16_t SubscribePacketHistory::peekSmallDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxSmallDeltaMicros) {
             // Acceptable small delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            // Advance by what the other side will decode, so that the rounding does not accumulate
+            delta_micros[out] = roundDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
@@ -583,8 +590,9 @@ uint16_t SubscribePacketHistory::peekLargeDeltaRun(int64_t& curr_time, bool* rec
                    packet->received_time_micros <= curr_time + kMaxLargeDeltaMicros) {
             // Acceptable large delta
             received[out] = true;
-            delta_micros[out] = static_cast<int32_t>(packet->received_time_micros - curr_time);
-            curr_time = packet->received_time_micros;
+            // Advance by what the other side will decode, so that the rounding does not accumulate
+            delta_micros[out] = roundDelta(packet->received_time_micros - curr_time);
+            curr_time += delta_micros[out];
         } else {
             break;
         }
-- 
2.43.0


From bd558803b09cef7e4623fe351ca32804e7a5c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 31/51] fix: TWCC feedback reported packets as lost which it
 had reported as received before

---
 include/srtc/twcc_subscribe.h |  6 ++++
 src/twcc_subscribe.cpp        | 58 +++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/include/srtc/twcc_subscribe.h b/include/srtc/twcc_subscribe.h
index e75321e..fe95f7f 100644
--- a/include/srtc/twcc_subscribe.h
+++ b/include/srtc/twcc_subscribe.h
@@ -8,6 +8,7 @@
 
 #include <cstdint>
 #include <list>
+#include <map>
 
 namespace srtc::twcc
 {
@@ -32,6 +33,8 @@ public:
     [[nodiscard]] std::list<ByteBuffer> generate(int64_t now_micros);
 
 private:
+    void generateLate(std::list<ByteBuffer>& list);
+
     void deleteMinPacket();
     void advance(uint64_t count);
 
@@ -54,6 +57,9 @@ private:
     uint64_t mMinSeq;
     uint64_t mMaxSeq; // Open interval: [mMinSeq, mMaxSeq)
 
+    uint64_t mReportedEndSeq;                 // Packets before this one were covered by feedback already
+    std::map<uint64_t, int64_t> mLatePackets; // Received after that: extended sequence number, time
+
     uint8_t mFbCount;
 };
 
diff --git a/src/twcc_subscribe.cpp b/src/twcc_subscribe.cpp
index 0605547..8cc7b56 100644
--- a/src/twcc_subscribe.cpp
+++ b/src/twcc_subscribe.cpp
@@ -224,6 +224,7 @@ SubscribePacketHistory::SubscribePacketHistory(int64_t base_time_micros)
     , mPacketList(nullptr)
     , mMinSeq(0)
     , mMaxSeq(0)
+    , mReportedEndSeq(0)
     , mFbCount(0)
 {
 }
@@ -254,6 +255,21 @@ void SubscribePacketHistory::saveIncomingPacket(uint16_t seq, int64_t now)
 
     mLastPacketMicros = now;
 
+    if (seq_ext < mReportedEndSeq) {
+        // Too late for the feedback which covered this packet, it will be reported separately because we don't know
+        // anymore which ones of the packets that follow have already been reported as received
+        if (seq_ext + kMaxPacketCount / 4 < mReportedEndSeq) {
+            LOG(SRTC_LOG_W,
+                "Received seq = %u is too late, reported up to = %u",
+                seq,
+                static_cast<uint16_t>(mReportedEndSeq));
+            return;
+        }
+
+        mLatePackets[seq_ext] = now_ext;
+        return;
+    }
+
     if (!mPacketList || mMinSeq == mMaxSeq) {
         if (!mPacketList) {
             mPacketList = new SubscribePacket*[kMaxPacketCount];
@@ -459,11 +475,53 @@ std::list<ByteBuffer> SubscribePacketHistory::generate(int64_t now_micros)
         list.push_back(builder->generate(mFbCount++));
     }
 
+    if (mPacketList) {
+        mReportedEndSeq = mMaxSeq;
+    }
+
+    generateLate(list);
+
     mLastGeneratedMicros = now_micros;
 
     return list;
 }
 
+void SubscribePacketHistory::generateLate(std::list<ByteBuffer>& list)
+{
+    for (auto iter = mLatePackets.begin(); iter != mLatePackets.end();) {
+        SubscribePacket first_packet = { iter->first, iter->second };
+
+        auto curr_time = (iter->second / kReferenceTimeUnits) * kReferenceTimeUnits;
+
+        Builder builder;
+        builder.setReferenceTime(curr_time);
+
+        // A run of packets without gaps
+        bool received[7] = {};
+        int32_t delta_micros[7] = {};
+        uint16_t count = 0;
+
+        while (iter != mLatePackets.end() && count < 7 && iter->first == first_packet.seq_ext + count) {
+            const auto delta = iter->second - curr_time;
+            if (delta < kMinLargeDeltaMicros || delta > kMaxLargeDeltaMicros) {
+                break;
+            }
+
+            received[count] = true;
+            delta_micros[count] = roundDelta(delta);
+            curr_time += delta_micros[count];
+
+            count += 1;
+            ++iter;
+        }
+
+        builder.addLargeDeltaRun(&first_packet, count, received, delta_micros);
+        list.push_back(builder.generate(mFbCount++));
+    }
+
+    mLatePackets.clear();
+}
+
 void SubscribePacketHistory::deleteMinPacket()
 {
     assert(mMinSeq < mMaxSeq);
-- 
2.43.0


From d08920146109c180a9b551011dac208cbbaa54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 32/51] fix: sent bandwidth was never calculated without TWCC

---
 src/peer_candidate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 832f828..c6a72af 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -577,8 +577,10 @@ void PeerCandidate::updatePublishConnectionStats(PublishConnectionStats& stats)
         mExtensionSourceTWCC->updatePublishConnectionStats(stats);
     } else {
         // Fall back to byte-count delta when TWCC is not available
-        if (stats.bandwidth_actual_kbit_per_second < 0) {
-            if (mPrevStatsTime != std::chrono::steady_clock::time_point{}) {
+        if (stats.bandwidth_actual_kbit_per_second <= 0) {
+            // The byte count starts from zero again after a reconnect
+            if (mPrevStatsTime != std::chrono::steady_clock::time_point{} &&
+                stats.byte_count >= mPrevPublishByteCount) {
                 const auto deltaMs =
                     std::chrono::duration_cast<std::chrono::milliseconds>(now - mPrevStatsTime).count();
                 const auto deltaBytes = stats.byte_count - mPrevPublishByteCount;
-- 
2.43.0


From af23c9304831a516d120c76d2d207fddb6fb0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 33/51] fix: validate attribute lengths of received STUN
 messages

---
 src/peer_candidate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index c6a72af..63ffeba 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -891,6 +891,12 @@ void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
     incomingMessage.buffer = const_cast<uint8_t*>(data.buf.data());
     incomingMessage.buffer_len = data.buf.size();
 
+    // Nothing below checks the lengths inside the message, this does
+    if (stun::stun_message_validate_buffer_length(data.buf.data(), data.buf.size(), true) <= 0) {
+        LOG(SRTC_LOG_E, "Malformed STUN message, ignoring");
+        return;
+    }
+
     const auto stunMessageClass = stun::stun_message_get_class(&incomingMessage);
     const auto stunMessageMethod = stun::stun_message_get_method(&incomingMessage);
 
-- 
2.43.0


From c9fdcf4bfbfd7315ea970f689a45731a232f9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 34/51] fix: RTCP packets without a sender SSRC crashed the
 receiver

---
 src/rtcp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..f7f6fef 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -79,7 +79,7 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 		const auto ssrc = static_cast<uint32_t>(ptr[4]) << 24 | static_cast<uint32_t>(ptr[5]) << 16 |
 						  static_cast<uint32_t>(ptr[6]) << 8 | static_cast<uint32_t>(ptr[7]);
 
-		if (ptr + len > end) {
+		if (len < 8 || ptr + len > end) {
 			LOG(SRTC_LOG_E, "RTCP packet too small");
 			break;
 		}
-- 
2.43.0


From 92e9fa9331a8e75bc5f908fc7625f34c30c9fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 35/51] fix: SCTP SACK with fewer gap blocks than announced
 crashed the receiver

---
 src/sctp/sctp_session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index d64c1f4..874f786 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -669,6 +669,10 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (r.remaining() < numGapBlocks * 4u) {
+        return; // malformed
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From 6ec85dad05e570196d7b8a50ab935fc8b8627358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 36/51] fix: H264 fragments without a first fragment crashed
 the receiver

---
 src/depacketizer_h264.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..97a5495 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,12 +101,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
-- 
2.43.0


From 839a709202c17f35b2ae8ce529fe356060f3ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 37/51] fix: H265 fragments without a first fragment crashed
 the receiver

---
 src/depacketizer_h265.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..5fe8f4b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,12 +101,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
@@ -136,6 +138,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From 6919bb74665232eaa85e51c03c7421734f0d036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 38/51] fix: AV1 payload sizes which exceed the packet crashed
 the receiver

---
 src/depacketizer_av1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 05e5e08..b691b4c 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -135,7 +135,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
@@ -213,6 +213,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (reader.remaining() < obuSize) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From b67213deade7622d1b0244d6c5fd14c10fb54541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 39/51] fix: ThreadScheduler started its thread before its
 queue was constructed

---
 include/srtc/scheduler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/srtc/scheduler.h b/include/srtc/scheduler.h
index 2b23975..258867f 100644
--- a/include/srtc/scheduler.h
+++ b/include/srtc/scheduler.h
@@ -124,10 +124,12 @@ private:
     std::mutex mMutex;
     std::condition_variable mCondVar;
 
-    std::thread mThread SRTC_GUARDED_BY(mMutex);
     bool mIsQuit SRTC_GUARDED_BY(mMutex) = {false};
 
     std::vector<std::shared_ptr<TaskImpl>> mTaskQueue;
+
+    // Keep this last, the thread uses the other members as soon as it's constructed
+    std::thread mThread SRTC_GUARDED_BY(mMutex);
 };
 
 // ----- LoopScheduler
-- 
2.43.0


From 4805a843f571baba4e1d99d0b305ba2710ce62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 40/51] fix: canceling a ThreadScheduler task from two threads
 could wait forever

---
 src/scheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 7382b1d..69f503a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -124,6 +124,8 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), task); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        // It can be canceled from more than one thread
+        task->mIsCompleted = true;
         return;
     }
 
@@ -137,6 +139,7 @@ std::weak_ptr<Task> ThreadScheduler::updateImpl(const std::shared_ptr<TaskImpl>&
 
     if (const auto iter = std::find(mTaskQueue.begin(), mTaskQueue.end(), oldTask); iter != mTaskQueue.end()) {
         mTaskQueue.erase(iter);
+        oldTask->mIsCompleted = true;
     }
 
     const auto when = std::chrono::steady_clock::now() + delay;
-- 
2.43.0


From 96f67c9f8c8e352becb0f5ce63901db7e2c10488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 41/51] fix: canceling a ThreadScheduler task from a task could
 wait forever

---
 src/scheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69f503a..644383d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -129,6 +129,11 @@ void ThreadScheduler::cancelImpl(const std::shared_ptr<TaskImpl>& task)
         return;
     }
 
+    if (mThread.get_id() == std::this_thread::get_id()) {
+        // Canceled from a task, which can be this very one, so don't wait for it to complete
+        return;
+    }
+
     mCondVar.wait(lock, [this, task]() SRTC_EXCLUSIVE_LOCKS_REQUIRED(mMutex) { return mIsQuit || task->mIsCompleted; });
 }
 
-- 
2.43.0


From 98d786182dac90b6b26488b7669c02e9f46f21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 42/51] fix: ScopedScheduler destructor deadlocked with a task
 which submits another one

---
 src/scheduler.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 644383d..0711fac 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -393,15 +393,24 @@ ScopedScheduler::ScopedScheduler(const std::shared_ptr<RealScheduler>& scheduler
 
 ScopedScheduler::~ScopedScheduler()
 {
-    std::lock_guard lock(mMutex);
+    while (true) {
+        // Don't hold the lock while waiting for a task which is running, it can be submitting new ones
+        std::list<std::shared_ptr<TaskImpl>> submitted;
+        {
+            std::lock_guard lock(mMutex);
+            submitted.swap(mSubmitted);
+        }
 
-    for (const auto& iter : mSubmitted) {
-        if (const auto task = iter->mTask.lock()) {
-            task->cancel();
+        if (submitted.empty()) {
+            break;
         }
-    }
 
-    mSubmitted.clear();
+        for (const auto& iter : submitted) {
+            if (const auto task = iter->mTask.lock()) {
+                task->cancel();
+            }
+        }
+    }
 }
 
 std::weak_ptr<Task> ScopedScheduler::submit(const Delay& delay, const char* file, int line, const Func& func)
-- 
2.43.0


From 0bfdde03ba1df978f1ee1f9eb6e1fefe674c5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 43/51] fix: logging from two threads shared the buffer of
 localtime and the state of std::cout

---
 src/logging.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 58bfe71..6ded58c 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -9,6 +9,7 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <sstream>
 #endif
 
 namespace
@@ -77,7 +78,7 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 #ifdef _WIN32
         localtime_s(&local_tm, &time_t_now);
 #else
-        local_tm = *localtime(&time_t_now);
+        localtime_r(&time_t_now, &local_tm);
 #endif
         const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000;
 
@@ -104,8 +105,13 @@ void log_v(int level, const char* tag, const char* format, va_list ap)
 
         char buf[2048];
         std::vsnprintf(buf, sizeof(buf), format, ap);
-        std::cout << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms
-                  << std::setfill(' ') << " [" << indicator << "] " << tag << ": " << buf << std::endl;
+
+        // Changing the state of std::cout is not safe when another thread is logging too
+        std::ostringstream line;
+        line << std::put_time(&local_tm, "%Y-%m-%d %H:%M:%S") << "." << std::setw(3) << std::setfill('0') << ms
+             << std::setfill(' ') << " [" << indicator << "] " << tag << ": " << buf << '\n';
+
+        std::cout << line.str() << std::flush;
 #endif
     }
 }
-- 
2.43.0


From a3714b9c016487e1e09764326d73df9268e4a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 44/51] fix: getDataChannelMaxMessageSize raced with setAnswer

---
 src/peer_connection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 3794c5c..e7092d4 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -513,6 +513,7 @@ Error PeerConnection::requestPictureLossIndicator(const std::shared_ptr<Track>&
 
 uint32_t PeerConnection::getDataChannelMaxMessageSize() const
 {
+    std::lock_guard lock(mMutex);
     return mDataChannelMaxMessageSize;
 }
 
-- 
2.43.0


From f205f8a95fdb66560094bd48297ddd3112269a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 45/51] fix: connections with data channels and no media
 crashed

---
 src/peer_candidate.cpp | 2 +-
 src/sdp_offer.cpp      | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 63ffeba..12447a8 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -830,7 +830,7 @@ void PeerCandidate::run()
     }
 
     // TWCC
-    if (mResponderTWCC) {
+    if (mResponderTWCC && !mTrackList.empty()) {
         const auto track = mTrackList.front();
         const auto list = mResponderTWCC->run(track);
         if (!list.empty()) {
diff --git a/src/sdp_offer.cpp b/src/sdp_offer.cpp
index 1ff2196..2cc885a 100644
--- a/src/sdp_offer.cpp
+++ b/src/sdp_offer.cpp
@@ -294,6 +294,11 @@ std::pair<std::string, Error> SdpOffer::generate()
         }
     }
 
+    if (!mControlPacketSource) {
+        // There is no media, but there can still be control packets
+        mControlPacketSource = std::make_shared<RtcpPacketSource>(1 + mRandomGenerator.next());
+    }
+
     // Data channels
     if (hasData) {
         ss << "m=application 9 UDP/DTLS/SCTP webrtc-datachannel" << std::endl;
-- 
2.43.0


From 9695c616ccbe9e213688afa5cc932af7ca906415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 46/51] fix: media and track lists were cleared on exit while
 other threads could be using them

---
 src/peer_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index e7092d4..913d896 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -719,8 +719,12 @@ void PeerConnection::networkThreadWorkerFunc()
     mConnectingCandidateList.clear();
     mSelectedCandidate.reset();
 
-    mMediaEntryList.clear();
-    mTrackEntryList.clear();
+    {
+        // Other threads can be using these
+        std::lock_guard lock(mMutex);
+        mMediaEntryList.clear();
+        mTrackEntryList.clear();
+    }
 
     // We are all done, nothing gets reported after this
     setConnectionState(mFinalConnectionState == ConnectionState::Inactive ? ConnectionState::Closed
-- 
2.43.0


From 34b479b021f825ad68032d08f770b46fd5979168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 47/51] fix: messages sent after the end of a connection were
 queued for ever

---
 src/peer_connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peer_connection.cpp b/src/peer_connection.cpp
index 913d896..ddfaa60 100644
--- a/src/peer_connection.cpp
+++ b/src/peer_connection.cpp
@@ -527,6 +527,9 @@ Error PeerConnection::sendDataChannelText(const std::string& label, std::string&
     if (mDataChannelMaxMessageSize > 0 && data.size() > mDataChannelMaxMessageSize) {
         return { Error::Code::InvalidData, "Message size exceeds peer maximum" };
     }
+    if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {
+        return Error::OK;
+    }
 
     mDataSendQueue.emplace_back(DataChannelMessage::makeText(label, std::move(data)));
     mEventLoop->interrupt();
@@ -544,6 +547,9 @@ Error PeerConnection::sendDataChannelBinary(const std::string& label, ByteBuffer
     if (mDataChannelMaxMessageSize > 0 && data.size() > mDataChannelMaxMessageSize) {
         return { Error::Code::InvalidData, "Message size exceeds peer maximum" };
     }
+    if (mConnectionState == ConnectionState::Failed || mConnectionState == ConnectionState::Closed) {
+        return Error::OK;
+    }
 
     mDataSendQueue.emplace_back(DataChannelMessage::makeBinary(label, std::move(data)));
     mEventLoop->interrupt();
-- 
2.43.0


From b0c04328ec33e8c007f9210c1ded95fe0c3aade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 48/51] fix: H264/H265 frames lost the access unit delimiter
 and supplemental information in front of their first slice

---
 include/srtc/codec_h264.h |  1 +
 include/srtc/codec_h265.h |  3 +++
 src/depacketizer_h264.cpp |  4 ++++
 src/depacketizer_h265.cpp |  4 ++++
 src/jitter_buffer.cpp     | 17 ++++++++---------
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/srtc/codec_h264.h b/include/srtc/codec_h264.h
index cf6e883..a363a06 100644
--- a/include/srtc/codec_h264.h
+++ b/include/srtc/codec_h264.h
@@ -24,6 +24,7 @@ static constexpr uint8_t KeyFrame = 5;
 static constexpr uint8_t SEI = 6;
 static constexpr uint8_t SPS = 7;
 static constexpr uint8_t PPS = 8;
+static constexpr uint8_t AUD = 9;
 }; // namespace NaluType
 
 class NaluParser
diff --git a/include/srtc/codec_h265.h b/include/srtc/codec_h265.h
index 4c72931..88305b5 100644
--- a/include/srtc/codec_h265.h
+++ b/include/srtc/codec_h265.h
@@ -22,6 +22,9 @@ static constexpr uint8_t KeyFrame21 = 21; // CRA_NUT
 static constexpr uint8_t VPS = 32;
 static constexpr uint8_t SPS = 33;
 static constexpr uint8_t PPS = 34;
+static constexpr uint8_t AUD = 35;
+
+static constexpr uint8_t PrefixSEI = 39;
 }; // namespace NaluType
 
 //////////
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 97a5495..23cfb72 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -25,6 +25,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with SPS
         return true;
     }
+    if (naluType == srtc::h264::NaluType::AUD || naluType == srtc::h264::NaluType::SEI) {
+        // These precede the slices of a frame
+        return true;
+    }
     if (naluType == srtc::h264::NaluType::NonKeyFrame && size > 0) {
         // Non-key frames start first_mb_in_slice == 0
         if (srtc::h264::isSliceFrameStart(data, size)) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 5fe8f4b..fadb009 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -26,6 +26,10 @@ bool isFrameStartImpl(uint8_t naluType, const uint8_t* data, size_t size)
         // Key frames start with VPS
         return true;
     }
+    if (naluType == srtc::h265::NaluType::AUD || naluType == srtc::h265::NaluType::PrefixSEI) {
+        // These precede the slices of a frame
+        return true;
+    }
     if (!srtc::h265::isKeyFrameNalu(naluType) && srtc::h265::isSliceNalu(naluType) && size > 0) {
         // Non-key frames start with an indicator bit
         if (srtc::h265::isSliceFrameStart(data, size)) {
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 20deb49..7bf57c8 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -300,9 +300,9 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
     // Some packetizers (I'm looking at you AV1) cannot tell if a packet starts a brand-new frame or is a continuation.
     // In this case they'll return "Start" packet kind, and we fix things by extending a frame based on the RTP
-    // timestamp.
+    // timestamp. Same for frames which start with supplemental information, followed by slices.
 
-    if (item->kind == PacketKind::Start) {
+    if (item->kind == PacketKind::Start || item->kind == PacketKind::Standalone) {
         if (mMinSeq < item->seq_ext) {
             const auto prev_seq = item->seq_ext - 1;
             const auto prev_index = prev_seq & mCapacityMask;
@@ -311,7 +311,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
 
             if (prev_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (prev_item->kind == PacketKind::Start || prev_item->kind == PacketKind::Middle) {
-                    item->kind = PacketKind::Middle;
+                    item->kind = item->kind == PacketKind::Start ? PacketKind::Middle : PacketKind::End;
                 }
             }
         }
@@ -327,6 +327,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             if (next_item->rtp_timestamp_ext == item->rtp_timestamp_ext) {
                 if (next_item->kind == PacketKind::Start) {
                     next_item->kind = PacketKind::Middle;
+                } else if (next_item->kind == PacketKind::Standalone) {
+                    next_item->kind = PacketKind::End;
                 }
             }
         }
@@ -478,14 +480,11 @@ std::vector<std::shared_ptr<EncodedFrame>> JitterBuffer::processDeque()
 #ifdef NDEBUG
 #else
                     assert(!mTempPacketList.empty());
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.front()->payload,
-                                                        mTempPacketList.front()->marker) == PacketKind::Start);
+                    assert(mTempPacketList.front()->kind == PacketKind::Start);
                     for (size_t i = 1; i < mTempPacketList.size() - 1; i += 1) {
-                        assert(mDepacketizer->getPacketKind(mTempPacketList[i]->payload, mTempPacketList[i]->marker) ==
-                               PacketKind::Middle);
+                        assert(mTempPacketList[i]->kind == PacketKind::Middle);
                     }
-                    assert(mDepacketizer->getPacketKind(mTempPacketList.back()->payload,
-                                                        mTempPacketList.back()->marker) == PacketKind::End);
+                    assert(mTempPacketList.back()->kind == PacketKind::End);
 #endif
 
                     // Extract, possibly into multiple frames
-- 
2.43.0


From f1c1fa5569953fa42bbd0b1d7b5ed2617229578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 49/51] fix: a jump of a source's timestamps held back all of
 its later frames until real time caught up

---
 src/jitter_buffer.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 7bf57c8..2aca40c 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -18,6 +18,7 @@ namespace
 {
 
 constexpr auto kNoPacketsResetDelay = std::chrono::milliseconds(2000);
+constexpr auto kMaxTimestampLead = std::chrono::milliseconds(1000);
 
 // We calculate timeouts for the event loop (when there are no network events) with millisecond precision. When we
 // time out and go to process actual logic like de-queuing frames or sending nacks, we need to use millisecond precision
@@ -185,7 +186,18 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
     const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
     const auto time_delta =
         std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
-    const auto packet_time = mBaseTime + time_delta;
+    auto packet_time = mBaseTime + time_delta;
+    if (seq_ext + 1 >= mMaxSeq && packet_time > now + kMaxTimestampLead) {
+        // The timestamps jumped ahead of real time, don't hold frames back until it catches up
+        LOG(SRTC_LOG_W,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: timestamp discontinuity at SEQ = %" PRIu16,
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        mBaseTime = now;
+        mBaseRtpTimestamp = rtp_timestamp_ext;
+        packet_time = now;
+    }
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
     const auto when_nack_abandon = when_dequeue;
-- 
2.43.0


From 0447b3b3ea7b7e515f3ab2a1797e932c4e20cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:43 +0000
Subject: [PATCH 50/51] fix: keep SCTP acknowledgements within the MTU

---
 src/sctp/sctp_defs.h      | 1 +
 src/sctp/sctp_session.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 579bacb..6c99922 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -65,6 +65,7 @@ constexpr uint32_t kReconfigResultSuccess = 0x00000000;
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
 constexpr uint16_t kInitStreams = 1024;
 constexpr size_t   kMaxOutOfOrderChunks = 1024; // chunks held until those before them arrive
+constexpr size_t   kMaxGapBlocks        = 256; // gap blocks in one SACK, so that it fits the MTU
 
 // Retransmit timers (RFC 4960 defaults)
 constexpr unsigned kMaxInitRetransmits = 8;      // max retransmits for INIT and COOKIE_ECHO
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 874f786..1458e11 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -784,6 +784,12 @@ void SctpSession::sendSack()
         if (inBlock) {
             gapBlocks.push_back({ blockStart, blockEnd });
         }
+
+        // The packet has to fit the MTU: RFC 4960 says to report as many blocks as fit, those with the lowest TSNs
+        // first. The rest will be reported as the cumulative TSN moves.
+        if (gapBlocks.size() > kMaxGapBlocks) {
+            gapBlocks.resize(kMaxGapBlocks);
+        }
     }
 
     ByteBuffer body;
-- 
2.43.0


From d9aee6ae8407220fb48fd1ee914e3d2ef6c27d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 51/51] fix: answer a stream reset only after the data sent
 before it has arrived

The last TSN of an outgoing SSN reset request was ignored, so a request
which overtook lost or delayed data closed the channel, and the messages
sent on it before were dropped when they arrived. Answer "in progress"
until everything before the reset is there (RFC 6525 5.2.2).
---
 src/sctp/sctp_defs.h      |  1 +
 src/sctp/sctp_session.cpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_defs.h b/src/sctp/sctp_defs.h
index 6c99922..fa315cb 100644
--- a/src/sctp/sctp_defs.h
+++ b/src/sctp/sctp_defs.h
@@ -60,6 +60,7 @@ constexpr uint16_t kParamReconfigResponse = 0x0010;
 
 // RE-CONFIG response result codes (RFC 6525 §4.4)
 constexpr uint32_t kReconfigResultSuccess = 0x00000000;
+constexpr uint32_t kReconfigResultInProgress = 0x00000006;
 
 // Session limits
 constexpr uint32_t kInitRwnd    = 131072;   // 128 KB receive window
diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 1458e11..15ae8b5 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -622,7 +622,8 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         //   requestSeqNum(4) + responseSeqNum(4) + lastTsn(4) + streamIds(2 each)
         ByteReader r(param.data, param.size);
         const auto requestSeqNum = r.readU32();
-        r.skip(8); // responseSeqNum, lastTsn
+        r.skip(4); // responseSeqNum
+        const auto lastTsn = r.readU32();
 
         const auto numStreams = r.remaining() / 2;
         std::vector<uint16_t> streamIds;
@@ -631,6 +632,12 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
             streamIds.push_back(r.readU16());
         }
 
+        // What the peer sent before the reset can still be on its way, RFC 6525 5.2.2: the peer will repeat the request
+        const auto isInProgress = static_cast<int32_t>(lastTsn - mPeerCumulativeTsn) > 0;
+        if (isInProgress) {
+            streamIds.clear();
+        }
+
         // Close matching channels and notify listener
         for (const auto streamId : streamIds) {
             for (auto it = mDataChannels.begin(); it != mDataChannels.end(); ++it) {
@@ -648,7 +655,7 @@ void SctpSession::onReceiveReconfig(const SctpPacket::Chunk& chunk)
         pw.writeU16(kParamReconfigResponse);
         pw.writeU16(12); // type(2) + length(2) + seqNum(4) + result(4)
         pw.writeU32(requestSeqNum);
-        pw.writeU32(kReconfigResultSuccess);
+        pw.writeU32(isInProgress ? kReconfigResultInProgress : kReconfigResultSuccess);
 
         SctpPacketBuilder builder(mLocalPort, mRemotePort, mPeerTag);
         builder.addChunk(kChunkReconfig, 0, responseParam);
-- 
2.43.0

