From 5698ec975c69275d6b9ecf2046c34adfb3eca2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:23 +0000
Subject: [PATCH 01/65] fix: WriteUIntSize refuses values beyond 2^56-2 when
 the width is automatic

---
 mkvmuxer/mkvmuxerutil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..5c735be 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -401,12 +401,10 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
       if (value <= max)
         break;
 
-      ++size;
+      if (++size > 8)
+        return -1;
     }
 
-    if (size > 8)
-      return false;
-
     value |= bit;
   }
 
-- 
2.43.0


From bfe56f85aa4cbe523d3a2edc5be404e702989437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:01 +0000
Subject: [PATCH 02/65] fix: report a positive reader status as missing data in
 mkvparser's Unserialize functions

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..8b06c1e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
-- 
2.43.0


From 0f5dfa0ec619d47eba4c5bad447421de558bdf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:22 +0000
Subject: [PATCH 03/65] fix: mkvparser Match() compares the available bytes the
 right way round

---
 mkvparser/mkvparser.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8b06c1e..90697cf 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -419,7 +419,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   long len = 0;
 
   const long long id = ReadID(pReader, pos, len);
-  if (id < 0 || (available - pos) > len)
+  if (id < 0 || (available - pos) < len)
     return false;
 
   if (static_cast<unsigned long>(id) != expected_id)
@@ -428,7 +428,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   pos += len;  // consume id
 
   const long long size = ReadUInt(pReader, pos, len);
-  if (size < 0 || size > 8 || len < 1 || len > 8 || (available - pos) > len)
+  if (size < 0 || size > 8 || len < 1 || len > 8 || (available - pos) < len)
     return false;
 
   pos += len;  // consume length of size of payload
@@ -456,7 +456,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
 
   long len = 0;
   const long long id = ReadID(pReader, pos, len);
-  if (id < 0 || (available - pos) > len)
+  if (id < 0 || (available - pos) < len)
     return false;
 
   if (static_cast<unsigned long>(id) != expected_id)
@@ -465,7 +465,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   pos += len;  // consume id
 
   const long long size = ReadUInt(pReader, pos, len);
-  if (size < 0 || len <= 0 || len > 8 || (available - pos) > len)
+  if (size < 0 || len <= 0 || len > 8 || (available - pos) < len)
     return false;
 
   unsigned long long rollover_check =
@@ -492,8 +492,11 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
     return false;
 
   status = pReader->Read(pos, buflen_, buf);
-  if (status != 0)
+  if (status != 0) {
+    delete[] buf;
+    buf = NULL;
     return false;
+  }
 
   buflen = buflen_;
 
-- 
2.43.0


From 5d2be5746b274b2cc5d119d0fe0bf64132e82d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:39 +0000
Subject: [PATCH 04/65] fix: FloatParser reports zero bytes read for an empty
 element

---
 webm_parser/src/float_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/webm_parser/src/float_parser.cc b/webm_parser/src/float_parser.cc
index fc46860..302643f 100644
--- a/webm_parser/src/float_parser.cc
+++ b/webm_parser/src/float_parser.cc
@@ -46,6 +46,8 @@ Status FloatParser::Feed(Callback* callback, Reader* reader,
   assert(reader != nullptr);
   assert(num_bytes_read != nullptr);
 
+  *num_bytes_read = 0;
+
   if (num_bytes_remaining_ == 0) {
     return Status(Status::kOkCompleted);
   }
-- 
2.43.0


From 5be40ea92f6129a42be75352d40ba6a632834b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:37 +0000
Subject: [PATCH 05/65] fix: initialise Vp9HeaderParser's display size

---
 common/vp9_header_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..b9458ab 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,6 +47,8 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
         frame_parallel_mode_(0) {}
-- 
2.43.0


From 59792db2613b2c7db244771845299ec56cbc7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:37 +0000
Subject: [PATCH 06/65] fix: Vp9HeaderParser reports failure for a truncated
 header

---
 common/vp9_header_parser.cc | 6 ++++--
 common/vp9_header_parser.h  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..ed491df 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -18,6 +18,7 @@ bool Vp9HeaderParser::SetFrame(const uint8_t* frame, size_t length) {
   frame_ = frame;
   frame_size_ = length;
   bit_offset_ = 0;
+  truncated_ = false;
   profile_ = -1;
   show_existing_frame_ = 0;
   key_ = 0;
@@ -51,7 +52,7 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
   // TODO(fgalligan): Decide how to handle show existing frames.
   show_existing_frame_ = ReadBit();
   if (show_existing_frame_)
-    return true;
+    return !truncated_;
 
   key_ = !ReadBit();
   altref_ = !ReadBit();
@@ -111,7 +112,7 @@ bool Vp9HeaderParser::ParseUncompressedHeader(const uint8_t* frame,
         ParseFrameResolution();
     }
   }
-  return true;
+  return !truncated_;
 }
 
 int Vp9HeaderParser::ReadBit() {
@@ -123,6 +124,7 @@ int Vp9HeaderParser::ReadBit() {
     bit_offset_++;
     return bit;
   } else {
+    truncated_ = true;
     return 0;
   }
 }
diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index b9458ab..a635aaa 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -32,6 +32,7 @@ class Vp9HeaderParser {
       : frame_(NULL),
         frame_size_(0),
         bit_offset_(0),
+        truncated_(false),
         profile_(-1),
         show_existing_frame_(0),
         key_(0),
@@ -104,6 +105,7 @@ class Vp9HeaderParser {
   const uint8_t* frame_;
   size_t frame_size_;
   size_t bit_offset_;
+  bool truncated_;
   int profile_;
   int show_existing_frame_;
   int key_;
-- 
2.43.0


From ceaa3a5153747934d49819017b83b13b6062dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 07/65] fix: compute the luma picture size in 64 bits

---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From d3638f176a0cad316ce755ca3e107610ffd3624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 08/65] fix: report an unknown VP9 level when a limit of the
 highest level is exceeded

---
 common/vp9_level_stats.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b06bbe6..b5f59ff 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -138,6 +138,18 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   Vp9Level max_level = LEVEL_UNKNOWN;
   const double grace_multiplier =
       max_luma_sample_rate_grace_percent_ / 100.0 + 1.0;
+
+  // No defined level fits a stream which exceeds the limits of the last level.
+  const Vp9LevelRow& last_level = Vp9LevelTable[kNumVp9Levels - 1];
+  if (max_luma_sample_rate >
+          last_level.max_luma_sample_rate * grace_multiplier ||
+      max_luma_picture_size > last_level.max_luma_picture_size ||
+      max_luma_picture_breadth > last_level.max_luma_picture_breadth ||
+      average_bitrate > last_level.average_bitrate ||
+      max_column_tiles > last_level.max_tiles) {
+    return LEVEL_UNKNOWN;
+  }
+
   for (int i = 0; i < kNumVp9Levels; ++i) {
     if (max_luma_sample_rate <=
         Vp9LevelTable[i].max_luma_sample_rate * grace_multiplier) {
-- 
2.43.0


From f17d5ff7a8cbc155be54c47f0dbe85e9253a995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 09/65] fix: a CPB size beyond level 5.1 requires at least
 level 5.2

---
 common/vp9_level_stats.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b5f59ff..5b8b9ac 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -188,8 +188,8 @@ Vp9Level Vp9LevelStats::GetLevel() const {
     }
   }
   for (int i = 0; i < kNumVp9Levels; ++i) {
-    // Only check CPB size for levels that are defined.
-    if (Vp9LevelTable[i].max_cpb_size > 0 &&
+    // A max CPB size of 0 means that the level does not limit the CPB size.
+    if (Vp9LevelTable[i].max_cpb_size == 0 ||
         max_cpb_size <= Vp9LevelTable[i].max_cpb_size) {
       if (max_level < Vp9LevelTable[i].level) {
         max_level = Vp9LevelTable[i].level;
-- 
2.43.0


From 9f47a3cb84e87ecd942212aa7695d22a9324d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 10/65] fix: a stream without two altref frames meets every
 altref distance limit

---
 common/vp9_level_stats.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 5b8b9ac..54ad0c1 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -222,7 +222,8 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   // If not, set to unknown level as we can't move up a level as the minimum
   // altref distance get farther apart and we can't move down a level as we are
   // already at the minimum level for all the other requirements.
-  if (min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
+  if (min_altref_distance != -1 &&
+      min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
     max_level = LEVEL_UNKNOWN;
 
   // The minimum compression ratio has the same behavior as minimum altref
-- 
2.43.0


From cdd70718fcd6dec3b8b460cf0134b9eca6c3300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:27 +0000
Subject: [PATCH 11/65] fix: check the reference frame limit of the estimated
 VP9 level

---
 common/vp9_level_stats.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 54ad0c1..964847e 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -230,6 +230,11 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   // distance.
   if (compression_ratio < Vp9LevelTable[level_index].compression_ratio)
     max_level = LEVEL_UNKNOWN;
+
+  // Higher levels allow fewer reference frames, so moving up does not help
+  // either.
+  if (max_ref_frames > Vp9LevelTable[level_index].max_ref_frames)
+    max_level = LEVEL_UNKNOWN;
   return max_level;
 }
 
-- 
2.43.0


From 981c63c703e51ce262d32bcd6eca536b9a285fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:41 +0000
Subject: [PATCH 12/65] fix: accept VP9 superframes whose frames are shorter
 than the index

---
 common/libwebm_util.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index d158250..4177b45 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -54,8 +54,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     // Consume the super frame index. Note: it's at the end of the super frame.
     const std::size_t length = frame_length - index_length;
 
-    if (length >= index_length &&
-        frame[frame_length - index_length] == marker) {
+    if (frame[frame_length - index_length] == marker) {
       // Found a valid superframe index.
       const std::uint8_t* byte = frame + length + 1;
 
-- 
2.43.0


From cd5c5e6b6efdce6f6270def275da4865e9a0d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:41 +0000
Subject: [PATCH 13/65] fix: superframe index parsing must not keep ranges of
 an earlier frame

---
 common/libwebm_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index 4177b45..31cbb0c 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -32,6 +32,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     return false;
   }
 
+  frame_ranges->clear();
   bool parse_ok = false;
   const std::uint8_t marker = frame[frame_length - 1];
   const std::uint32_t kHasSuperFrameIndexMask = 0xe0;
-- 
2.43.0


From a97af1cb8e7c000f6cc58fff747b43fc2329eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:41 +0000
Subject: [PATCH 14/65] fix: refuse an invalid VP9 level that follows a valid
 one in the codec private data

---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..ce6db54 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,8 +179,10 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool level_valid = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
+          level_valid = true;
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
               features->level != priv_level) {
             return false;
@@ -189,7 +191,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!level_valid)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From 50f409a8e573189ec314d1441c0f9173f513e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 15/65] fix: keep the middle PTS bits of PES headers inside
 their byte

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From a2f51520806ec60f49ea2acf0be04be42f8518a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 16/65] fix: compute the top bits of a parsed PTS in 64 bits

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..de76162 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -176,7 +176,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
+    header->pts = static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
                   ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
                   (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
-- 
2.43.0


From 3c14d59079f59cea9c2f9092804338538afd11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 17/65] fix: remove emulation prevention bytes that follow more
 than two zeros

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index de76162..5b63af0 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -318,7 +318,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 0be75f240bcfe6721a22c018b89885afb24c4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 18/65] fix: remove emulation prevention bytes from the first
 payload fragment

---
 m2ts/vpxpes_parser.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 5b63af0..d80911c 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -263,10 +263,13 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_fragment_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          &pes_file_data_[read_pos_], first_fragment_length, &payload_,
+          &first_fragment_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_fragment_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
-- 
2.43.0


From 0e7e5f43973dfd38257dc9c1fe492e1ea3984a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 19/65] fix: escape start codes that begin in the zero padding
 of the BCMV header

---
 m2ts/vpxpes_parser.cc | 5 +++++
 m2ts/webm2pes.cc      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index d80911c..3d03418 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -307,7 +307,12 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
   if (bytes_required == 0 || !processed_data)
     return false;
 
+  // Zeros in front of |raw_data| can be the beginning of a start code.
   std::size_t num_zeros = 0;
+  for (const std::uint8_t* prev = raw_data;
+       prev > &pes_file_data_[0] && num_zeros < 2 && prev[-1] == 0; --prev) {
+    ++num_zeros;
+  }
   std::size_t bytes_copied = 0;
   const std::uint8_t* const end_of_input =
       &pes_file_data_[0] + pes_file_data_.size();
diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 4fdb751..3d1ced8 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -530,7 +530,12 @@ bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
   if (raw_input == nullptr || raw_input_length < 1 || packet_buffer == nullptr)
     return false;
 
+  // Zeros at the end of |packet_buffer| can be the beginning of a start code.
   int num_zeros = 0;
+  for (std::size_t i = packet_buffer->size();
+       i > 0 && num_zeros < 2 && (*packet_buffer)[i - 1] == 0; --i) {
+    ++num_zeros;
+  }
   for (std::size_t i = 0; i < raw_input_length; ++i) {
     const uint8_t byte = raw_input[i];
 
-- 
2.43.0


From b749c8633552fd41c897f49126428cebb23f2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:41 +0000
Subject: [PATCH 20/65] fix: convert the frames of the video track whatever its
 track number

---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 3d1ced8..19a2b6c 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From eba84832dda092aaeafe357ebdb51f88702bd5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:17 +0000
Subject: [PATCH 21/65] fix: do not read one byte past the PES data when
 removing emulation prevention

---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 3d03418..b0daa40 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -318,7 +318,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
-- 
2.43.0


From 12ab979fd85f223c6f90adedee8d8bd2e0cd0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:17 +0000
Subject: [PATCH 22/65] fix: do not read a PES packet header past the end of
 the data

---
 m2ts/vpxpes_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index b0daa40..332af86 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 3 > pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -95,8 +95,10 @@ bool VpxPesParser::ParsePesHeader(PesHeader* header) {
   if (!header || parse_state_ != kParsePesHeader)
     return false;
 
-  if (!VerifyPacketStartCode())
+  if (BytesAvailable() < static_cast<int>(kPesHeaderSize) ||
+      !VerifyPacketStartCode()) {
     return false;
+  }
 
   std::size_t pos = read_pos_;
   for (auto& a : header->start_code) {
-- 
2.43.0


From 908f254387813ab46ae50af8e40bf8a81a356864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:17 +0000
Subject: [PATCH 23/65] fix: refuse PES and BCMV lengths shorter than the
 headers they include

---
 m2ts/vpxpes_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 332af86..a3a7ee1 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -263,6 +263,8 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length < kPesOptionalHeaderSize + kBcmvHeaderSize)
+    return false;
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
   std::size_t first_fragment_consumed = 0;
@@ -290,6 +292,8 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    if (header.packet_length < kPesOptionalHeaderSize)
+      return false;
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
@@ -372,6 +376,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   }
 
   // BCMV header length includes the length of the BCMVHeader itself. Adjust:
+  if (header->bcmv_header.length < BcmvHeader::size())
+    return false;
   const std::size_t payload_length =
       header->bcmv_header.length - BcmvHeader::size();
 
-- 
2.43.0


From 56d7aa1e0f722f19d2c589f64f85579b629a56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:17 +0000
Subject: [PATCH 24/65] fix: drop the payload of a failed PES packet before
 parsing the next one

---
 m2ts/vpxpes_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index a3a7ee1..4f5128f 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -364,6 +364,7 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   }
   parse_state_ = kParsePesHeader;
   read_pos_ = packet_start_pos;
+  payload_.clear();
 
   if (!ParsePesHeader(header)) {
     return false;
-- 
2.43.0


From eb16486c85fb9a0b2f2ffcd204585837178b8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:17 +0000
Subject: [PATCH 25/65] fix: refuse payload fragments beyond the frame length
 of the BCMV header

---
 m2ts/vpxpes_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f5128f..65e9fdc 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -267,6 +267,8 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
     return false;
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
+  if (first_fragment_length > payload_length)
+    return false;
   std::size_t first_fragment_consumed = 0;
   if (!RemoveStartCodeEmulationPreventionBytes(
           &pes_file_data_[read_pos_], first_fragment_length, &payload_,
@@ -296,6 +298,8 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
+    if (fragment_length > payload_length - payload_.size())
+      return false;
     std::size_t consumed = 0;
     if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
                                                  fragment_length, &payload_,
-- 
2.43.0


From 6719d0448c12dd05e009c699651d85eb19b5c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:37 +0000
Subject: [PATCH 26/65] fix: continue the TS continuity counter from one PES
 packet to the next

---
 m2ts/vpxpes2ts.cc | 9 ++++-----
 m2ts/vpxpes2ts.h  | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..bd8be99 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,14 +147,13 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.reserve(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
+    if (continuity_counter_ > 0xf)
+      continuity_counter_ = 0;
 
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
@@ -163,7 +162,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +194,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_++;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..0eba0c4 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -38,6 +38,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Continuity counter of the next TS packet.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From 39bfa9f8c921950bc84e4e957ccac42dcd2ae0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:56 +0000
Subject: [PATCH 27/65] fix: keep skipping unseekable input until done or at
 its end

---
 webm_parser/src/file_reader.cc    | 2 +-
 webm_parser/src/istream_reader.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..31c9fa2 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -111,7 +111,7 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
       num_to_read = static_cast<std::size_t>(num_to_skip);
     }
 
-    std::size_t actual =
+    actual =
         std::fread(static_cast<void*>(junk), 1, num_to_read, file_.get());
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..1443911 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -102,7 +102,7 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
 
   // Seeking doesn't work on things like pipes, so if seeking failed then fall
   // back to reading the data into a junk buffer.
-  std::size_t actual = 0;
+  std::streamsize actual = 0;
   do {
     char junk[1024];
     std::streamsize num_to_read = static_cast<std::streamsize>(sizeof(junk));
@@ -111,7 +111,7 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
     }
 
     istream_->read(junk, num_to_read);
-    std::streamsize actual = istream_->gcount();
+    actual = istream_->gcount();
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
     num_to_skip -= static_cast<std::uint64_t>(actual);
-- 
2.43.0


From 2d6367d55f247133a2b41b6319ea8938a18cebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:05 +0000
Subject: [PATCH 28/65] fix: scale WebVTT fractions by their number of digits

---
 webvtt/webvttparser.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..7233d9d 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,17 +476,24 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type fraction_pos = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
+    // The number of digits determines the scale (".5" is 500 ms, ".05" is
+    // 50 ms, and ".005" is 5 ms).
+
+    const std::string::size_type fraction_digits = idx - fraction_pos;
+
+    if (fraction_digits > 3)
       return -1;
 
-    if (val < 10)
+    if (fraction_digits == 1)
       t.milliseconds = val * 100;
-    else if (val < 100)
+    else if (fraction_digits == 2)
       t.milliseconds = val * 10;
     else
       t.milliseconds = val;
-- 
2.43.0


From a6d0371ef512cbf46c6ed14ec6235417fb7cca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:05 +0000
Subject: [PATCH 29/65] fix: convert WebVTT presentation times in 64 bits

---
 webvtt/webvttparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 7233d9d..8d93083 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -676,14 +676,14 @@ Time& Time::presentation(presentation_t d) {
     return *this;
   }
 
-  seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d % 1000);
+  d /= 1000;
 
-  minutes = seconds / 60;
-  seconds -= 60 * minutes;
+  seconds = static_cast<int>(d % 60);
+  d /= 60;
 
-  hours = minutes / 60;
-  minutes -= 60 * hours;
+  minutes = static_cast<int>(d % 60);
+  hours = static_cast<int>(d / 60);
 
   return *this;
 }
-- 
2.43.0


From 577dcfc4795f57571e9b8f5c85cbc5a62c7efb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 30/65] fix: refuse lace sizes that wrap around or leave the
 block

---
 webm_parser/src/block_parser.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..5b74082 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -9,7 +9,6 @@
 
 #include <cassert>
 #include <cstdint>
-#include <numeric>
 #include <type_traits>
 #include <vector>
 
@@ -223,9 +222,17 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
-        if (sum >= frame_metadata_.parent_element.size) {
+        const std::uint64_t size = frame_metadata_.parent_element.size;
+        std::uint64_t sum = header_bytes_read_;
+        for (std::uint64_t lace_size : lace_sizes_) {
+          // Compare with what is left, since lace sizes can be large enough for
+          // their sum to wrap around.
+          if (sum >= size || lace_size >= size - sum) {
+            return Status(Status::kInvalidElementValue);
+          }
+          sum += lace_size;
+        }
+        if (sum >= size) {
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.push_back(frame_metadata_.parent_element.size - sum);
-- 
2.43.0


From 877a7408b26ceceae2a350bffb4705a590926421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 31/65] fix: count the element header in fixed lacing frame
 positions

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 5b74082..8b5a25f 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -214,8 +214,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From 6808141dae9368e733e404d0df89a498fdc3fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 32/65] fix: refuse blocks that end within their header before
 reporting them

---
 webm_parser/src/block_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 8b5a25f..c947491 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -127,6 +127,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kGettingAction: {
+        if (header_bytes_read_ >= frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        }
         Action action = Action::kRead;
         status = BasicBlockBegin(frame_metadata_.parent_element, value_,
                                  callback, &action);
-- 
2.43.0


From c345582b8813b5f8f420284dab304dc286d7930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 33/65] fix: consume all of a BlockVirtual element

---
 webm_parser/src/virtual_block_parser.cc | 15 +++++++++++++++
 webm_parser/src/virtual_block_parser.h  |  9 +++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..e093020 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -58,6 +58,21 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
         if (my_size_ < total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
+        state_ = State::kSkippingRemainder;
+        continue;
+      }
+
+      case State::kSkippingRemainder: {
+        // Anything that follows the header is ignored.
+        while (total_bytes_read_ < my_size_) {
+          status = reader->Skip(my_size_ - total_bytes_read_,
+                                &local_num_bytes_read);
+          *num_bytes_read += local_num_bytes_read;
+          total_bytes_read_ += local_num_bytes_read;
+          if (!status.ok()) {
+            return status;
+          }
+        }
         state_ = State::kDone;
         continue;
       }
diff --git a/webm_parser/src/virtual_block_parser.h b/webm_parser/src/virtual_block_parser.h
index d7b8cd7..fb5236b 100644
--- a/webm_parser/src/virtual_block_parser.h
+++ b/webm_parser/src/virtual_block_parser.h
@@ -56,10 +56,11 @@ class VirtualBlockParser : public ElementParser {
 
   enum class State {
     /* clang-format off */
-    // State             Transitions to state  When
-    kReadingHeader,   // kValidatingSize       header parsed
-    kValidatingSize,  // kDone                 no errors
-    kDone,            // No transitions from here (must call Init)
+    // State                Transitions to state  When
+    kReadingHeader,      // kValidatingSize       header parsed
+    kValidatingSize,     // kSkippingRemainder    no errors
+    kSkippingRemainder,  // kDone                 all of the element consumed
+    kDone,               // No transitions from here (must call Init)
     /* clang-format on */
   } state_ = State::kReadingHeader;
 };
-- 
2.43.0


From 007ce83effeb59051436f7b675f2527e2a1ad669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:04 +0000
Subject: [PATCH 34/65] fix: keep the position of the element that ends an
 unsized Segment

---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From db0bec126b1118c568478106cc343776c98088b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:04 +0000
Subject: [PATCH 35/65] fix: do not drop an empty element that ends an unsized
 one

---
 webm_parser/src/master_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..6f5b8fc 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -245,13 +245,15 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
+        // An element that ended an unsized child may be empty and lie right at
+        // the end, so it must be handled before checking for the end.
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From 6f0155e7d9df9985a823097811813ee098d5416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:04 +0000
Subject: [PATCH 36/65] fix: end an unsized element that has no room left in
 its parent

---
 webm_parser/src/master_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 6f5b8fc..9151115 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -35,7 +35,7 @@ Status MasterParser::Init(const ElementMetadata& metadata,
     max_size_ = max_size;
   }
 
-  if (metadata.size == 0) {
+  if (max_size_ == 0) {
     state_ = State::kEndReached;
   } else {
     state_ = State::kFirstReadOfChildId;
-- 
2.43.0


From 00044e042745d65407e8495af567449adbcd50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:04 +0000
Subject: [PATCH 37/65] fix: forward cached metadata and skips from recursive
 elements

---
 webm_parser/src/recursive_parser.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..333decb 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,18 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
+  bool WasSkipped() const override {
+    assert(impl_ != nullptr);
+
+    return impl_->WasSkipped();
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From c14c792c53d41ffabca407fc0f8ec2a2202f9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 38/65] fix: refuse a child header that leaves its parent
 instead of asserting

---
 webm_parser/src/master_parser.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 9151115..a605db4 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -123,7 +123,10 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kFinishingReadingChildId: {
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
+        if (my_size_ != kUnknownElementSize && total_bytes_read_ >= my_size_) {
+          // The child's header continues past the end of this element.
+          return Status(Status::kElementOverflow);
+        }
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From 6e3e7a9427672435eccd49410a46bf6324b02d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 39/65] fix: a skipped unsized child neither starts its parent
 nor leaves a value

OnElementBegin answered with kSkip for an unsized first BlockGroup swallowed
the Cluster's begin and end events, and skipped unsized children were still
stored in their parent.
---
 webm_parser/src/master_parser.h       | 3 +++
 webm_parser/src/master_value_parser.h | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/master_parser.h b/webm_parser/src/master_parser.h
index d3ca7c7..95fa76c 100644
--- a/webm_parser/src/master_parser.h
+++ b/webm_parser/src/master_parser.h
@@ -114,6 +114,9 @@ class MasterParser : public ElementParser {
     return child_metadata_;
   }
 
+  // Returns true if the child that is currently being parsed is being skipped.
+  bool child_is_skipped() const { return action_ == Action::kSkip; }
+
  protected:
   // Allocates a new parser of type T, forwarding args to the constructor, and
   // creates a std::pair<Id, std::unique_ptr<ElementParser>> using the given id
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..afddbf5 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -448,7 +448,7 @@ class MasterValueParser : public ElementParser {
 
       status = Base::Feed(callback, reader, num_bytes_read);
       if (status.completed_ok() && parent_->action_ != Action::kSkip &&
-          !WasSkipped()) {
+          !parent_->master_parser_.child_is_skipped() && !WasSkipped()) {
         consume_element_value_(this);
         if (has_tag<TagNotifyOnParseComplete>()) {
           parent_->OnChildParsed(parent_->child_metadata());
@@ -462,7 +462,10 @@ class MasterValueParser : public ElementParser {
     F consume_element_value_;
 
     Status Prepare(Callback* callback) {
-      if (has_tag<TagUseAsStart>() && !parent_->started_done_) {
+      // A skipped child must not start its parent: callback only discards the
+      // child's events, not the parent's.
+      if (has_tag<TagUseAsStart>() && !parent_->started_done_ &&
+          !parent_->master_parser_.child_is_skipped()) {
         const Status status =
             parent_->OnParseStarted(callback, &parent_->action_);
         if (!status.completed_ok()) {
-- 
2.43.0


From b3df5b39d8a440320dba815887f3f99bf18b269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 40/65] fix: know the ancestors of colour and projection
 elements when resuming after a seek

---
 webm_parser/src/ancestory.cc | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..ea1fec4 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -69,11 +69,12 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
   static constexpr Id kTimeSliceAncestory[] = {
       Id::kSegment, Id::kCluster, Id::kBlockGroup, Id::kSlices, Id::kTimeSlice,
   };
-  static constexpr Id kVideoAncestory[] = {
-      Id::kSegment,
-      Id::kTracks,
-      Id::kTrackEntry,
-      Id::kVideo,
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry, Id::kVideo, Id::kProjection,
   };
   static constexpr Id kAudioAncestory[] = {
       Id::kSegment,
@@ -187,7 +188,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
       return true;
 
     case Id::kTrackEntry:
-      *ancestory = Ancestory(kVideoAncestory, 2);
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 2);
       return true;
 
     case Id::kTrackNumber:
@@ -208,7 +209,7 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kVideo:
     case Id::kAudio:
     case Id::kContentEncodings:
-      *ancestory = Ancestory(kVideoAncestory, 3);
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 3);
       return true;
 
     case Id::kFlagInterlaced:
@@ -225,7 +226,47 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
-      *ancestory = Ancestory(kVideoAncestory, 4);
+    case Id::kColour:
+    case Id::kProjection:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 4);
+      return true;
+
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
       return true;
 
     case Id::kSamplingFrequency:
-- 
2.43.0


From 6628f3d68f400751c231a503f1572026a1deb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 41/65] fix: accept mastering metadata with a maximum luminance
 and no minimum

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..9f7e126 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -993,13 +993,15 @@ uint64_t MasteringMetadata::MasteringMetadataSize() const {
 bool MasteringMetadata::Valid() const {
   if (luminance_min_ != kValueNotPresent) {
     if (luminance_min_ < kMinLuminance || luminance_min_ > kMinLuminanceMax ||
-        luminance_min_ > luminance_max_) {
+        (luminance_max_ != kValueNotPresent &&
+         luminance_min_ > luminance_max_)) {
       return false;
     }
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From 9983bd1e33acccd0d7115c1640ffb74698ce1671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 42/65] fix: accept the largest luminances the muxer writes

---
 mkvparser/mkvparser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 90697cf..8636e1d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5084,7 +5084,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_max = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_max < 0.0 ||
-          mm_ptr->luminance_max > 9999.99) {
+          mm_ptr->luminance_max > 9999.99f) {
         return false;
       }
     } else if (child_id == libwebm::kMkvLuminanceMin) {
@@ -5097,7 +5097,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
       mm_ptr->luminance_min = static_cast<float>(value);
       if (value_parse_status < 0 || mm_ptr->luminance_min < 0.0 ||
-          mm_ptr->luminance_min > 999.9999) {
+          mm_ptr->luminance_min > 999.9999f) {
         return false;
       }
     } else {
-- 
2.43.0


From aa223131aeb91b50b555f716640874fc7fdc2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:52 +0000
Subject: [PATCH 43/65] fix: free a video track's colour space and replaced
 chromaticities

---
 mkvmuxer/mkvmuxer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 9f7e126..6dec32d 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1079,6 +1079,10 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
+  delete g_;
+  delete b_;
+  delete white_point_;
   r_ = r_ptr.release();
   g_ = g_ptr.release();
   b_ = b_ptr.release();
@@ -1431,6 +1435,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From 294566299c317fecf9274bf1d4b94576bfcee99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:52 +0000
Subject: [PATCH 44/65] fix: skip unknown elements in colour, mastering
 metadata and projection

---
 mkvparser/mkvparser.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 8636e1d..7d4dd61 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5102,7 +5102,7 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
       }
     } else {
       bool is_x = false;
-      PrimaryChromaticity** chromaticity;
+      PrimaryChromaticity** chromaticity = NULL;
       switch (child_id) {
         case libwebm::kMkvPrimaryRChromaticityX:
         case libwebm::kMkvPrimaryRChromaticityY:
@@ -5125,11 +5125,11 @@ bool MasteringMetadata::Parse(IMkvReader* reader, long long mm_start,
           chromaticity = &mm_ptr->white_point;
           break;
         default:
-          return false;
+          break;  // unknown element: skip it
       }
-      const bool value_parse_status = PrimaryChromaticity::Parse(
-          reader, read_pos, child_size, is_x, chromaticity);
-      if (!value_parse_status)
+      if (chromaticity &&
+          !PrimaryChromaticity::Parse(reader, read_pos, child_size, is_x,
+                                      chromaticity))
         return false;
     }
 
@@ -5228,9 +5228,7 @@ bool Colour::Parse(IMkvReader* reader, long long colour_start,
       if (!MasteringMetadata::Parse(reader, read_pos, child_size,
                                     &colour_ptr->mastering_metadata))
         return false;
-    } else {
-      return false;
-    }
+    }  // else unknown element: skip it
 
     read_pos += child_size;
     if (read_pos > colour_end)
@@ -5286,7 +5284,9 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
 
       projection_ptr->private_data = data;
       projection_ptr->private_data_length = static_cast<size_t>(child_size);
-    } else {
+    } else if (child_id == libwebm::kMkvProjectionPoseYaw ||
+               child_id == libwebm::kMkvProjectionPosePitch ||
+               child_id == libwebm::kMkvProjectionPoseRoll) {
       double value = 0;
       const long long value_parse_status =
           UnserializeFloat(reader, read_pos, child_size, value);
@@ -5306,10 +5306,8 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
         case libwebm::kMkvProjectionPoseRoll:
           projection_ptr->pose_roll = static_cast<float>(value);
           break;
-        default:
-          return false;
       }
-    }
+    }  // else unknown element: skip it
 
     read_pos += child_size;
     if (read_pos > end)
-- 
2.43.0


From 47fd7d1044f8fa69b5ae5f3e08113a584deb741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:55 +0000
Subject: [PATCH 45/65] fix: read a chapter's UID as an unsigned integer

---
 mkvparser/mkvparser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 7d4dd61..788c33f 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3543,8 +3543,14 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
       if (status < 0)  // error
         return status;
     } else if (id == libwebm::kMkvChapterUID) {
+      // The UID is unsigned: only an 8-byte one uses the sign bit.
       long long val;
-      status = UnserializeInt(pReader, pos, size, val);
+      if (size == 8) {
+        status = UnserializeInt(pReader, pos, size, val);
+      } else {
+        val = UnserializeUInt(pReader, pos, size);
+        status = (val < 0) ? static_cast<long>(val) : 0;
+      }
 
       if (status < 0)  // error
         return status;
-- 
2.43.0


From 7eb298fbba52a3763c44fcf700ac9e3022a3a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:55 +0000
Subject: [PATCH 46/65] fix: write chapters that have no string identifier

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 6dec32d..42b99f9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2014,7 +2014,7 @@ uint64_t Chapter::WriteAtom(IMkvWriter* writer) const {
   if (!WriteEbmlMasterElement(writer, libwebm::kMkvChapterAtom, payload_size))
     return 0;
 
-  if (!WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
+  if (id_ && !WriteEbmlElement(writer, libwebm::kMkvChapterStringUID, id_))
     return 0;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvChapterUID,
-- 
2.43.0


From c0e6d9e3675126fe924185a18af3fb51c7e22d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:04 +0000
Subject: [PATCH 47/65] fix: refuse a frame that goes back behind a queued
 frame of its track

---
 mkvmuxer/mkvmuxer.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 42b99f9..9a2d0a5 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3522,6 +3522,10 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!tracks_.GetTrackByNumber(frame->track_number()))
     return false;
 
+  // Frames of this track may be waiting in the queue with a later timestamp.
+  if (frame->timestamp() < last_track_timestamp_[frame->track_number() - 1])
+    return false;
+
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
@@ -3552,6 +3556,7 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       delete new_frame;
       return false;
     }
+    last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
     track_frames_written_[frame->track_number() - 1]++;
     return true;
   }
@@ -4108,10 +4113,8 @@ int Segment::WriteFramesAll() {
       }
     }
 
-    if (frame->timestamp() > last_timestamp_) {
+    if (frame->timestamp() > last_timestamp_)
       last_timestamp_ = frame->timestamp();
-      last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
-    }
 
     delete frame;
     frame = NULL;
@@ -4161,11 +4164,8 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       }
 
       ++shift_left;
-      if (frame_prev->timestamp() > last_timestamp_) {
+      if (frame_prev->timestamp() > last_timestamp_)
         last_timestamp_ = frame_prev->timestamp();
-        last_track_timestamp_[frame_prev->track_number() - 1] =
-            frame_prev->timestamp();
-      }
 
       delete frame_prev;
     }
-- 
2.43.0


From 5fde4c611393045ddcfaa9775d62e428fe74425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 48/65] fix: keep queued audio frames that a single cluster
 cannot hold or that no video frame follows

---
 mkvmuxer/mkvmuxer.cc | 20 +++++++++++++++++++-
 mkvmuxer/mkvmuxer.h  |  4 ++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 9a2d0a5..08ece5f 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3234,7 +3234,7 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
-  if (WriteFramesAll() < 0)
+  if (!FlushQueuedFrames())
     return false;
 
   // In kLive mode, call Cluster::Finalize only if |accurate_cluster_duration_|
@@ -3529,6 +3529,15 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
+  // Write queued frames first if they cannot share a cluster with this frame.
+  if (frames_size_ > 0) {
+    const uint64_t timecode_scale = segment_info_.timecode_scale();
+    const int64_t span = frame->timestamp() / timecode_scale -
+                         frames_[0]->timestamp() / timecode_scale;
+    if (span > kMaxBlockTimecode && !FlushQueuedFrames())
+      return false;
+  }
+
   if (cluster_list_size_ > 0) {
     const uint64_t timecode_scale = segment_info_.timecode_scale();
     const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
@@ -4083,6 +4092,15 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
+bool Segment::FlushQueuedFrames() {
+  if (frames_size_ > 0 && cluster_list_size_ < 1 &&
+      !MakeNewCluster(frames_[0]->timestamp())) {
+    return false;
+  }
+
+  return WriteFramesAll() >= 0;
+}
+
 int Segment::WriteFramesAll() {
   if (frames_ == NULL)
     return 0;
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..2cffe15 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1725,6 +1725,10 @@ class Segment {
   // Adds the frame to our frame array.
   bool QueueFrame(Frame* frame);
 
+  // Output all frames that are queued, in a new cluster if there is none yet.
+  // Returns true on success.
+  bool FlushQueuedFrames();
+
   // Output all frames that are queued. Returns -1 on error, otherwise
   // it returns the number of frames written.
   int WriteFramesAll();
-- 
2.43.0


From 13d5d35cd0bc7c5efd679ec96efc2cfdd390cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 49/65] fix: check frames and set their reference before
 queueing them

---
 mkvmuxer/mkvmuxer.cc | 45 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 08ece5f..15184b5 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3526,6 +3526,22 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (frame->timestamp() < last_track_timestamp_[frame->track_number() - 1])
     return false;
 
+  // If the Frame is not a SimpleBlock, then set the reference_block_timestamp
+  // if it is not set already.
+  std::unique_ptr<Frame> new_frame;
+  if (!frame->CanBeSimpleBlock() && !frame->is_key() &&
+      !frame->reference_block_timestamp_set()) {
+    new_frame.reset(new (std::nothrow) Frame());
+    if (!new_frame || !new_frame->CopyFrom(*frame))
+      return false;
+    new_frame->set_reference_block_timestamp(
+        last_track_timestamp_[frame->track_number() - 1]);
+    frame = new_frame.get();
+  }
+
+  if (!frame->IsValid())
+    return false;
+
   if (frame->discard_padding() != 0)
     doc_type_version_ = 4;
 
@@ -3556,13 +3572,13 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   // muxed into the same cluster.
   if (has_video_ && tracks_.TrackIsAudio(frame->track_number()) &&
       !force_new_cluster_) {
-    Frame* const new_frame = new (std::nothrow) Frame();
-    if (!new_frame || !new_frame->CopyFrom(*frame)) {
-      delete new_frame;
+    Frame* const queued_frame = new (std::nothrow) Frame();
+    if (!queued_frame || !queued_frame->CopyFrom(*frame)) {
+      delete queued_frame;
       return false;
     }
-    if (!QueueFrame(new_frame)) {
-      delete new_frame;
+    if (!QueueFrame(queued_frame)) {
+      delete queued_frame;
       return false;
     }
     last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
@@ -3582,22 +3598,6 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   if (!cluster)
     return false;
 
-  // If the Frame is not a SimpleBlock, then set the reference_block_timestamp
-  // if it is not set already.
-  bool frame_created = false;
-  if (!frame->CanBeSimpleBlock() && !frame->is_key() &&
-      !frame->reference_block_timestamp_set()) {
-    Frame* const new_frame = new (std::nothrow) Frame();
-    if (!new_frame || !new_frame->CopyFrom(*frame)) {
-      delete new_frame;
-      return false;
-    }
-    new_frame->set_reference_block_timestamp(
-        last_track_timestamp_[frame->track_number() - 1]);
-    frame = new_frame;
-    frame_created = true;
-  }
-
   if (!cluster->AddFrame(frame))
     return false;
 
@@ -3610,9 +3610,6 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
   last_block_duration_ = frame->duration();
   track_frames_written_[frame->track_number() - 1]++;
-
-  if (frame_created)
-    delete frame;
   return true;
 }
 
-- 
2.43.0


From 14745b0bca0c3de6db02da5de2089fe524cc1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:42 +0000
Subject: [PATCH 50/65] fix: report queued frames that cannot be written and
 drop each of them once

---
 mkvmuxer/mkvmuxer.cc | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 15184b5..b1b57ec 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4110,25 +4110,20 @@ int Segment::WriteFramesAll() {
   if (!cluster)
     return -1;
 
+  bool written = true;
   for (int32_t i = 0; i < frames_size_; ++i) {
     Frame*& frame = frames_[i];
     // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
     // places where |doc_type_version_| needs to be updated.
     if (frame->discard_padding() != 0)
       doc_type_version_ = 4;
-    if (!cluster->AddFrame(frame)) {
-      delete frame;
-      continue;
-    }
 
-    if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-      if (!AddCuePoint(frame->timestamp(), cues_track_)) {
-        delete frame;
-        continue;
-      }
-    }
+    written = written && cluster->AddFrame(frame);
+
+    if (written && new_cuepoint_ && cues_track_ == frame->track_number())
+      written = AddCuePoint(frame->timestamp(), cues_track_);
 
-    if (frame->timestamp() > last_timestamp_)
+    if (written && frame->timestamp() > last_timestamp_)
       last_timestamp_ = frame->timestamp();
 
     delete frame;
@@ -4138,7 +4133,7 @@ int Segment::WriteFramesAll() {
   const int result = frames_size_;
   frames_size_ = 0;
 
-  return result;
+  return written ? result : -1;
 }
 
 bool Segment::WriteFramesLessThan(uint64_t timestamp) {
@@ -4153,11 +4148,12 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
     if (!cluster)
       return false;
 
+    bool written = true;
     int32_t shift_left = 0;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
     // the next frame's start time if the duration is accurate.
-    for (int32_t i = 1; i < frames_size_; ++i) {
+    for (int32_t i = 1; written && i < frames_size_; ++i) {
       const Frame* const frame_curr = frames_[i];
 
       if (frame_curr->timestamp() > timestamp)
@@ -4166,20 +4162,16 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       const Frame* const frame_prev = frames_[i - 1];
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
-      if (!cluster->AddFrame(frame_prev)) {
-        delete frame_prev;
-        continue;
-      }
 
-      if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
-        if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
-          delete frame_prev;
-          continue;
-        }
+      written = cluster->AddFrame(frame_prev);
+
+      if (written && new_cuepoint_ &&
+          cues_track_ == frame_prev->track_number()) {
+        written = AddCuePoint(frame_prev->timestamp(), cues_track_);
       }
 
       ++shift_left;
-      if (frame_prev->timestamp() > last_timestamp_)
+      if (written && frame_prev->timestamp() > last_timestamp_)
         last_timestamp_ = frame_prev->timestamp();
 
       delete frame_prev;
@@ -4196,6 +4188,9 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
 
       frames_size_ = new_frames_size;
     }
+
+    if (!written)
+      return false;
   }
 
   return true;
-- 
2.43.0


From 39b9aff12557d12008589e7760eb589c63c74f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:37 +0000
Subject: [PATCH 51/65] fix: keep queued frames that do not fit the current
 cluster instead of dropping them

---
 mkvmuxer/mkvmuxer.cc | 100 +++++++++++++++++++++++++++++--------------
 mkvmuxer/mkvmuxer.h  |  15 +++++--
 2 files changed, 79 insertions(+), 36 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index b1b57ec..5ef5246 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3234,7 +3234,7 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
-  if (!FlushQueuedFrames())
+  if (!FlushQueuedFrames(NULL))
     return false;
 
   // In kLive mode, call Cluster::Finalize only if |accurate_cluster_duration_|
@@ -3546,13 +3546,8 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     doc_type_version_ = 4;
 
   // Write queued frames first if they cannot share a cluster with this frame.
-  if (frames_size_ > 0) {
-    const uint64_t timecode_scale = segment_info_.timecode_scale();
-    const int64_t span = frame->timestamp() / timecode_scale -
-                         frames_[0]->timestamp() / timecode_scale;
-    if (span > kMaxBlockTimecode && !FlushQueuedFrames())
-      return false;
-  }
+  if (!FlushQueuedFrames(frame))
+    return false;
 
   if (cluster_list_size_ > 0) {
     const uint64_t timecode_scale = segment_info_.timecode_scale();
@@ -3912,7 +3907,7 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
   uint64_t cluster_timecode = frame_timecode;
 
   if (frames_size_ > 0) {
-    const Frame* const f = frames_[0];  // earliest queued frame
+    const Frame* const f = EarliestQueuedFrame();
     const uint64_t ns = f->timestamp();
     const uint64_t tc = ns / timecode_scale;
 
@@ -4089,13 +4084,48 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
-bool Segment::FlushQueuedFrames() {
-  if (frames_size_ > 0 && cluster_list_size_ < 1 &&
-      !MakeNewCluster(frames_[0]->timestamp())) {
+const Frame* Segment::EarliestQueuedFrame() const {
+  const Frame* earliest = NULL;
+  for (int32_t i = 0; i < frames_size_; ++i) {
+    if (!earliest || frames_[i]->timestamp() < earliest->timestamp())
+      earliest = frames_[i];
+  }
+  return earliest;
+}
+
+bool Segment::FitsLastCluster(const Frame& frame) const {
+  if (cluster_list_size_ < 1)
     return false;
+
+  const uint64_t timecode = frame.timestamp() / segment_info_.timecode_scale();
+  const uint64_t cluster_timecode =
+      cluster_list_[cluster_list_size_ - 1]->timecode();
+  return timecode >= cluster_timecode &&
+         timecode - cluster_timecode <=
+             static_cast<uint64_t>(kMaxBlockTimecode);
+}
+
+bool Segment::FlushQueuedFrames(const Frame* next_frame) {
+  const uint64_t timecode_scale = segment_info_.timecode_scale();
+
+  while (frames_size_ > 0) {
+    const Frame* const earliest = EarliestQueuedFrame();
+    if (next_frame) {
+      const uint64_t timecode = earliest->timestamp() / timecode_scale;
+      const uint64_t next_timecode = next_frame->timestamp() / timecode_scale;
+      if (next_timecode <= timecode ||
+          next_timecode - timecode <= static_cast<uint64_t>(kMaxBlockTimecode))
+        break;
+    }
+
+    if (!FitsLastCluster(*earliest) && !MakeNewCluster(earliest->timestamp()))
+      return false;
+
+    if (WriteFramesAll() < 0)
+      return false;
   }
 
-  return WriteFramesAll() >= 0;
+  return true;
 }
 
 int Segment::WriteFramesAll() {
@@ -4111,8 +4141,16 @@ int Segment::WriteFramesAll() {
     return -1;
 
   bool written = true;
+  int32_t kept = 0;
   for (int32_t i = 0; i < frames_size_; ++i) {
-    Frame*& frame = frames_[i];
+    Frame* const frame = frames_[i];
+
+    // Keep frames too far ahead for this cluster.
+    if (!FitsLastCluster(*frame)) {
+      frames_[kept++] = frame;
+      continue;
+    }
+
     // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
     // places where |doc_type_version_| needs to be updated.
     if (frame->discard_padding() != 0)
@@ -4127,11 +4165,10 @@ int Segment::WriteFramesAll() {
       last_timestamp_ = frame->timestamp();
 
     delete frame;
-    frame = NULL;
   }
 
-  const int result = frames_size_;
-  frames_size_ = 0;
+  const int result = frames_size_ - kept;
+  frames_size_ = kept;
 
   return written ? result : -1;
 }
@@ -4149,17 +4186,25 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       return false;
 
     bool written = true;
-    int32_t shift_left = 0;
+    int32_t kept = 0;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
     // the next frame's start time if the duration is accurate.
-    for (int32_t i = 1; written && i < frames_size_; ++i) {
+    int32_t i = 1;
+    for (; written && i < frames_size_; ++i) {
       const Frame* const frame_curr = frames_[i];
 
       if (frame_curr->timestamp() > timestamp)
         break;
 
-      const Frame* const frame_prev = frames_[i - 1];
+      Frame* const frame_prev = frames_[i - 1];
+
+      // Keep frames too far ahead for this cluster.
+      if (!FitsLastCluster(*frame_prev)) {
+        frames_[kept++] = frame_prev;
+        continue;
+      }
+
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
 
@@ -4170,24 +4215,15 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
         written = AddCuePoint(frame_prev->timestamp(), cues_track_);
       }
 
-      ++shift_left;
       if (written && frame_prev->timestamp() > last_timestamp_)
         last_timestamp_ = frame_prev->timestamp();
 
       delete frame_prev;
     }
 
-    if (shift_left > 0) {
-      if (shift_left >= frames_size_)
-        return false;
-
-      const int32_t new_frames_size = frames_size_ - shift_left;
-      for (int32_t i = 0; i < new_frames_size; ++i) {
-        frames_[i] = frames_[i + shift_left];
-      }
-
-      frames_size_ = new_frames_size;
-    }
+    for (--i; i < frames_size_; ++i)
+      frames_[kept++] = frames_[i];
+    frames_size_ = kept;
 
     if (!written)
       return false;
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2cffe15..a55add6 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1725,12 +1725,19 @@ class Segment {
   // Adds the frame to our frame array.
   bool QueueFrame(Frame* frame);
 
-  // Output all frames that are queued, in a new cluster if there is none yet.
+  // Returns the queued frame with the least timestamp, NULL if there is none.
+  const Frame* EarliestQueuedFrame() const;
+
+  // Returns true if |frame| can be written to the last cluster.
+  bool FitsLastCluster(const Frame& frame) const;
+
+  // Output all queued frames that lie too far before |next_frame| to share a
+  // cluster with it (all of them if it is NULL), in new clusters where needed.
   // Returns true on success.
-  bool FlushQueuedFrames();
+  bool FlushQueuedFrames(const Frame* next_frame);
 
-  // Output all frames that are queued. Returns -1 on error, otherwise
-  // it returns the number of frames written.
+  // Output all queued frames that fit the last cluster. Returns -1 on error,
+  // otherwise it returns the number of frames written.
   int WriteFramesAll();
 
   // Output all frames that are queued that have an end time that is less
-- 
2.43.0


From 359f962b50415fec5799fe04381c452fc8e21825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:38 +0000
Subject: [PATCH 52/65] fix: end the duration with the block that starts last

---
 mkvmuxer/mkvmuxer.cc | 26 ++++++++++++++++++++------
 mkvmuxer/mkvmuxer.h  |  6 ++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 5ef5246..f345647 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3071,6 +3071,7 @@ Segment::Segment()
       has_video_(false),
       header_written_(false),
       last_block_duration_(0),
+      last_block_timestamp_(0),
       last_timestamp_(0),
       max_cluster_duration_(kDefaultMaxClusterDuration),
       max_cluster_size_(0),
@@ -3257,7 +3258,7 @@ bool Segment::Finalize() {
     }
 
     double duration =
-        (static_cast<double>(last_timestamp_) + last_block_duration_) /
+        (static_cast<double>(last_block_timestamp_) + last_block_duration_) /
         segment_info_.timecode_scale();
     if (duration_ > 0.0) {
       duration = duration_;
@@ -3603,7 +3604,7 @@ bool Segment::AddGenericFrame(const Frame* frame) {
 
   last_timestamp_ = frame->timestamp();
   last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
-  last_block_duration_ = frame->duration();
+  UpdateLastBlock(*frame);
   track_frames_written_[frame->track_number() - 1]++;
   return true;
 }
@@ -4084,6 +4085,13 @@ bool Segment::QueueFrame(Frame* frame) {
   return true;
 }
 
+void Segment::UpdateLastBlock(const Frame& frame) {
+  if (frame.timestamp() >= last_block_timestamp_) {
+    last_block_timestamp_ = frame.timestamp();
+    last_block_duration_ = frame.duration();
+  }
+}
+
 const Frame* Segment::EarliestQueuedFrame() const {
   const Frame* earliest = NULL;
   for (int32_t i = 0; i < frames_size_; ++i) {
@@ -4161,8 +4169,11 @@ int Segment::WriteFramesAll() {
     if (written && new_cuepoint_ && cues_track_ == frame->track_number())
       written = AddCuePoint(frame->timestamp(), cues_track_);
 
-    if (written && frame->timestamp() > last_timestamp_)
-      last_timestamp_ = frame->timestamp();
+    if (written) {
+      if (frame->timestamp() > last_timestamp_)
+        last_timestamp_ = frame->timestamp();
+      UpdateLastBlock(*frame);
+    }
 
     delete frame;
   }
@@ -4215,8 +4226,11 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
         written = AddCuePoint(frame_prev->timestamp(), cues_track_);
       }
 
-      if (written && frame_prev->timestamp() > last_timestamp_)
-        last_timestamp_ = frame_prev->timestamp();
+      if (written) {
+        if (frame_prev->timestamp() > last_timestamp_)
+          last_timestamp_ = frame_prev->timestamp();
+        UpdateLastBlock(*frame_prev);
+      }
 
       delete frame_prev;
     }
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index a55add6..e89331e 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1725,6 +1725,9 @@ class Segment {
   // Adds the frame to our frame array.
   bool QueueFrame(Frame* frame);
 
+  // Updates the end of the Segment's duration with a block that was written.
+  void UpdateLastBlock(const Frame& frame);
+
   // Returns the queued frame with the least timestamp, NULL if there is none.
   const Frame* EarliestQueuedFrame() const;
 
@@ -1862,6 +1865,9 @@ class Segment {
   // Duration of the last block in nanoseconds.
   uint64_t last_block_duration_;
 
+  // Timestamp in nanoseconds of the block that starts last.
+  uint64_t last_block_timestamp_;
+
   // Last timestamp in nanoseconds added to a cluster.
   uint64_t last_timestamp_;
 
-- 
2.43.0


From 315ff3c4abc2b7c492e58c68411bc0169da067f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:38 +0000
Subject: [PATCH 53/65] fix: estimate the duration from all tracks whatever
 their numbers

---
 mkvmuxer/mkvmuxer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f345647..aafef54 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3264,8 +3264,8 @@ bool Segment::Finalize() {
       duration = duration_;
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
-        const int num_tracks = static_cast<int>(tracks_.track_entries_size());
-        for (int i = 0; i < num_tracks; ++i) {
+        // The arrays are indexed by track number.
+        for (uint64_t i = 0; i < kMaxTrackNumber; ++i) {
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From 5db700ea2792ff1a1bc734839d8959c9430745a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:38 +0000
Subject: [PATCH 54/65] fix: refuse to finalise a segment that was never begun

---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index aafef54..c746abe 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3235,6 +3235,10 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
 }
 
 bool Segment::Finalize() {
+  // Without a frame there is no file.
+  if (!header_written_)
+    return false;
+
   if (!FlushQueuedFrames(NULL))
     return false;
 
-- 
2.43.0


From 29e4f3327127fa345650cb7b1132b566543fb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:42 +0000
Subject: [PATCH 55/65] fix: do not store a negative duration for the last
 frame of a cluster

---
 mkvmuxer/mkvmuxer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index c746abe..b19864e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2578,8 +2578,9 @@ bool Cluster::Finalize(bool set_last_frame_duration, uint64_t duration) {
         }
       }
 
-      // Set the duration if it's the last frame for the track.
-      if (set_last_frame_duration &&
+      // Set the duration if it's the last frame for the track, unless the next
+      // cluster begins before the frame does.
+      if (set_last_frame_duration && duration >= frame->timestamp() &&
           stored_frames_[frame->track_number()].size() == 1 &&
           !frame->duration_set()) {
         frame->set_duration(duration - frame->timestamp());
-- 
2.43.0


From f2524947cf1741aa5dd49be24fdd8d6f0fef491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 56/65] fix: number the cued block of a cluster whose frames
 are held back

---
 mkvmuxer/mkvmuxer.cc | 28 +++++++++++++++++++++++++++-
 mkvmuxer/mkvmuxer.h  | 10 ++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index b19864e..a97e392 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2647,6 +2647,12 @@ void Cluster::PostWriteBlock(uint64_t element_size) {
   ++blocks_added_;
 }
 
+int32_t Cluster::first_block(uint64_t track_number) const {
+  const std::map<uint64_t, int32_t>::const_iterator block =
+      first_block_.find(track_number);
+  return block == first_block_.end() ? 0 : block->second;
+}
+
 int64_t Cluster::GetRelativeTimecode(int64_t abs_timecode) const {
   const int64_t cluster_timecode = this->Cluster::timecode();
   const int64_t rel_timecode =
@@ -2670,6 +2676,7 @@ bool Cluster::DoWriteFrame(const Frame* const frame) {
     return false;
 
   PostWriteBlock(element_size);
+  first_block_.insert(std::make_pair(frame->track_number(), blocks_added_));
   last_block_timestamp_[frame->track_number()] = frame->timestamp();
   return true;
 }
@@ -3254,6 +3261,7 @@ bool Segment::Finalize() {
     // with Duration unless the frame itself has duration set explicitly.
     if (!old_cluster || !old_cluster->Finalize(false, 0))
       return false;
+    NumberCuePoints(*old_cluster);
   }
 
   if (mode_ == kFile) {
@@ -3416,7 +3424,11 @@ bool Segment::AddCuePoint(uint64_t timestamp, uint64_t track) {
     return false;
 
   cue->set_time(timestamp / segment_info_.timecode_scale());
-  cue->set_block_number(cluster->blocks_added());
+  // A held back frame, the first of its track in the cluster, gets its block
+  // number when it is written.
+  const bool held_back =
+      accurate_cluster_duration_ && new_cuepoint_ && track == cues_track_;
+  cue->set_block_number(held_back ? 0 : cluster->blocks_added());
   cue->set_cluster_pos(cluster->position_for_cues());
   cue->set_track(track);
   if (!cues_.AddCue(cue)) {
@@ -3428,6 +3440,19 @@ bool Segment::AddCuePoint(uint64_t timestamp, uint64_t track) {
   return true;
 }
 
+void Segment::NumberCuePoints(const Cluster& cluster) {
+  if (!accurate_cluster_duration_)
+    return;
+  for (int32_t i = cues_.cue_entries_size() - 1; i >= 0; --i) {
+    CuePoint* const cue = cues_.GetCueByIndex(i);
+    if (!cue || cue->cluster_pos() !=
+                    static_cast<uint64_t>(cluster.position_for_cues()))
+      return;
+    if (cue->block_number() == 0)
+      cue->set_block_number(cluster.first_block(cue->track()));
+  }
+}
+
 uint64_t Segment::AddAudioTrack(int32_t sample_rate, int32_t channels,
                                 int32_t number) {
   AudioTrack* const track = new (std::nothrow) AudioTrack(&seed_);  // NOLINT
@@ -3892,6 +3917,7 @@ bool Segment::MakeNewCluster(uint64_t frame_timestamp_ns) {
 
     if (!old_cluster || !old_cluster->Finalize(true, frame_timestamp_ns))
       return false;
+    NumberCuePoints(*old_cluster);
   }
 
   if (output_cues_)
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index e89331e..da9bd58 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1309,6 +1309,9 @@ class Cluster {
 
   int64_t size_position() const { return size_position_; }
   int32_t blocks_added() const { return blocks_added_; }
+  // Returns the number (from 1) of the first block of |track_number|, or 0 when
+  // none has been written.
+  int32_t first_block(uint64_t track_number) const;
   uint64_t payload_size() const { return payload_size_; }
   int64_t position_for_cues() const { return position_for_cues_; }
   uint64_t timecode() const { return timecode_; }
@@ -1343,6 +1346,9 @@ class Cluster {
   // Outputs the Cluster header to |writer_|. Returns true on success.
   bool WriteClusterHeader();
 
+  // Map from track number to the number of its first block in the cluster.
+  std::map<uint64_t, int32_t> first_block_;
+
   // Number of blocks added to the cluster.
   int32_t blocks_added_;
 
@@ -1762,6 +1768,10 @@ class Segment {
   //  2 = create a new cluster, and re-run test
   int TestFrame(uint64_t track_num, uint64_t timestamp_ns, bool key) const;
 
+  // Completes the cue points of a finished cluster whose frames were held back
+  // when the cue points were added.
+  void NumberCuePoints(const Cluster& cluster);
+
   // Create a new cluster, using the earlier of the first enqueued
   // frame, or the indicated time. Returns true on success.
   bool MakeNewCluster(uint64_t timestamp_ns);
-- 
2.43.0


From c5888403f49a64c04bac95b3e22d3992b29fdd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:36 +0000
Subject: [PATCH 57/65] fix: report every failed write of an integer or float

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 5c735be..978d089 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status)
       return status;
   }
 
-- 
2.43.0


From cd48f8b3733b7bc490f83739a2844b3a0be1e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:36 +0000
Subject: [PATCH 58/65] fix: report a failed write of the date

---
 mkvmuxer/mkvmuxer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a97e392..bf22984 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3009,8 +3009,9 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN &&
+      !WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_))
+    return false;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From 537c7549e61763968db8d64132b9296661f89d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:36 +0000
Subject: [PATCH 59/65] fix: drop held back frames that could not be written
 instead of using them after they are freed

---
 mkvmuxer/mkvmuxer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index bf22984..e5ab247 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2703,6 +2703,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
+  bool wrote_frames = true;
   std::vector<std::list<Frame*>::iterator> frames_to_erase;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
@@ -2722,11 +2723,11 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
       }
     }
     if (okay_to_write) {
-      const bool wrote_frame = DoWriteFrame(frame_to_write);
+      wrote_frames = DoWriteFrame(frame_to_write);
       delete frame_to_write;
-      if (!wrote_frame)
-        return false;
       frames_to_erase.push_back(current_track_iterator);
+      if (!wrote_frames)
+        break;
     } else {
       break;
     }
@@ -2736,7 +2737,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
        iterator != frames_to_erase.end(); ++iterator) {
     stored_frames_[track_number].erase(*iterator);
   }
-  return true;
+  return wrote_frames;
 }
 
 bool Cluster::WriteClusterHeader() {
-- 
2.43.0


From c259f26cb150ffed54e849f51585e3185b909d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 60/65] fix: finalise a segment that has chapters, tags and
 cues

---
 mkvmuxer/mkvmuxer.cc | 9 ++++++---
 mkvmuxer/mkvmuxer.h  | 9 ++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index e5ab247..bd452ba 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2770,7 +2770,7 @@ bool Cluster::WriteClusterHeader() {
 //
 // SeekHead Class
 
-SeekHead::SeekHead() : start_pos_(0ULL) {
+SeekHead::SeekHead() : start_pos_(0ULL), reserved_entries_(5) {
   for (int32_t i = 0; i < kSeekEntryCount; ++i) {
     seek_entry_id_[i] = 0;
     seek_entry_pos_[i] = 0;
@@ -2826,7 +2826,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
+    const uint64_t total_entry_size = reserved_entries_ * MaxEntrySize();
     const uint64_t total_size =
         EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
         total_entry_size;
@@ -2844,7 +2844,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = reserved_entries_ * MaxEntrySize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
@@ -3773,6 +3773,9 @@ bool Segment::WriteSegmentHeader() {
     // SegmentInfo upadte it.
     segment_info_.set_duration(1.0);
 
+    if (chapters_.Count() > 0 && tags_.Count() > 0)
+      seek_head_.ReserveAllEntries();
+
     if (!seek_head_.Write(writer_header_))
       return false;
   }
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index da9bd58..77336db 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1430,8 +1430,12 @@ class SeekHead {
   // a SeekHead element later. Returns true on success.
   bool Write(IMkvWriter* writer);
 
+  // Reserves space for the largest number of entries instead of the usual one.
+  // Must be called before Write().
+  void ReserveAllEntries() { reserved_entries_ = kSeekEntryCount; }
+
   // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  constexpr static int32_t kSeekEntryCount = 6;
 
  private:
   // Returns the maximum size in bytes of one seek entry.
@@ -1446,6 +1450,9 @@ class SeekHead {
   // The file position of SeekHead element.
   int64_t start_pos_;
 
+  // The number of entries that Write() reserves space for.
+  int32_t reserved_entries_;
+
   LIBWEBM_DISALLOW_COPY_AND_ASSIGN(SeekHead);
 };
 
-- 
2.43.0


From 8d5d553b52e214f2507ff81940024b7b424c6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 61/65] fix: report a failed write while moving the cues

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index bd452ba..2fda8eb 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From f4692bbc58dba548a57b3983f6ba3b9cb5e14bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 62/65] fix: refuse to move cues that were not written

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 2fda8eb..6601a9f 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2773,7 +2773,7 @@ bool Cluster::WriteClusterHeader() {
 //
 // SeekHead Class
 
-SeekHead::SeekHead() : start_pos_(0ULL), reserved_entries_(5) {
+SeekHead::SeekHead() : start_pos_(-1), reserved_entries_(5) {
   for (int32_t i = 0; i < kSeekEntryCount; ++i) {
     seek_entry_id_[i] = 0;
     seek_entry_pos_[i] = 0;
@@ -3215,6 +3215,9 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
   if (!writer->Seekable() || chunking_)
     return false;
+  // There must be cues to move and clusters to copy.
+  if (mode_ != kFile || !output_cues_ || cluster_list_size_ < 1)
+    return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
 
-- 
2.43.0


From 750885e271119d2a0e33c0b88ba0886adefa18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:50 +0000
Subject: [PATCH 63/65] fix: do not abort on a malformed cluster while seeking

---
 mkvparser/mkvparser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 788c33f..fbf19b2 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7473,12 +7473,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // the rest of the cluster is malformed or not there yet
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From a3b8fb93f9491d56c83e0a7dadf01d9137eddbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 64/65] fix: finish loading the cues when they cannot be read

---
 mkvparser/mkvparser.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index fbf19b2..621baa3 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1980,17 +1980,17 @@ bool Cues::LoadCuePoint() const {
 
     const long long id = ReadID(pReader, m_pos, len);
     if (id < 0 || (m_pos + len) > stop)
-      return false;
+      break;
 
     m_pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, m_pos, len);
     if (size < 0 || (m_pos + len) > stop)
-      return false;
+      break;
 
     m_pos += len;  // consume Size field
     if ((m_pos + size) > stop)
-      return false;
+      break;
 
     if (id != libwebm::kMkvCuePoint) {
       m_pos += size;  // consume payload
@@ -2001,16 +2001,15 @@ bool Cues::LoadCuePoint() const {
     }
 
     if (m_preload_count < 1)
-      return false;
+      break;
 
     CuePoint* const pCP = m_cue_points[m_count];
     if (!pCP || (pCP->GetTimeCode() < 0 && (-pCP->GetTimeCode() != idpos)))
-      return false;
+      break;
+
+    if (!pCP->Load(pReader))
+      break;
 
-    if (!pCP->Load(pReader)) {
-      m_pos = stop;
-      return false;
-    }
     ++m_count;
     --m_preload_count;
 
@@ -2021,6 +2020,7 @@ bool Cues::LoadCuePoint() const {
     return true;  // yes, we loaded a cue point
   }
 
+  m_pos = stop;  // there is nothing more we could load
   return false;  // no, we did not load a cue point
 }
 
-- 
2.43.0


From 32fd2c1a09287a6d00ae8ef8acb6e1a1fbb22bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 65/65] fix: do not abort when a cue point cannot be read

---
 mkvparser/mkvparser.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 621baa3..15ad784 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2309,7 +2309,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2384,11 +2385,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0

