From 22bda506070d4169eac872a527f045f183399121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 01/59] sim: compile-time override of the chunk and probe sizes
 (off by default)

---
 cloudini_lib/src/codec_common.hpp | 4 ++++
 cloudini_lib/src/v5_codec.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..7d54428 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -25,7 +25,11 @@
 
 namespace Cloudini::detail {
 
+#ifdef CLOUDINI_SIM_POINTS_PER_CHUNK
+constexpr size_t kPointsPerChunk = CLOUDINI_SIM_POINTS_PER_CHUNK;  // simulation builds only
+#else
 constexpr size_t kPointsPerChunk = 32 * 1024;
+#endif
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..35465dc 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -73,7 +73,11 @@ struct V5AdaptiveIntStats {
   uint32_t delta_rle_runs = 0;
 };
 
+#ifdef CLOUDINI_SIM_PROBE_POINTS
+constexpr size_t kAdaptiveModeProbePoints = CLOUDINI_SIM_PROBE_POINTS;  // simulation builds only
+#else
 constexpr size_t kAdaptiveModeProbePoints = 4096;
+#endif
 
 struct V5EncoderPlan {
   std::vector<std::unique_ptr<FieldEncoder>> regular;
-- 
2.43.0


From dd5c548145c4d4f21d5e07edb74097a888cb3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 02/59] fix: keep worker_failed_ set until a new compression
 thread exists

If starting the replacement thread failed, the next encode() saw no failure
and waited forever for a worker that had never been started.
---
 cloudini_lib/src/cloudini.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..56c5eee 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -543,12 +543,14 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
       if (compressing_thread_.joinable()) {
         compressing_thread_.join();
       }
+      // Starting the thread can throw: forget the failure only once there is a worker again,
+      // otherwise the next encode() would wait for a thread that does not exist.
+      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
       {
         std::lock_guard<std::mutex> lock(mutex_);
         worker_failed_ = false;
         worker_exception_ = nullptr;
       }
-      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
     }
   }
 
-- 
2.43.0


From fc63d7cb3c9071f558e30519e0837fc68012dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 03/59] fix: report allocation failures while building the
 header text

std::ostringstream swallows bad_alloc; the header was truncated, either
silently or with MaxCompressedSize() disagreeing with the encoder's header,
which then overflowed the output buffer.
---
 cloudini_lib/src/cloudini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 56c5eee..2813e3a 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -164,6 +164,8 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  // A failed allocation inside the stream must reach the caller, not silently truncate the header
+  yaml.exceptions(std::ios::badbit);
   yaml << "version: " << static_cast<int>(info.version) << "\n";
   yaml << "width: " << info.width << "\n";
   yaml << "height: " << info.height << "\n";
-- 
2.43.0


From dacad6d6e2d843562ec4fb5895e9c8af48e0acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 04/59] fix: write resolutions so that they read back exactly

EncodingInfoToYAML printed 6 significant digits, so a decoder used a slightly different
resolution than the encoder and large coordinates were off by more than half a resolution.
---
 cloudini_lib/src/cloudini.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 2813e3a..b594142 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,8 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -162,6 +164,22 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+
+// Shortest decimal text that reads back as exactly the same float
+std::string FloatToText(float value) {
+  char text[32];
+  for (int precision = 6; precision <= 9; ++precision) {
+    std::snprintf(text, sizeof(text), "%.*g", precision, static_cast<double>(value));
+    if (std::strtof(text, nullptr) == value) {
+      break;
+    }
+  }
+  return text;
+}
+
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
   // A failed allocation inside the stream must reach the caller, not silently truncate the header
@@ -183,7 +201,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << FloatToText(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 7fc840345c9d0cb7c10400a288bb0b039049c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 05/59] fix: bound the worst case of V5 Delta-RLE sections

A 64-bit field committed to Delta-RLE on its probe can need 11 bytes per point in the rest of
the cloud: encode() threw, although the output had the announced maximum size.
---
 cloudini_lib/src/cloudini.cpp     | 6 +++---
 cloudini_lib/src/codec_common.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b594142..b9c66aa 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -283,9 +283,9 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
     points_left -= points_in_chunk;
     size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
     if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
+      // V5 adaptive integer sections add mode/header bytes. The mode is committed
+      // after a probe, so the rest of the chunk may not suit it; the per-field
+      // bounds in MaxSerializedFieldSize hold for every mode.
       max_chunk_input_size += info.fields.size() * 32u + 1024u;
     }
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..b3d1745 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -32,9 +32,12 @@ size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_
     case FieldType::UINT16:
     case FieldType::INT32:
     case FieldType::UINT32:
+      return 10;  // worst-case signed varint64 size
     case FieldType::INT64:
     case FieldType::UINT64:
-      return 10;  // worst-case signed varint64 size
+      // worst-case signed varint64 size, plus the run length byte when a V5 field
+      // is committed to Delta-RLE and every run has a single value.
+      return 11;
     case FieldType::FLOAT32:
       if (encoding_opt == EncodingOptions::LOSSY && field.resolution.has_value()) {
         return 10;  // quantized int64 delta as varint
-- 
2.43.0


From c8addeba93f2bdc0c02c6b18596588afa83cbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 06/59] fix: size the decompression buffer for the first
 stage's worst case

Poorly compressible points (tiny clouds, high-entropy integers) can be larger after the first
stage than in the raw cloud; such clouds were encoded but could not be decompressed.
---
 cloudini_lib/src/cloudini.cpp     | 14 +++++---------
 cloudini_lib/src/codec_common.cpp | 12 ++++++++++++
 cloudini_lib/src/codec_common.hpp |  2 ++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b9c66aa..a92382b 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -274,20 +274,13 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
   constexpr size_t chunk_points = detail::kPointsPerChunk;
   const size_t chunks_count = (points_count / chunk_points) + ((points_count % chunk_points) ? 1 : 0);
 
-  const size_t max_serialized_point_size = detail::MaxSerializedPointSize(info);
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
-    size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
-    if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. The mode is committed
-      // after a probe, so the rest of the chunk may not suit it; the per-field
-      // bounds in MaxSerializedFieldSize hold for every mode.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
-    }
+    const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
     total_size += sizeof(uint32_t);  // chunk size prefix
     switch (info.compression_opt) {
@@ -691,8 +684,11 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
+  // Poorly compressible points can take more room after the first stage than in the raw cloud.
   const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+      (info.version >= 3)
+          ? detail::MaxStage1ChunkSize(info, expected_points)
+          : static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index b3d1745..8518e2f 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -22,6 +22,7 @@
 #include <stdexcept>
 
 #include "lz4.h"
+#include "v5_codec.hpp"
 #include "zstd.h"
 
 namespace Cloudini::detail {
@@ -69,6 +70,17 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points) {
+  size_t max_size = points * MaxSerializedPointSize(info);
+  if (UsesV5Codec(info)) {
+    // V5 adaptive integer sections add mode/header bytes. The mode is committed
+    // after a probe, so the rest of the chunk may not suit it; the per-field
+    // bounds in MaxSerializedFieldSize hold for every mode.
+    max_size += info.fields.size() * 32u + 1024u;
+  }
+  return max_size;
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 7d54428..df7558b 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -33,6 +33,8 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
+// Largest size of a chunk of `points` after the first stage, i.e. the input of the compressor.
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points);
 
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
-- 
2.43.0


From 9a3c14a6bd29b24b80dfb600115e20bb6b45aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 07/59] fix: encode and decode integer differences equal to
 INT64_MIN

---
 .../include/cloudini_lib/encoding_utils.hpp         | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..e19c6c8 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -56,6 +56,14 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
   uint8_t* ptr_start = ptr;
+  if (val == 0) {
+    // value is INT64_MIN: val should be 2^64 and has wrapped to the NaN marker. Write 2^64 instead.
+    for (int i = 0; i < 9; ++i) {
+      *ptr++ = 0x80;
+    }
+    *ptr++ = 0x02;
+    return ptr - ptr_start;
+  }
   while (val > 0x7F) {
     *ptr = (static_cast<uint8_t>((val & 0x7F) | 0x80));
     val >>= 7;
@@ -124,6 +132,11 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
       uint8_t byte = *ptr;
       ptr++;
       const uint8_t payload = byte & 0x7f;
+      if (shift == 63 && byte == 0x02 && uval == 0) {
+        // 2^64: the only value that does not fit uval, see encodeVarint64
+        val = std::numeric_limits<int64_t>::min();
+        return static_cast<size_t>(ptr - buf);
+      }
       if (shift >= 64 || (shift == 63 && payload > 1)) {
         throw std::runtime_error("decodeVarint: value overflow");
       }
-- 
2.43.0


From 7225a5e139c8d6cb10e645966cae238099e65bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 08/59] fix: check the remaining input in every field decoder

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..5bab09f 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy::decode: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoderFloat_Lossy::decode: truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR::decode: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From be1534701e548232186d9c19c08caa23127102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 09/59] fix: reject invalid Gorilla windows

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index 5bab09f..196a7a5 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -273,6 +273,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: no previous window to reuse");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -280,6 +283,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > static_cast<int>(kTypeBits)) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From 352bc2148e040b99ed5fc10304ca0db31ecf546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 10/59] fix: reject V5 run lengths that overflow the point
 counter

---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 35465dc..347be37 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -837,7 +837,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -860,7 +860,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 772461820e4bd4bd7f38a9c3c655887df4859f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 11/59] fix: do not store skipped fields in V5 integer sections

---
 cloudini_lib/src/v5_codec.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 347be37..94400ee 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -123,8 +123,10 @@ uint64_t readRawBits(const uint8_t* ptr, size_t bytes) {
   return out;
 }
 
-void writeRawBitsToPoint(uint64_t value, size_t bytes, uint8_t* dst) {
-  std::memcpy(dst, &value, bytes);
+void writeRawBitsToPoint(uint64_t value, const V5AdaptiveIntField& field, uint8_t* point) {
+  if (field.offset != kDecodeButSkipStore) {
+    std::memcpy(point + field.offset, &value, field.bytes_per_value);
+  }
 }
 
 void appendByte(BufferView& out, uint8_t value) {
@@ -788,9 +790,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + i * point_step);
       }
     } break;
 
@@ -821,7 +821,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(palette[idx], field, output_base + i * point_step);
       }
       input.trim_front(index_bytes);
     } break;
@@ -841,7 +841,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(value, field, output_base + out_index * point_step);
           ++out_index;
         }
       }
@@ -866,9 +866,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + out_index * point_step);
           ++out_index;
         }
       }
-- 
2.43.0


From ce9140d2da5a92142e73ed78a22393479d504466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/59] fix: decode into PointT with the size of PointT as
 point step

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..7591e49 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -154,6 +154,8 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
       field.offset = Cloudini::kDecodeButSkipStore;
     }
   }
+  // the offsets above refer to PointT, that may be larger or smaller than the encoded point
+  header_info.point_step = sizeof(PointT);
 
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
-- 
2.43.0


From 0614a1398fdd548e771a0ac77d6e5c0b5eb9a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 13/59] fix: reject fields that are not contained in point_step

---
 cloudini_lib/src/cloudini.cpp     |  7 ++++---
 cloudini_lib/src/codec_common.cpp | 14 ++++++++++++++
 cloudini_lib/src/codec_common.hpp |  4 ++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index a92382b..a3787bc 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -533,9 +533,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, std::vector<uint8_t
 }
 
 size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output, bool write_header) {
-  if (info_.point_step == 0) {
-    throw std::runtime_error("point_step cannot be 0");
-  }
+  detail::CheckFieldsInsidePoint(info_, false);
   if (cloud_data.size() % info_.point_step != 0) {
     throw std::runtime_error("Input cloud_data size is not a multiple of point_step");
   }
@@ -650,6 +648,9 @@ void PointcloudDecoder::updateDecoders(const EncodingInfo& info) {
 void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output) {
   // read the header
   updateDecoders(info);
+  if (!compressed_data.empty()) {
+    detail::CheckFieldsInsidePoint(info, true);
+  }
 
   // check if the first bytes are the magic header. if they are, skip them
   if (compressed_data.size() >= static_cast<size_t>(kMagicHeaderLength) &&
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index 8518e2f..fe3776d 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -62,6 +62,20 @@ size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_
   }
 }
 
+void CheckFieldsInsidePoint(const EncodingInfo& info, bool allow_skipped) {
+  if (info.point_step == 0) {
+    throw std::runtime_error("point_step cannot be 0");
+  }
+  for (const auto& field : info.fields) {
+    if (allow_skipped && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    if (static_cast<uint64_t>(field.offset) + static_cast<uint64_t>(SizeOf(field.type)) > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' is not contained in point_step");
+    }
+  }
+}
+
 size_t MaxSerializedPointSize(const EncodingInfo& info) {
   size_t max_point_size = 0;
   for (const auto& field : info.fields) {
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index df7558b..1bc3fb0 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -32,6 +32,10 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 #endif
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
+/// Throws if point_step is 0 or any field exceeds it. Fields marked kDecodeButSkipStore are
+/// accepted only when allow_skipped is true.
+void CheckFieldsInsidePoint(const EncodingInfo& info, bool allow_skipped);
+
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 // Largest size of a chunk of `points` after the first stage, i.e. the input of the compressor.
 size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points);
-- 
2.43.0


From cd4da2424586c758d5a45f9faa87c9a065b75445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 14/59] fix: check that a CDR message contains its header

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..c2a633e 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -249,7 +249,11 @@ inline void swapEndianness(T& val) {
   }
 }
 
-inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: not enough data");
+  }
+  origin_ = buffer.data() + 4;
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From fdd864a28a5536cb3515d3925c5dcfbeac7ada40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 15/59] fix: ignore a geometry triple that exceeds the point
 step

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..d76cf6f 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -271,6 +271,9 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   }
   const float inv_res = 1.0f / xyz_res;
   const uint32_t xyz_off[3] = {f0.offset, f1.offset, f2.offset};
+  if (static_cast<uint64_t>(f0.offset) + 12u > pc_info.point_step) {
+    return;  // malformed message: the triple is not contained in the point
+  }
 
   const size_t n_in = (pc_info.data.size() == 0) ? 0 : (pc_info.data.size() / pc_info.point_step);
   if (n_in == 0) {
-- 
2.43.0


From 52c5cacf1ed572e062eefb8bc7a7d50da19df479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 16/59] fix: never return a partially filled cloud from a
 compressed message

---
 cloudini_lib/src/ros_msg_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index d76cf6f..78284c9 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,12 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  constexpr uint64_t max_data_size = std::numeric_limits<uint32_t>::max();
+  const uint64_t points_count = static_cast<uint64_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step != 0 && points_count > max_data_size / pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: cloud too large");
+  }
+  const size_t cloud_data_size = points_count * pc_info.point_step;
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
@@ -158,6 +163,11 @@ void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vec
   Cloudini::PointcloudDecoder cloud_decoder;
   Cloudini::ConstBufferView compressed_data = pc_info.data;
   auto restored_header = Cloudini::DecodeHeader(compressed_data);
+  // The two headers must agree, otherwise part of the announced data would not be decoded
+  if (static_cast<uint64_t>(restored_header.width) * restored_header.height != points_count ||
+      restored_header.point_step != pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: header mismatch");
+  }
   cloud_decoder.decode(restored_header, compressed_data, decoded_buffer);
 
   // add last field
-- 
2.43.0


From 029ba3dc6c98150ab1f909235bb5987c4dddd75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 17/59] fix: refuse to compress a message whose data
 contradicts its dimensions

---
 cloudini_lib/src/ros_msg_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 78284c9..d39f057 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -177,6 +177,14 @@ void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vec
 void convertPointCloud2ToCompressedCloud(
     const RosPointCloud2& pc_info, const Cloudini::EncodingInfo& encoding_info,
     std::vector<uint8_t>& compressed_dds_msg) {
+  // The decoder relies on the dimensions: a message that contradicts them could not be decoded
+  const uint64_t cloud_points = static_cast<uint64_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step == 0 ? pc_info.data.size() != 0
+                              : (pc_info.data.size() % pc_info.point_step != 0 ||
+                                 pc_info.data.size() / pc_info.point_step != cloud_points)) {
+    throw std::runtime_error("convertPointCloud2ToCompressedCloud: data size does not match the dimensions");
+  }
+
   compressed_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, compressed_dds_msg);
   writePointCloudHeader(cdr_encoder, pc_info);
-- 
2.43.0


From 16e23d20d5035c7424e4cef0fd3b26efd9e85c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 18/59] fix: write the compressed size with the byte order of
 the message

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index d39f057..c854509 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -220,7 +220,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_field = static_cast<uint32_t>(compressed_size);
+  if (pc_info.cdr_header.endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_field);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_field, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From 948f9f395c5f390a492f38ac4e08e6758f48b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 19/59] fix: tell a binary header with a width of 10 from a
 text header

---
 cloudini_lib/src/cloudini.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index a3787bc..35d91f7 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -389,7 +389,11 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 
   // YAML payload starts with newline followed by a non-brace; legacy binary
   // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // A binary header starts with the width, whose first byte is '\n' too for 10, 266, ...
+  // points: what follows the newline must look like text.
+  auto is_text = [](uint8_t c) { return c >= 0x20 && c < 0x7F; };
+  if (input.size() >= 4 && input.data()[0] == '\n' && input.data()[1] != '{' && is_text(input.data()[1]) &&
+      is_text(input.data()[2]) && is_text(input.data()[3])) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 9514293586e0c78d4093ad7b3a68b0e6f3fe1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 20/59] fix: read the version number of a YAML header as a
 number

---
 cloudini_lib/src/cloudini.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 35d91f7..f7bf5b5 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -216,7 +216,8 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  // as<uint8_t> would read a single character, i.e. "5" -> 53
+  info.version = static_cast<uint8_t>(root["version"].as<uint32_t>());
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -403,8 +404,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0


From 0150ab891d6082d753046f0ae8af115d0b70ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 21/59] fix: C interface: return 0 for sizes that wrap or
 contradict the message

---
 cloudini_lib/src/wasm_functions.cpp | 46 +++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..b3ce8d1 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -22,6 +22,17 @@
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+// Size in bytes of the raw points. Throws when it exceeds the 32 bits used by this interface, instead of wrapping.
+uint32_t RawDataSize(uint32_t width, uint32_t height, uint32_t point_step) {
+  const uint64_t points = static_cast<uint64_t>(width) * height;
+  if (point_step != 0 && points > UINT32_MAX / point_step) {
+    throw std::runtime_error("The size of the point cloud can not be represented with 32 bits");
+  }
+  return static_cast<uint32_t>(points * point_step);
+}
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -73,7 +84,7 @@ uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t dds_msg_size
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = RawDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
       // Check if dimensions are valid
@@ -94,7 +105,7 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    return RawDataSize(compressed_cloud.width, compressed_cloud.height, compressed_cloud.point_step);
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -122,10 +133,20 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
+    // The caller allocated the output according to the dimensions of the message (see cldn_GetDecompressedSize):
+    // the compressed cloud must not be larger than that.
+    Cloudini::ConstBufferView header_view(pcl_msg.data.data(), pcl_msg.data.size());
+    const auto info = Cloudini::DecodeHeader(header_view);
+    if (RawDataSize(info.width, info.height, info.point_step) !=
+        RawDataSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step)) {
+      EM_ASM({ console.error('Size of the compressed cloud does not match the message.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
@@ -152,11 +173,12 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
-  uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
-  Cloudini::BufferView decoded_view(decoded_data, decoded_size);
-
+  uint32_t decoded_size = 0;
   try {
+    decoded_size = RawDataSize(info.width, info.height, info.point_step);
+    uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
+    Cloudini::BufferView decoded_view(decoded_data, decoded_size);
+
     Cloudini::PointcloudDecoder decoder;
     decoder.decode(info, encoded_view, decoded_view);
   } catch (std::exception& ex) {
@@ -183,9 +205,9 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = RawDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
-    if (pc_info.data.size() != expected_size) {
+    if (encoding_info.point_step == 0 || pc_info.data.size() != expected_size) {
       return 0;
     }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
@@ -220,7 +242,7 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    const uint32_t expected_size = RawDataSize(encoding_info.width, encoding_info.height, encoding_info.point_step);
 
     if (pc_data_size != expected_size) {
       EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
-- 
2.43.0


From 25b7c517fdf43a63da2e335b4aefbb87dda5d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 22/59] fix: let clouds of CloudiniSubscriberPCL outlive the
 subscriber

---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 12 ++++---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 33 +++++++++++--------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..c7a26b1 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <rclcpp/generic_subscription.hpp>
 #include <rclcpp/rclcpp.hpp>
 #include <rclcpp/serialization.hpp>
@@ -110,10 +111,13 @@ class CloudiniSubscriberPCL {
   // Node pointer for logging
   rclcpp::Node* node_;
 
-  // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
-
-  std::mutex pool_mutex_;
+  // Object pool for PCL clouds (avoids repeated allocations). The clouds given to the user may outlive the subscriber.
+  struct CloudPool {
+    std::deque<pcl::PCLPointCloud2*> clouds;
+    std::mutex mutex;
+    ~CloudPool();
+  };
+  std::shared_ptr<CloudPool> pool_ = std::make_shared<CloudPool>();
 
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..d325bde 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -52,13 +52,13 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
   RCLCPP_INFO(node_->get_logger(), "CloudiniSubscriberPCL created for topic: %s", topic_name.c_str());
 }
 
-CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
+CloudiniSubscriberPCL::~CloudiniSubscriberPCL() = default;
+
+CloudiniSubscriberPCL::CloudPool::~CloudPool() {
   // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+  for (auto* ptr : clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
 }
 
 std::string CloudiniSubscriberPCL::getTopicName() const {
@@ -69,24 +69,31 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
+  std::unique_lock<std::mutex> lock(pool_->mutex);
+  if (!pool_->clouds.empty()) {
+    raw_ptr = pool_->clouds.back();
+    pool_->clouds.pop_back();
   } else {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
+  // the constructor of shared_ptr invokes the deleter, that locks the mutex too, when it fails
+  lock.unlock();
 
-  // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  // Create shared_ptr with custom deleter that returns to pool, unless the subscriber does not exist anymore
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [weak_pool = std::weak_ptr<CloudPool>(pool_)](pcl::PCLPointCloud2* ptr) {
+    const auto pool = weak_pool.lock();
+    if (!pool) {
+      delete ptr;
+      return;
+    }
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From 01343ba19275a6490582ba5b6a4129367e40a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 23/59] fix: set header and is_dense of the clouds of
 CloudiniSubscriberPCL

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index d325bde..ddc268f 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -116,6 +116,12 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
     PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    // not part of the compressed data. A cloud of the pool still has the values of its previous use.
+    pcl_cloud->header.seq = 0;
+    pcl_cloud->header.stamp = static_cast<int64_t>(pc_info.ros_header.stamp_sec) * 1000000 +
+                              pc_info.ros_header.stamp_nsec / 1000;  // microseconds
+    pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
+    pcl_cloud->is_dense = pc_info.is_dense;
 
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
-- 
2.43.0


From efb6375e473e9451f3129fb135dee9864c2e4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 24/59] fix: subscriber plugin: report messages that can not be
 decoded as errors

---
 .../src/cloudini_subscriber_plugin.cpp         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..d226ef6 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
 
 #include <exception>
+#include <string>
 
 #include "cloudini_lib/cloudini.hpp"
 
@@ -26,8 +27,9 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
   // Constructor implementation
 }
 
-CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
-    const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+// throws if the message can not be decoded
+static std::shared_ptr<sensor_msgs::msg::PointCloud2> decodeMessage(
+    const point_cloud_interfaces::msg::CompressedPointCloud2& msg, Cloudini::PointcloudDecoder& decoder) {
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
@@ -73,9 +75,19 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   result->data.resize(msg.point_step * msg.width * msg.height);
   Cloudini::BufferView output(result->data.data(), result->data.size());
 
-  decoder_->decode(info, input, output);
+  decoder.decode(info, input, output);
 
   return result;
 }
 
+CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
+    const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+  // the caller expects an error as result, it does not handle exceptions
+  try {
+    return decodeMessage(msg, *decoder_);
+  } catch (const std::exception& ex) {
+    return DecodeResult::unexpected_type(std::string(ex.what()));
+  }
+}
+
 }  // namespace cloudini_point_cloud_transport
-- 
2.43.0


From 2907faee940ba09091ad8dddd86c1249f57b3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 25/59] fix: topic converter: discard messages that can not be
 converted

---
 cloudini_ros/src/topic_converter.cpp | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/cloudini_ros/src/topic_converter.cpp b/cloudini_ros/src/topic_converter.cpp
index a1bec21..ef23756 100644
--- a/cloudini_ros/src/topic_converter.cpp
+++ b/cloudini_ros/src/topic_converter.cpp
@@ -52,6 +52,9 @@ class CloudiniPointcloudConverter : public rclcpp::Node {
   // generic publisher for sensor_msgs/msg/PointCloud2 (but... raw DDS message)
   rclcpp::GenericPublisher::SharedPtr point_cloud_publisher_;
 
+  // convert the message and store the result in output_raw_message_. Throws if this is not possible
+  void convertMessage(Cloudini::ConstBufferView raw_dds_msg);
+
   // callback for point cloud messages
   void point_cloud_callback(const rclcpp::SerializedMessage& serialized_msg);
 
@@ -153,6 +156,19 @@ CloudiniPointcloudConverter::CloudiniPointcloudConverter(const rclcpp::NodeOptio
   point_cloud_publisher_ = this->create_generic_publisher(output_topic, output_topic_type, detected_qos);
 }
 
+void CloudiniPointcloudConverter::convertMessage(Cloudini::ConstBufferView raw_dds_msg) {
+  // STEP 2: extract information from the raw DDS message
+  auto pc_info = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
+
+  if (compressing_) {
+    cloudini_ros::applyResolutionProfile(cloudini_ros::ResolutionProfile{}, pc_info.fields, resolution_);
+    const auto encoding_info = cloudini_ros::toEncodingInfo(pc_info);
+    cloudini_ros::convertPointCloud2ToCompressedCloud(pc_info, encoding_info, output_raw_message_);
+  } else {
+    cloudini_ros::convertCompressedCloudToPointCloud2(pc_info, output_raw_message_);
+  }
+}
+
 void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMessage> msg) {
   // Skip processing if there are no subscribers
   if (point_cloud_publisher_->get_subscription_count() == 0) {
@@ -163,15 +179,12 @@ void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMes
   const auto& input_msg = msg->get_rcl_serialized_message();
   const Cloudini::ConstBufferView raw_dds_msg(input_msg.buffer, input_msg.buffer_length);
 
-  // STEP 2: extract information from the raw DDS message
-  auto pc_info = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-
-  if (compressing_) {
-    cloudini_ros::applyResolutionProfile(cloudini_ros::ResolutionProfile{}, pc_info.fields, resolution_);
-    const auto encoding_info = cloudini_ros::toEncodingInfo(pc_info);
-    cloudini_ros::convertPointCloud2ToCompressedCloud(pc_info, encoding_info, output_raw_message_);
-  } else {
-    cloudini_ros::convertCompressedCloudToPointCloud2(pc_info, output_raw_message_);
+  try {
+    convertMessage(raw_dds_msg);
+  } catch (const std::exception& ex) {
+    // an exception would terminate the node: discard only this message
+    RCLCPP_ERROR(this->get_logger(), "Failed to convert a point cloud: %s", ex.what());
+    return;
   }
 
   // STEP 3: publish the output message
-- 
2.43.0


From 47c211f41ab9b11bdcad615cc110523c26ef8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 26/59] fix: publisher plugin: set the format expected by
 ReadEncodingInfo

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..1437084 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -65,6 +65,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.point_step = raw.point_step;
   result.row_step = raw.row_step;
   result.is_dense = raw.is_dense;
+  result.format = "cloudini";
 
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
-- 
2.43.0


From 1060650e8ac1f5c4299cf753e69849a8a7e0cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 27/59] fix: publisher plugin: report clouds that can not be
 encoded as errors

---
 .../src/cloudini_publisher_plugin.cpp         | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 1437084..8354a0b 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -16,6 +16,8 @@
 
 #include "cloudini_plugin/cloudini_publisher_plugin.hpp"
 
+#include <exception>
+#include <stdexcept>
 #include <string>
 
 #include "cloudini_ros/conversion_utils.hpp"
@@ -50,8 +52,15 @@ void CloudiniPublisher::declareParameters(const std::string& base_topic) {
   setParamCallback(param_change_callback);
 }
 
-CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const {
-  auto info = Cloudini::ConvertToEncodingInfo(raw, resolution_);
+// throws if the message can not be encoded
+static point_cloud_interfaces::msg::CompressedPointCloud2 encodeMessage(
+    const sensor_msgs::msg::PointCloud2& raw, double resolution) {
+  const uint64_t points_count = static_cast<uint64_t>(raw.width) * raw.height;
+  if (raw.point_step == 0 || raw.data.size() / raw.point_step != points_count ||
+      raw.data.size() % raw.point_step != 0) {
+    throw std::runtime_error("the size of the data does not match the dimensions of the point cloud");
+  }
+  auto info = Cloudini::ConvertToEncodingInfo(raw, resolution);
   Cloudini::PointcloudEncoder encoder(info);
 
   // copy all the fields from the raw point cloud to the compressed one
@@ -79,4 +88,13 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   return result;
 }
 
+CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const {
+  // the caller expects an error as result, it does not handle exceptions
+  try {
+    return encodeMessage(raw, resolution_);
+  } catch (const std::exception& ex) {
+    return TypedEncodeResult::unexpected_type(std::string(ex.what()));
+  }
+}
+
 }  // namespace cloudini_point_cloud_transport
-- 
2.43.0


From 66a15ad19b9f54a9c96f623e5a1380a5a59d3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 28/59] fix: converter nodes in one process no longer share
 (and race on) the message counter

---
 cloudini_ros/src/topic_converter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_ros/src/topic_converter.cpp b/cloudini_ros/src/topic_converter.cpp
index ef23756..0621b58 100644
--- a/cloudini_ros/src/topic_converter.cpp
+++ b/cloudini_ros/src/topic_converter.cpp
@@ -65,6 +65,7 @@ class CloudiniPointcloudConverter : public rclcpp::Node {
 
   uint64_t tot_original_size = 0;
   uint64_t tot_compressed_size = 0;
+  int count_ = 0;
 };
 //-----------------------------------------------------
 
@@ -199,14 +200,13 @@ void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMes
   tot_original_size += input_msg.buffer_length;
   tot_compressed_size += output_raw_message_.size();
 
-  static int count = 0;
-  if (count % 20 == 0) {
+  if (count_ % 20 == 0) {
     double average_ratio = static_cast<double>(tot_compressed_size) / tot_original_size;
     tot_compressed_size = 0;
     tot_original_size = 0;
-    RCLCPP_INFO(this->get_logger(), "Converted %d messages, average compression ratio: %.2f", count, average_ratio);
+    RCLCPP_INFO(this->get_logger(), "Converted %d messages, average compression ratio: %.2f", count_, average_ratio);
   }
-  count++;
+  count_++;
 }
 
 RCLCPP_COMPONENTS_REGISTER_NODE(CloudiniPointcloudConverter)
-- 
2.43.0


From ef02a27655e9160f80d23c36864899818c7f7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 29/59] fix: deliver empty clouds that were published without
 compressed data

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 25 ++++++++++++++++++-
 .../src/cloudini_subscriber_plugin.cpp        | 14 +++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index ddc268f..9833cc8 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -100,6 +100,24 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   });
 }
 
+static void setEmptyCloud(const RosPointCloud2& pc_info, pcl::PCLPointCloud2& cloud) {
+  cloud.width = pc_info.width;
+  cloud.height = pc_info.height;
+  cloud.point_step = pc_info.point_step;
+  cloud.row_step = pc_info.width * pc_info.point_step;
+  cloud.is_bigendian = false;
+  cloud.data.clear();
+  cloud.fields.clear();
+  for (const auto& field : pc_info.fields) {
+    pcl::PCLPointField pcl_field;
+    pcl_field.name = field.name;
+    pcl_field.offset = field.offset;
+    pcl_field.datatype = static_cast<uint8_t>(field.type);
+    pcl_field.count = 1;
+    cloud.fields.push_back(pcl_field);
+  }
+}
+
 void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMessage> msg) {
   try {
     // STEP 1: Convert the raw DDS message buffer to a ConstBufferView (zero-copy)
@@ -115,7 +133,12 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.size() == 0 && (pc_info.width == 0 || pc_info.height == 0)) {
+      // empty clouds may be sent without any compressed data: see convertPointCloud2ToCompressedCloud
+      setEmptyCloud(pc_info, *pcl_cloud);
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
     // not part of the compressed data. A cloud of the pool still has the values of its previous use.
     pcl_cloud->header.seq = 0;
     pcl_cloud->header.stamp = static_cast<int64_t>(pc_info.ros_header.stamp_sec) * 1000000 +
diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index d226ef6..631ccd5 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -30,6 +30,20 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 // throws if the message can not be decoded
 static std::shared_ptr<sensor_msgs::msg::PointCloud2> decodeMessage(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg, Cloudini::PointcloudDecoder& decoder) {
+  // empty clouds may be sent without any compressed data: see convertPointCloud2ToCompressedCloud
+  if (msg.compressed_data.empty() && (msg.width == 0 || msg.height == 0)) {
+    auto empty_cloud = std::make_shared<sensor_msgs::msg::PointCloud2>();
+    empty_cloud->header = msg.header;
+    empty_cloud->height = msg.height;
+    empty_cloud->width = msg.width;
+    empty_cloud->fields = msg.fields;
+    empty_cloud->is_bigendian = false;
+    empty_cloud->point_step = msg.point_step;
+    empty_cloud->row_step = msg.row_step;
+    empty_cloud->is_dense = msg.is_dense;
+    return empty_cloud;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
-- 
2.43.0


From 1d2fa1662e14837ce2a37a9f76b0d9eeb9ae5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 30/59] fix: read PCD headers with comments, and 8-byte fields,
 when converting a PCD file

---
 cloudini_lib/src/pcl_conversion.cpp | 43 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..4fa24e0 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -22,19 +22,6 @@
 
 namespace Cloudini {
 
-std::vector<std::string_view> splitString(std::string_view str, char delimiter = ' ') {
-  std::vector<std::string_view> tokens;
-  std::string_view::size_type start = 0;
-  std::string_view::size_type end = 0;
-
-  while ((end = str.find(delimiter, start)) != std::string_view::npos) {
-    tokens.push_back(str.substr(start, end - start));
-    start = end + 1;
-  }
-  tokens.push_back(str.substr(start));
-  return tokens;
-}
-
 // https://pointclouds.org/documentation/tutorials/pcd_file_format.html
 std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::string line;
@@ -42,27 +29,29 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
-    line = line.substr(0, line.find('#'));   // Remove comments
-    line = line.substr(0, line.find('\r'));  // Remove carriage return if present
-    line = line.substr(0, line.find('\n'));  // Remove newline if present
+  // comments and blank lines may be anywhere in the header
+  while (std::getline(stream, line)) {
+    line = line.substr(0, line.find('#'));  // Remove comments
 
-    auto split_line = splitString(line);
-    if (split_line.empty()) {
+    std::istringstream line_stream(line);
+    std::vector<std::string> tokens;
+    for (std::string token; line_stream >> token;) {
+      tokens.push_back(token);
+    }
+    if (tokens.empty()) {
       continue;
     }
-    const auto& line_key = split_line[0];
+    const auto& line_key = tokens[0];
     if (line_key == "FIELDS") {
-      fields_name.assign(split_line.begin() + 1, split_line.end());
+      fields_name.assign(tokens.begin() + 1, tokens.end());
     } else if (line_key == "SIZE") {
-      fields_size.assign(split_line.begin() + 1, split_line.end());
+      fields_size.assign(tokens.begin() + 1, tokens.end());
     } else if (line_key == "TYPE") {
-      fields_type.assign(split_line.begin() + 1, split_line.end());
+      fields_type.assign(tokens.begin() + 1, tokens.end());
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
@@ -76,7 +65,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +78,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 1db4cdc04bdecf9656969fb07b9e203275e83ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 31/59] fix: PCD converter ignored the requested encoding,
 compression and intensity resolution

---
 .../include/cloudini_lib/pcl_conversion.hpp    | 12 ++++++++++++
 cloudini_lib/src/pcl_conversion.cpp            | 18 +++++++++++++++++-
 .../tools/src/pcd_to_cloudini_converter.cpp    |  8 +++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 7591e49..05a8841 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -23,6 +23,7 @@
 #include <cloudini_lib/cloudini.hpp>
 #include <filesystem>
 #include <map>
+#include <optional>
 #include <string>
 #include <vector>
 
@@ -79,6 +80,17 @@ size_t PCLPointCloudEncode(
 size_t PCLPointCloudEncode(
     const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
 
+struct PCDEncodingOptions {
+  double resolution_XYZ = 0.001;
+  std::optional<double> resolution_intensity;  // default: same as resolution_XYZ
+  EncodingOptions encoding_opt = EncodingOptions::LOSSY;
+  CompressionOption compression_opt = CompressionOption::ZSTD;
+};
+
+size_t PCLPointCloudEncode(
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud,
+    const PCDEncodingOptions& options);
+
 /**
  * @brief Decodes a serialized point cloud into a pcl::PCLPointCloud2 object.
  *
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 4fa24e0..1a8d6f6 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -211,6 +211,14 @@ size_t PCLPointCloudEncode(
 
 size_t PCLPointCloudEncode(
     const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ) {
+  PCDEncodingOptions options;
+  options.resolution_XYZ = resolution_XYZ;
+  return PCLPointCloudEncode(input_pcd_file, serialized_cloud, options);
+}
+
+size_t PCLPointCloudEncode(
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud,
+    const PCDEncodingOptions& options) {
   pcl::PCLPointCloud2 cloud;
   if (pcl::io::loadPCDFile(input_pcd_file.string(), cloud) == -1) {
     throw std::runtime_error("Error: Failed to load PCD file: " + input_pcd_file.string());
@@ -218,12 +226,20 @@ size_t PCLPointCloudEncode(
   std::ifstream pcd_file_stream(input_pcd_file, std::ios::in);
   const auto pcd_fields_map = ReadEncodingInfoFromPCD(pcd_file_stream);
 
-  EncodingInfo info = ConvertToEncodingInfo(cloud, resolution_XYZ);
+  EncodingInfo info = ConvertToEncodingInfo(cloud, options.resolution_XYZ);
+  info.encoding_opt = options.encoding_opt;
+  info.compression_opt = options.compression_opt;
   // fix the field types if necessary
   for (auto& field : info.fields) {
     if (field.type == FieldType::UNKNOWN) {
       field.type = pcd_fields_map.at(field.name);
     }
+    if (field.name == "intensity" && field.type == FieldType::FLOAT32 && options.resolution_intensity) {
+      field.resolution = std::nullopt;
+      if (*options.resolution_intensity > 0.0) {
+        field.resolution = *options.resolution_intensity;
+      }
+    }
   }
   PointcloudEncoder encoder(info);
   ConstBufferView data_view(cloud.data.data(), cloud.data.size());
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..f76cb58 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -109,6 +109,12 @@ int main(int argc, char** argv) {
     return 1;
   }
 
+  Cloudini::PCDEncodingOptions pcd_options;
+  pcd_options.resolution_XYZ = resolution_xyz;
+  pcd_options.resolution_intensity = resolution_intensity;
+  pcd_options.encoding_opt = encoding_opt;
+  pcd_options.compression_opt = compression_opt;
+
   // Helper function to convert a single PCD file
   auto convert_file = [&](const std::filesystem::path& input_file, const std::filesystem::path& output_file) -> bool {
     if (!std::filesystem::exists(input_file)) {
@@ -131,7 +137,7 @@ int main(int argc, char** argv) {
     try {
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
-      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz);
+      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, pcd_options);
       // Write to output file
       std::ofstream output_stream(output_file, std::ios::binary);
       if (!output_stream) {
-- 
2.43.0


From 60f5e87238ffa7c05bc07abcd65d244697b95ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 32/59] fix: PCD converter reported success when the output was
 not written or files of a batch failed

---
 .../tools/src/pcd_to_cloudini_converter.cpp    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index f76cb58..a2ed409 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -27,7 +27,7 @@
 #include "cloudini_lib/pcl_conversion.hpp"
 #include "cxxopts.hpp"
 
-int main(int argc, char** argv) {
+static int runConverter(int argc, char** argv) {
   cxxopts::Options options("pcd_to_cloudini_converter", "Convert PCD files to Cloudini compressed format (.cldn)");
 
   options.add_options()                                                                   //
@@ -126,7 +126,7 @@ int main(int argc, char** argv) {
     if (std::filesystem::exists(output_file) && !auto_overwrite) {
       std::cout << "Output file already exists: " << output_file << std::endl;
       std::cout << "Do you want to overwrite it? (y/n): ";
-      char response;
+      char response = 'n';
       std::cin >> response;
       if (response != 'y' && response != 'Y') {
         std::cout << "Skipping file: " << input_file << std::endl;
@@ -146,6 +146,10 @@ int main(int argc, char** argv) {
       }
       output_stream.write(reinterpret_cast<const char*>(serialized_cloud.data()), serialized_cloud.size());
       output_stream.close();
+      if (!output_stream) {
+        std::cerr << "Error: Failed to write output file: " << output_file << std::endl;
+        return false;
+      }
       return true;
 
     } catch (const std::exception& e) {
@@ -213,8 +217,18 @@ int main(int argc, char** argv) {
     std::cout << "  Processed: " << processed << " files" << std::endl;
     if (failed > 0) {
       std::cout << "  Failed: " << failed << " files" << std::endl;
+      return 1;
     }
   }
 
   return 0;
 }
+
+int main(int argc, char** argv) {
+  try {
+    return runConverter(argc, argv);
+  } catch (const std::exception& e) {
+    std::cerr << "Error: " << e.what() << std::endl;
+    return 1;
+  }
+}
-- 
2.43.0


From 21b2806d2bceb0e5c421fb48f1fb9d3f53222265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 33/59] fix: an input that cannot be examined no longer aborts
 a whole PCD batch

---
 .../tools/src/pcd_to_cloudini_converter.cpp   | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index a2ed409..2cf082b 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -117,24 +117,24 @@ static int runConverter(int argc, char** argv) {
 
   // Helper function to convert a single PCD file
   auto convert_file = [&](const std::filesystem::path& input_file, const std::filesystem::path& output_file) -> bool {
-    if (!std::filesystem::exists(input_file)) {
-      std::cerr << "Error: Input file does not exist: " << input_file << std::endl;
-      return false;
-    }
-
-    // Check if output file exists and handle overwrite
-    if (std::filesystem::exists(output_file) && !auto_overwrite) {
-      std::cout << "Output file already exists: " << output_file << std::endl;
-      std::cout << "Do you want to overwrite it? (y/n): ";
-      char response = 'n';
-      std::cin >> response;
-      if (response != 'y' && response != 'Y') {
-        std::cout << "Skipping file: " << input_file << std::endl;
+    try {
+      if (!std::filesystem::exists(input_file)) {
+        std::cerr << "Error: Input file does not exist: " << input_file << std::endl;
         return false;
       }
-    }
 
-    try {
+      // Check if output file exists and handle overwrite
+      if (std::filesystem::exists(output_file) && !auto_overwrite) {
+        std::cout << "Output file already exists: " << output_file << std::endl;
+        std::cout << "Do you want to overwrite it? (y/n): ";
+        char response = 'n';
+        std::cin >> response;
+        if (response != 'y' && response != 'Y') {
+          std::cout << "Skipping file: " << input_file << std::endl;
+          return false;
+        }
+      }
+
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
       const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, pcd_options);
-- 
2.43.0


From d32af1fce68690717344aead296dc022063ee17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 34/59] fix: bag converter dropped the metadata of the channels
 (recorded QoS profiles)

---
 cloudini_lib/tools/src/mcap_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..f441845 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -100,7 +100,8 @@ void McapConverter::duplicateSchemasAndChannels(
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
     auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(
+        channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From 14d49e2ec2997d8a165dad97fc9140da11fdff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 35/59] fix: bag converter crashed on channels without schema

---
 cloudini_lib/tools/src/mcap_converter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index f441845..34f4d74 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -46,6 +46,9 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
+    if (!schema_ptr) {
+      continue;  // channels without schema are allowed
+    }
     if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
@@ -99,7 +102,9 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // the id 0 means that the channel has no schema
+    const mcap::SchemaId new_schema_id =
+        (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(
         channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
@@ -172,7 +177,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -269,7 +274,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
-- 
2.43.0


From 42c98aabd38c0f956aa7af332572924f206e02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 36/59] fix: bag converter reported success when messages could
 not be read

---
 cloudini_lib/tools/src/mcap_converter.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 34f4d74..bca5548 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -169,7 +169,12 @@ void McapConverter::encodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, true);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::Status read_status{};
+  mcap::ProblemCallback problem = [&read_status](const mcap::Status& error) {
+    if (read_status.ok()) {
+      read_status = error;
+    }
+  };
 
   std::vector<uint8_t> compressed_dds_msg;
 
@@ -225,6 +230,10 @@ void McapConverter::encodePointClouds(
       throw std::runtime_error("Error writing message to MCAP file: " + status.message);
     }
   }
+  // the reader stops at the first error, the remaining messages would be silently lost
+  if (!read_status.ok()) {
+    throw std::runtime_error("Error reading MCAP file: " + read_status.message);
+  }
   writer.close();
 }
 
@@ -265,7 +274,12 @@ void McapConverter::decodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, false);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::Status read_status{};
+  mcap::ProblemCallback problem = [&read_status](const mcap::Status& error) {
+    if (read_status.ok()) {
+      read_status = error;
+    }
+  };
 
   std::vector<uint8_t> decoded_cloud;
   std::vector<uint8_t> decoded_dds_msg;
@@ -301,6 +315,10 @@ void McapConverter::decodePointClouds(
       throw std::runtime_error("Error writing message to MCAP file: " + status.message);
     }
   }
+  // the reader stops at the first error, the remaining messages would be silently lost
+  if (!read_status.ok()) {
+    throw std::runtime_error("Error reading MCAP file: " + read_status.message);
+  }
   writer.close();
 }
 
-- 
2.43.0


From f7062fc83f14d40a939e6e7f09bc4311f0d53777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 37/59] fix: bag converter reported success when the output
 could not be written

---
 cloudini_lib/tools/src/mcap_converter.cpp | 30 +++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index bca5548..ad7924f 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -154,17 +154,17 @@ void McapConverter::encodePointClouds(
   total_output_bytes_ = 0;
   total_processing_time_ = std::chrono::microseconds(0);
 
-  mcap::Status status{};
-
-  mcap::McapWriter writer;
   mcap::McapWriterOptions writer_options(reader_->header()->profile);
   writer_options.compression = toMcapCompression(mcap_writer_compression);
   writer_options.chunkSize = 2 * 1024 * 1024;  // 2 MB chunk size
 
-  status = writer.open(file_out.string(), writer_options);
-  if (!status.ok()) {
-    throw std::runtime_error("Error opening MCAP file for writing: " + status.message);
+  // McapWriter doesn't report the errors of the file system: check the state of the stream instead
+  std::ofstream output_stream(file_out, std::ios::binary);
+  if (!output_stream) {
+    throw std::runtime_error("Error opening MCAP file for writing: " + file_out.string());
   }
+  mcap::McapWriter writer;
+  writer.open(output_stream, writer_options);
 
   duplicateSchemasAndChannels(*reader_, writer, true);
 
@@ -235,6 +235,10 @@ void McapConverter::encodePointClouds(
     throw std::runtime_error("Error reading MCAP file: " + read_status.message);
   }
   writer.close();
+  output_stream.close();
+  if (!output_stream) {
+    throw std::runtime_error("Error writing MCAP file: " + file_out.string());
+  }
 }
 
 //------------------------------------------------------
@@ -261,15 +265,17 @@ void McapConverter::decodePointClouds(
   total_output_bytes_ = 0;
   total_processing_time_ = std::chrono::microseconds(0);
 
-  mcap::McapWriter writer;
   mcap::McapWriterOptions writer_options(reader_->header()->profile);
   writer_options.compression = toMcapCompression(mcap_writer_compression);
   writer_options.chunkSize = 2 * 1024 * 1024;  // 10 MB chunk size
 
-  auto status = writer.open(file_out.string(), writer_options);
-  if (!status.ok()) {
-    throw std::runtime_error("Error opening MCAP file for writing: " + status.message);
+  // McapWriter doesn't report the errors of the file system: check the state of the stream instead
+  std::ofstream output_stream(file_out, std::ios::binary);
+  if (!output_stream) {
+    throw std::runtime_error("Error opening MCAP file for writing: " + file_out.string());
   }
+  mcap::McapWriter writer;
+  writer.open(output_stream, writer_options);
 
   duplicateSchemasAndChannels(*reader_, writer, false);
 
@@ -320,6 +326,10 @@ void McapConverter::decodePointClouds(
     throw std::runtime_error("Error reading MCAP file: " + read_status.message);
   }
   writer.close();
+  output_stream.close();
+  if (!output_stream) {
+    throw std::runtime_error("Error writing MCAP file: " + file_out.string());
+  }
 }
 
 //------------------------------------------------------
-- 
2.43.0


From 3707a996a8dfce40582dcf908a2201391771a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 38/59] fix: bag converter could not open a second file

---
 cloudini_lib/tools/src/mcap_converter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index ad7924f..e2c221d 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -28,7 +28,16 @@
 #include <mcap/writer.hpp>
 
 McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
-  input_stream_.open(file_in);
+  // release what belongs to a file opened before
+  reader_.reset();
+  data_source_.reset();
+  input_stream_.close();
+  input_stream_.clear();
+
+  input_stream_.open(file_in, std::ios::binary);
+  if (!input_stream_) {
+    throw std::runtime_error("Error opening MCAP file: " + file_in.string());
+  }
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
   auto res = reader_->open(*data_source_);
-- 
2.43.0


From 8e705cd2d4072328e4e14ba4b8a9b5248704e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 39/59] fix: bag converter erased its input when asked to
 convert a file in place

---
 cloudini_lib/tools/include/mcap_converter.hpp |  3 +++
 cloudini_lib/tools/src/mcap_converter.cpp     | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cloudini_lib/tools/include/mcap_converter.hpp b/cloudini_lib/tools/include/mcap_converter.hpp
index 8ef8b60..f0ab00e 100644
--- a/cloudini_lib/tools/include/mcap_converter.hpp
+++ b/cloudini_lib/tools/include/mcap_converter.hpp
@@ -62,11 +62,14 @@ class McapConverter {
   void printStatistics() const;
 
  private:
+  std::filesystem::path file_in_;
   std::ifstream input_stream_;
   std::shared_ptr<mcap::FileStreamReader> data_source_;
   std::shared_ptr<mcap::McapReader> reader_;
   TopicsMap topics_;
 
+  void checkNotInputFile(const std::filesystem::path& file_out) const;
+
   void duplicateSchemasAndChannels(const mcap::McapReader& reader, mcap::McapWriter& writer, bool encoding);
 
   std::map<uint16_t, uint16_t> old_to_new_schema_id_;
diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index e2c221d..dce8ae7 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -38,6 +38,7 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
   if (!input_stream_) {
     throw std::runtime_error("Error opening MCAP file: " + file_in.string());
   }
+  file_in_ = file_in;
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
   auto res = reader_->open(*data_source_);
@@ -66,6 +67,14 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
   return topics;
 }
 
+void McapConverter::checkNotInputFile(const std::filesystem::path& file_out) const {
+  // opening the output would erase the messages that must be converted
+  std::error_code error;
+  if (std::filesystem::equivalent(file_in_, file_out, error)) {
+    throw std::runtime_error("The output can not be the same file as the input: " + file_out.string());
+  }
+}
+
 void McapConverter::duplicateSchemasAndChannels(
     const mcap::McapReader& reader, mcap::McapWriter& writer, bool encoding) {
   const auto old_schemas = reader.schemas();
@@ -167,6 +176,8 @@ void McapConverter::encodePointClouds(
   writer_options.compression = toMcapCompression(mcap_writer_compression);
   writer_options.chunkSize = 2 * 1024 * 1024;  // 2 MB chunk size
 
+  checkNotInputFile(file_out);
+
   // McapWriter doesn't report the errors of the file system: check the state of the stream instead
   std::ofstream output_stream(file_out, std::ios::binary);
   if (!output_stream) {
@@ -278,6 +289,8 @@ void McapConverter::decodePointClouds(
   writer_options.compression = toMcapCompression(mcap_writer_compression);
   writer_options.chunkSize = 2 * 1024 * 1024;  // 10 MB chunk size
 
+  checkNotInputFile(file_out);
+
   // McapWriter doesn't report the errors of the file system: check the state of the stream instead
   std::ofstream output_stream(file_out, std::ios::binary);
   if (!output_stream) {
-- 
2.43.0


From b53d86f3b0ce68b16b36664d82f38f752b69f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 40/59] fix: bag converter reported success when metadata.yaml
 could not be copied

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..72e672d 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -18,6 +18,7 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include "cloudini_lib/cloudini.hpp"
@@ -38,6 +39,9 @@ void generateMetadataYaml(
     const std::filesystem::path& input_metadata, const std::filesystem::path& output_dir,
     const std::string& new_mcap_filename, bool encoding) {
   std::ifstream in(input_metadata);
+  if (!in) {
+    throw std::runtime_error("Failed to open " + input_metadata.string());
+  }
   std::string content((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
 
   // Replace topic types
@@ -70,6 +74,10 @@ void generateMetadataYaml(
   std::filesystem::path output_metadata = output_dir / "metadata.yaml";
   std::ofstream out(output_metadata);
   out << content;
+  out.close();
+  if (!out) {
+    throw std::runtime_error("Failed to write " + output_metadata.string());
+  }
   std::cout << "Metadata file saved as: " << output_metadata << std::endl;
 }
 
-- 
2.43.0


From 1e4652f1f793a352be7be7e7fe0c396db4e0c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 41/59] fix: bag converter read only the first word of a
 profile file

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 72e672d..3e93afc 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -320,8 +320,7 @@ int main(int argc, char** argv) {
         // check if it is a file or a string
         if (std::filesystem::exists(profile_str)) {
           std::ifstream file(profile_str);
-          std::string profile;
-          file >> profile;
+          const std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
         } else {
           converter.addProfile(profile_str);
-- 
2.43.0


From cdc26a9a0c00cf6fb257422f1fb5619629f28e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 42/59] fix: bag cutter crashed on channels without schema

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..4d55a0d 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,7 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {  // channels without schema are allowed
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
-- 
2.43.0


From b7896120888ae3ef4fdc906c371067bfb1ea04a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 43/59] fix: bag cutter reported success when messages could
 not be read

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 4d55a0d..a3f2710 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -99,7 +99,12 @@ void McapCutter::cut(
 
   // Process messages
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::Status read_status{};
+  mcap::ProblemCallback problem = [&read_status](const mcap::Status& error) {
+    if (read_status.ok()) {
+      read_status = error;
+    }
+  };
 
   std::unordered_map<mcap::ChannelId, int> message_counts;
   int total_messages_written = 0;
@@ -138,6 +143,10 @@ void McapCutter::cut(
     }
   }
 
+  // the reader stops at the first error, the remaining messages would be silently lost
+  if (!read_status.ok()) {
+    throw std::runtime_error("Error reading MCAP file: " + read_status.message);
+  }
   writer.close();
 
   std::cout << "\nSummary:" << std::endl;
-- 
2.43.0


From 25bfd5af09041a8a964313089624308549703d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 44/59] fix: bag cutter reported success when the output could
 not be written

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index a3f2710..18a79a8 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -75,15 +75,17 @@ void McapCutter::cut(
   std::cout << "Found " << pointcloud_channels.size() << " PointCloud2 channels" << std::endl;
 
   // Setup writer
-  mcap::McapWriter writer;
   mcap::McapWriterOptions writer_options(reader->header()->profile);
   writer_options.compression = mcap::Compression::Zstd;
   writer_options.chunkSize = 2 * 1024 * 1024;  // 2 MB
 
-  auto status = writer.open(output_file.string(), writer_options);
-  if (!status.ok()) {
-    throw std::runtime_error("Error opening output MCAP file: " + status.message);
+  // McapWriter doesn't report the errors of the file system: check the state of the stream instead
+  std::ofstream output_stream(output_file, std::ios::binary);
+  if (!output_stream) {
+    throw std::runtime_error("Error opening output MCAP file: " + output_file.string());
   }
+  mcap::McapWriter writer;
+  writer.open(output_stream, writer_options);
 
   // Create single PointCloud2 schema
   mcap::Schema pointcloud_schema(pointcloud_schema_name, "ros2msg", pointcloud_schema_data);
@@ -148,6 +150,10 @@ void McapCutter::cut(
     throw std::runtime_error("Error reading MCAP file: " + read_status.message);
   }
   writer.close();
+  output_stream.close();
+  if (!output_stream) {
+    throw std::runtime_error("Error writing MCAP file: " + output_file.string());
+  }
 
   std::cout << "\nSummary:" << std::endl;
   std::cout << "Total messages written: " << total_messages_written << std::endl;
-- 
2.43.0


From b27dbb3dff9aaffd725b8be5719b59efc689db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 45/59] fix: bag cutter erased its input when it was also its
 output

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 18a79a8..9480c5a 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -79,6 +79,12 @@ void McapCutter::cut(
   writer_options.compression = mcap::Compression::Zstd;
   writer_options.chunkSize = 2 * 1024 * 1024;  // 2 MB
 
+  // opening the output would erase the messages that must be copied
+  std::error_code error;
+  if (std::filesystem::equivalent(input_file, output_file, error)) {
+    throw std::runtime_error("The output can not be the same file as the input: " + output_file.string());
+  }
+
   // McapWriter doesn't report the errors of the file system: check the state of the stream instead
   std::ofstream output_stream(output_file, std::ios::binary);
   if (!output_stream) {
-- 
2.43.0


From be17e9a7c8dc43dc488ae7e808dbe19555d70ab0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 46/59] fix: Python decoder returns 64-bit integer fields

INT64 and UINT64 were missing in the map of types, and became single bytes in the structured array.
---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..1ee9698 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -346,6 +346,8 @@ class CloudiniDecoder:
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
+            'UINT64': np.uint64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From f528cc1ae32b6f53997c6afc28c5a0b5a80abab0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 47/59] fix: Python decoder does not write decoded points
 beyond its output buffer

The buffer of 32 MB was used without looking at the size of the decoded cloud, nor whether it could be allocated.
---
 cloudini_py/README.md           |  6 +++---
 cloudini_py/cloudini_decoder.py | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cloudini_py/README.md b/cloudini_py/README.md
index d131322..8c6a8d9 100644
--- a/cloudini_py/README.md
+++ b/cloudini_py/README.md
@@ -268,12 +268,12 @@ pip install -r requirements.txt
 ### Memory errors with large point clouds
 
 ```
-RuntimeError: Failed to allocate memory
+RuntimeError: Decoded point cloud too large
 ```
 
-**Solution**: The decoder pre-allocates 32MB. For larger point clouds, edit `cloudini_decoder.py` line 123:
+**Solution**: The decoder pre-allocates 32MB. For larger point clouds, edit `cloudini_decoder.py`:
 ```python
-self.output_ptr = self.allocate(64 * 1024 * 1024)  # Increase to 64MB
+self.output_size = 64 * 1024 * 1024  # Increase to 64MB
 ```
 
 ### Decoding failures
diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 1ee9698..28e0f86 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -107,9 +107,10 @@ class CloudiniDecoder:
 
         # Get the cloudini functions
         self.decode_compressed_msg = exports.get('cldn_DecodeCompressedMessage')
+        self.get_decompressed_size = exports.get('cldn_GetDecompressedSize')
         self.get_header_as_yaml = exports.get('cldn_GetHeaderAsYAMLFromDDS')
 
-        if not all([self.decode_compressed_msg, self.get_header_as_yaml]):
+        if not all([self.decode_compressed_msg, self.get_decompressed_size, self.get_header_as_yaml]):
             raise RuntimeError("Could not find required Cloudini functions in WASM module")
 
         # Initialize WASM module (call constructors)
@@ -120,7 +121,10 @@ class CloudiniDecoder:
         # Simple allocator offset (start at 2MB to avoid stack/heap)
         self.alloc_offset = 2 * 1024 * 1024
 
-        self.output_ptr = self.allocate(32 * 1024 * 1024) # allocate 32 megabytes as worst case scenario
+        self.output_size = 32 * 1024 * 1024 # allocate 32 megabytes as worst case scenario
+        self.output_ptr = self.allocate(self.output_size)
+        if self.output_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for the decoded point cloud")
 
         print("WASM module loaded successfully!")
 
@@ -167,6 +171,12 @@ class CloudiniDecoder:
             # Write compressed message to WASM memory
             self.write_bytes(input_ptr, compressed_msg)
 
+            # The decoded points must fit in the output buffer (results of WASM calls are signed)
+            decoded_size = self.get_decompressed_size(self.store, input_ptr, len(compressed_msg)) & 0xFFFFFFFF
+            if decoded_size == 0:
+                raise RuntimeError("Failed to get the size of the decoded point cloud")
+            if decoded_size > self.output_size:
+                raise RuntimeError(f"Decoded point cloud too large: {decoded_size} bytes > {self.output_size} bytes")
 
             # Convert compressed message to PointCloud2 message
             actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), self.output_ptr)
-- 
2.43.0


From fcb6577407a93b7298954721adf5d56c13d14e49 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 48/59] fix: Python decoder reads headers of any size

The YAML of many or long fields overran a buffer of 4096 bytes in the memory of the module, and the results of the
allocations were not checked. The buffer is now allocated with the size of the header.
---
 .../include/cloudini_lib/wasm_functions.h         |  3 ++-
 cloudini_lib/src/wasm_functions.cpp               |  4 +++-
 cloudini_py/cloudini_decoder.py                   | 15 ++++++++++++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/wasm_functions.h b/cloudini_lib/include/cloudini_lib/wasm_functions.h
index f01eda3..d5a6584 100644
--- a/cloudini_lib/include/cloudini_lib/wasm_functions.h
+++ b/cloudini_lib/include/cloudini_lib/wasm_functions.h
@@ -29,7 +29,8 @@
 
 extern "C" {
 
-// retrieves a YAML representation of Cloudini::EncodingInfo
+// retrieves a YAML representation of Cloudini::EncodingInfo. Returns its size, and does not write it
+// if output_yaml_ptr is null.
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr);
 
 // function to use when the input is a raw DDS message containing "point_cloud_interfaces/CompressedPointCloud2"
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index b3ce8d1..3fc84d0 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -44,7 +44,9 @@ uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_
     // Copy the YAML string to the output buffer
     char* output_yaml = reinterpret_cast<char*>(output_yaml_ptr);
     size_t yaml_size = json_str.size();
-    std::memcpy(output_yaml, json_str.data(), yaml_size);
+    if (output_yaml != nullptr) {
+      std::memcpy(output_yaml, json_str.data(), yaml_size);
+    }
 
     return yaml_size;
   } catch (const std::exception& e) {
diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 28e0f86..4921855 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -231,14 +231,23 @@ class CloudiniDecoder:
         Returns:
             Dictionary with header info including 'fields' list
         """
-        # Allocate memory for input and output
+        # Allocate memory for input
         input_ptr = self.allocate(len(compressed_msg))
-        yaml_buffer_size = 4096  # Should be enough for YAML header
-        yaml_ptr = self.allocate(yaml_buffer_size)
+        yaml_ptr = 0
+        if input_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for input message")
 
         try:
             self.write_bytes(input_ptr, compressed_msg)
 
+            # A null output only returns the size
+            yaml_size = self.get_header_as_yaml(self.store, input_ptr, len(compressed_msg), 0)
+            if yaml_size == 0:
+                return {}
+            yaml_ptr = self.allocate(yaml_size)
+            if yaml_ptr == 0:
+                raise RuntimeError("Failed to allocate memory for the YAML header")
+
             # Get header as YAML
             yaml_size = self.get_header_as_yaml(self.store, input_ptr, len(compressed_msg), yaml_ptr)
             if yaml_size == 0:
-- 
2.43.0


From c9a4bb5fdbe8d78b5d417253acee9fbd2ac45059 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 49/59] fix: Foxglove extension loads the WASM module again
 after a failed load

The rejected promise was kept: every later message was refused as if the module was still loading, with an unhandled
rejection each time.
---
 cloudini_foxglove/src/PointCloudConverter.tsx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index 0f848cd..8197e42 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -9,6 +9,10 @@ export const loadCloudiniWasm = async () => {
   if (!wasmLoadingPromise) {
     wasmLoadingPromise = CloudiniModule().then((module: CloudiniWasmModule) => {
       wasmModule = module;
+    }).catch((error: unknown) => {
+      // Try again with the next message
+      wasmLoadingPromise = null;
+      throw error;
     });
   }
   return wasmLoadingPromise;
@@ -16,7 +20,7 @@ export const loadCloudiniWasm = async () => {
 
 export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud => {
   if (!wasmModule) {
-    loadCloudiniWasm();
+    loadCloudiniWasm().catch(console.error);
     throw new Error('Cloudini WASM module is still loading. Please try again.');
   }
 
-- 
2.43.0


From 3053a4c8fdf56e5a0b3dc211136a43ed9ad28f03 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 50/59] fix: Foxglove extension refuses clouds whose compressed
 data contradict the message

The output was allocated with the dimensions of the message, but the decoder writes as many bytes as the header of the
compressed data says: it overran the buffer, or a cloud with the wrong size was returned. The size is now known before
decoding.
---
 cloudini_foxglove/src/PointCloudConverter.tsx      | 10 ++++++----
 cloudini_foxglove/src/cloudini_wasm_single.d.ts    |  1 +
 cloudini_lib/CMakeLists.txt                        |  1 +
 cloudini_lib/include/cloudini_lib/wasm_functions.h |  3 +++
 cloudini_lib/src/wasm_functions.cpp                | 11 +++++++++++
 5 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index 8197e42..8f3acf4 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -73,6 +73,12 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
 
     const decompressedSize = cloud.height * cloud.width * cloud.point_step;
 
+    // The decoder writes as many bytes as the header of the compressed data says
+    const encodedSize = wasmModule._cldn_GetDecompressedDataSize(inputDataPtr, bufferSize) >>> 0;
+    if (encodedSize !== decompressedSize) {
+      throw new Error(`Decompressed size mismatch: expected ${decompressedSize}, got ${encodedSize}`);
+    }
+
     outputDataPtr = wasmModule._malloc(decompressedSize);
     if (!outputDataPtr) {
       throw new Error('Failed to allocate memory for output data');
@@ -83,10 +89,6 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
       throw new Error('Decompression failed - function returned 0');
     }
 
-    if (actualSize !== decompressedSize) {
-      console.warn(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
-    }
-
     // Copy the result to a JavaScript array
     const decodedData = new Uint8Array(wasmModule.HEAPU8.buffer, outputDataPtr, actualSize);
     // Create a copy to ensure data persists after memory is freed
diff --git a/cloudini_foxglove/src/cloudini_wasm_single.d.ts b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
index 45dd873..921d82a 100644
--- a/cloudini_foxglove/src/cloudini_wasm_single.d.ts
+++ b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
@@ -23,6 +23,7 @@ export interface CloudiniWasmModule extends EmscriptenModule {
   _cldn_ComputeCompressedSize(inputPtr: number, inputSize: number, resolution: number): number;
   _cldn_DecodeCompressedData(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_DecodeCompressedMessage(inputPtr: number, inputSize: number, outputPtr: number): number;
+  _cldn_GetDecompressedDataSize(inputPtr: number, inputSize: number): number;
   _cldn_GetDecompressedSize(inputPtr: number, inputSize: number): number;
 }
 
diff --git a/cloudini_lib/CMakeLists.txt b/cloudini_lib/CMakeLists.txt
index a38c1ad..736af88 100644
--- a/cloudini_lib/CMakeLists.txt
+++ b/cloudini_lib/CMakeLists.txt
@@ -152,6 +152,7 @@ else()
       "_cldn_GetHeaderAsYAMLFromDDS"
       "_cldn_ComputeCompressedSize"
       "_cldn_GetDecompressedSize"
+      "_cldn_GetDecompressedDataSize"
       "_cldn_DecodeCompressedMessage"
       "_cldn_DecodeCompressedData"
       "_cldn_ConvertCompressedMsgToPointCloud2Msg"
diff --git a/cloudini_lib/include/cloudini_lib/wasm_functions.h b/cloudini_lib/include/cloudini_lib/wasm_functions.h
index d5a6584..85cc29c 100644
--- a/cloudini_lib/include/cloudini_lib/wasm_functions.h
+++ b/cloudini_lib/include/cloudini_lib/wasm_functions.h
@@ -44,6 +44,9 @@ WASM_EXPORT uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t
 // No actual decompression is performed.
 WASM_EXPORT uint32_t cldn_GetDecompressedSize(uintptr_t encoded_msg_ptr, uint32_t encoded_msg_size);
 
+// Same as cldn_GetDecompressedSize, but the input is the compressed data only (see cldn_DecodeCompressedData)
+WASM_EXPORT uint32_t cldn_GetDecompressedDataSize(uintptr_t encoded_data_ptr, uint32_t encoded_data_size);
+
 /**
  * @brief Given the a serialized DDS message containing "point_cloud_interfaces/CompressedPointCloud2",
  * perform decoding and write the result into a "sensor_msgs/PointCloud2" serialized message.
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 3fc84d0..fa664a6 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -114,6 +114,17 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
   }
 }
 
+uint32_t cldn_GetDecompressedDataSize(uintptr_t encoded_data_ptr, uint32_t encoded_data_size) {
+  try {
+    Cloudini::ConstBufferView encoded_view(reinterpret_cast<const uint8_t*>(encoded_data_ptr), encoded_data_size);
+    const Cloudini::EncodingInfo info = Cloudini::DecodeHeader(encoded_view);
+    return RawDataSize(info.width, info.height, info.point_step);
+  } catch (const std::exception& e) {
+    EM_ASM({ console.error('Exception in cldn_GetDecompressedDataSize:', UTF8ToString($0)); }, e.what());
+    return 0;
+  }
+}
+
 uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
     uintptr_t compressed_msg_ptr, uint32_t encoded_data_size, uintptr_t output_msg_ptr) {
   const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(compressed_msg_ptr);
-- 
2.43.0


From 8b3f21fbf254f573449110f459ec13683e70bb24 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 51/59] fix: web page counted twice the messages of channels
 that share a topic

---
 cloudini_web/main.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 7003faf..2fee585 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -155,6 +155,10 @@ async function analyzeFile(reader, file) {
                 endTime: reader.end,
                 topics: [channel.topic]
             })) {
+                // Other channels can share the topic: they are counted on their own
+                if (message.channelId !== channel.channelId) {
+                    continue;
+                }
                 // We already know this channel has the target schema
                 messageCount++;
                 const dataSize = message.data.length;
-- 
2.43.0


From f866739baaffd41e9da946e2b3ae296c5d26c5a6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 52/59] fix: web page corrupted its memory and its ratio when a
 message could not be compressed

---
 cloudini_web/main.js | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 2fee585..91fd6ac 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -162,7 +162,6 @@ async function analyzeFile(reader, file) {
                 // We already know this channel has the target schema
                 messageCount++;
                 const dataSize = message.data.length;
-                totalSize += dataSize;
 
                 // Call WASM function
                 try {
@@ -185,12 +184,18 @@ async function analyzeFile(reader, file) {
                     if (wasmModule._malloc && wasmModule._free && wasmModule.HEAPU8) {
                         // Direct memory approach (Option 1)
                         const dataPtr = wasmModule._malloc(dataSize);
-                        const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
-                        wasmView.set(dataView);
-
-                        // Use the correct WASM function name with resolution parameter (1mm = 0.001)
-                        compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
-                        wasmModule._free(dataPtr);
+                        if (!dataPtr) {
+                            throw new Error('Out of WASM memory');
+                        }
+                        try {
+                            const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
+                            wasmView.set(dataView);
+
+                            // Use the correct WASM function name with resolution parameter (1mm = 0.001)
+                            compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
+                        } finally {
+                            wasmModule._free(dataPtr);
+                        }
                     } else {
                         // Fallback to ccall approach with resolution parameter
                         compressedSize = wasmModule.ccall(
@@ -201,7 +206,11 @@ async function analyzeFile(reader, file) {
                         );
                     }
 
-                    totalCompressedSize += compressedSize;
+                    // Messages that could not be compressed would falsify the ratio
+                    if (compressedSize > 0) {
+                        totalSize += dataSize;
+                        totalCompressedSize += compressedSize;
+                    }
                 } catch (error) {
                     console.error('Error calling WASM function:', error);
                     console.error('Data size:', dataSize);
-- 
2.43.0


From e576f82bf79755e49bcdf2b364b76234f0e6667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 53/59] fix: PCL clouds whose data don't match their dimensions
 were encoded as a different cloud

---
 cloudini_lib/src/pcl_conversion.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 1a8d6f6..8fd0e0d 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -202,6 +202,16 @@ EncodingInfo ConvertToEncodingInfo<pcl::PointXYZI>(
 
 size_t PCLPointCloudEncode(
     const pcl::PCLPointCloud2& cloud, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ) {
+  // the header stores only the dimensions: padded rows, or dimensions that are not those of the data, would be
+  // decoded as a different cloud
+  const uint64_t num_points = static_cast<uint64_t>(cloud.width) * cloud.height;
+  const bool same_size = (cloud.point_step == 0 || num_points == 0)
+                             ? cloud.data.empty()
+                             : (cloud.data.size() % cloud.point_step == 0 &&  //
+                                cloud.data.size() / cloud.point_step == num_points);
+  if (!same_size) {
+    throw std::runtime_error("PCLPointCloudEncode: the data size doesn't match width * height * point_step");
+  }
   // get the encoding info
   EncodingInfo info = ConvertToEncodingInfo(cloud, resolution_XYZ);
   PointcloudEncoder encoder(info);
-- 
2.43.0


From e40c1475b63ce91189e657bf51c647173b6c7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 54/59] fix: typed PCL clouds with stale dimensions were
 encoded as a different cloud

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 05a8841..88cf810 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -123,6 +123,11 @@ inline size_t PointcloudEncode(
   // get the encoding info
   std::cout << "  Cloud size: " << cloud.points.size() << std::endl;
 
+  // the header stores only the dimensions: with stale ones, a different cloud would be decoded
+  if (static_cast<uint64_t>(cloud.width) * cloud.height != cloud.points.size()) {
+    throw std::runtime_error("PointcloudEncode: the number of points doesn't match width * height");
+  }
+
   EncodingInfo info = ConvertToEncodingInfo(cloud, resolution_XYZ);
   const auto points_data_size = cloud.points.size() * sizeof(PointT);
 
-- 
2.43.0


From 730334b3e988577cfa3dbf21850910d95fd1158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 55/59] fix: web page analysed two files at once when a file
 dialog ended during an analysis

---
 cloudini_web/main.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 91fd6ac..51e36eb 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -59,6 +59,10 @@ function enableDropZone() {
 }
 
 async function handleFile(file) {
+    // A file dialog that was opened earlier can end while another file is being processed
+    if (dropZone.classList.contains('disabled')) {
+        return;
+    }
     if (!file.name.endsWith('.mcap')) {
         status.innerHTML = 'Error: Please select an MCAP file';
         return;
-- 
2.43.0


From dd778c2d3c823d64ac6e48fe1a3be4bfaaf49bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 56/59] fix: header inspector crashed on bags with channels
 without schema

---
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 9d89959..a4a2a2f 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -81,7 +81,7 @@ int main(int argc, char** argv) {
     std::vector<mcap::ChannelId> compressed_channels;
     for (const auto& [channel_id, channel_ptr] : reader->channels()) {
       const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-      if (schema_ptr->name == compressed_schema_name) {
+      if (schema_ptr && schema_ptr->name == compressed_schema_name) {
         compressed_channels.push_back(channel_id);
         std::cout << "Found CompressedPointCloud2 topic: " << channel_ptr->topic << std::endl;
       }
-- 
2.43.0


From dffb9b377fbffe2f96fe767d72d193fec41a3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 57/59] fix: bag converter renamed types that only start like
 the point cloud type in metadata.yaml

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 3e93afc..3b3b3cc 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -15,6 +15,7 @@
  */
 
 #include <algorithm>
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -30,6 +31,12 @@ namespace {
 void replaceAll(std::string& str, const std::string& from, const std::string& to) {
   size_t pos = 0;
   while ((pos = str.find(from, pos)) != std::string::npos) {
+    // skip longer names, for instance other types that start with the same characters
+    const size_t end = pos + from.size();
+    if (end < str.size() && (std::isalnum(static_cast<unsigned char>(str[end])) || str[end] == '_')) {
+      pos = end;
+      continue;
+    }
     str.replace(pos, from.size(), to);
     pos += to.size();
   }
-- 
2.43.0


From 810500e506cfdfe46f39226dda6b52e28f95ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:18 +0000
Subject: [PATCH 58/59] fix: bag converter accepted profiles whose number was
 only partly read ("0,01" removed the field)

---
 cloudini_lib/tools/src/mcap_converter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index dce8ae7..4b163d7 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -16,6 +16,7 @@
 
 #include "mcap_converter.hpp"
 
+#include <cmath>
 #include <set>
 #include <stdexcept>
 
@@ -391,12 +392,16 @@ void McapConverter::addProfile(const std::string& profile) {
     if (resolution_str == "remove") {
       resolution = 0.0f;
     } else {
-      // check if resolution_str can be converted to float
+      // check if resolution_str can be converted to float, entirely: "0,01" would be read as 0, that removes the field
+      size_t parsed_size = 0;
       try {
-        resolution = std::stof(resolution_str);
+        resolution = std::stof(resolution_str, &parsed_size);
       } catch (const std::invalid_argument& e) {
         throw std::runtime_error("Invalid profile (failed conversion to float): " + profile);
       }
+      if (parsed_size != resolution_str.size() || !std::isfinite(resolution) || resolution < 0.0f) {
+        throw std::runtime_error("Invalid profile (failed conversion to float): " + profile);
+      }
     }
     if (field_str == "xyz") {
       profile_resolutions_["x"] = resolution;
-- 
2.43.0


From b9f7c6683ec3e092c96ff2bf90aa0961077230cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 59/59] fix: version 2 streams with fewer points than declared
 were accepted (the rest of the cloud was left as it was)

---
 cloudini_lib/src/cloudini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index f7bf5b5..3934242 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -683,7 +683,13 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
       throw std::runtime_error("Encoded data ended before all declared points were decoded");
     }
   } else {
+    // A single chunk, that does not tell how many points it contains: it must be those of the header.
+    const size_t output_size = output.size();
     decodeChunk(info, compressed_data, output, /*expected_points=*/0);
+    const uint64_t declared_points = static_cast<uint64_t>(info.width) * info.height;
+    if (output_size - output.size() != declared_points * info.point_step) {
+      throw std::runtime_error("Encoded data does not contain the declared number of points");
+    }
   }
 }
 
-- 
2.43.0

