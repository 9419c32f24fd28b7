From 59ed2a6a34e74640677610f77bacc94ecb7aa056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:45 +0000
Subject: [PATCH 01/70] fix: avoid signed overflow when detecting lost SEIs

Adding INT64_MAX to a positive number of missed GOPs is undefined behaviour. The GOP counter is a
32 bit counter, so compensate a wraparound accordingly.
---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..72a357d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -113,8 +113,8 @@ detect_lost_sei(signed_video_t *self)
   // a reset and a wraparound but provides a reasonable estimate to handle the situation.
   // TODO: Investigate what happens if two SEI frames are interchanged.This will be
   // addressed in future updates.
-  bool is_wraparound = (potentially_missed_gops + INT64_MAX) < (INT64_MAX / 2);
-  if (is_wraparound) potentially_missed_gops += INT64_MAX;
+  bool is_wraparound = potentially_missed_gops < -(int64_t)INT32_MAX;
+  if (is_wraparound) potentially_missed_gops += (int64_t)UINT32_MAX + 1;
 
   // It is only possible to know if a SEI has been lost if the |global_gop_counter| is in sync.
   // Otherwise, the counter cannot be trusted.
-- 
2.43.0


From 5f5848541ef7619020ce757564552c2cbf3ab6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:18 +0000
Subject: [PATCH 02/70] fix: validation never ended when several SEIs and their
 GOPs were lost

When more than one SEI was lost together with all the NALUs in front of the next received SEI, there
were no NALUs to mark as not OK, hence the counter of the latest validated GOP was not moved and the
same pending SEI was validated over and over again.
---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 72a357d..d99a158 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -584,6 +584,10 @@ verify_hashes_without_sei(signed_video_t *self)
   // If we have verified a GOP without a SEI, we should increment the |global_gop_counter|.
   if (self->validation_flags.signing_present && (num_marked_items > 0)) {
     self->gop_info->latest_validated_gop++;
+  } else if (self->validation_flags.signing_present && self->gop_state.has_lost_sei) {
+    // All NALUs associated with the lost SEIs were lost as well, hence there is nothing more to
+    // verify without a SEI. Catch up with the received SEI to make progress.
+    self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter - 1;
   }
 
   return found_next_gop;
-- 
2.43.0


From d20eb93fbd1c4b3932acfd84931bd793f248eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:39 +0000
Subject: [PATCH 03/70] fix: report a GOP as not OK if all its picture NALUs
 were lost

A signed GOP of which only the SEI was received, was reported as OK since there was no NALU to mark
as not OK.
---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index d99a158..4859a9d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -664,6 +664,10 @@ validate_authenticity(signed_video_t *self)
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
+    // If nothing was received of the GOP there are no items to mark as missing.
+    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 0) && (num_received_nalus == 0)) {
+      valid = SV_AUTH_RESULT_NOT_OK;
+    }
     self->gop_info->global_gop_counter_is_synced = true;
   }
   // Determine if this GOP is valid, but has missing information. This happens if we have detected
-- 
2.43.0


From f1c80c85571568f3df9ba87c78c9e6ec65a0de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 04/70] fix: do not read outside the NALU data when parsing

NALUs shorter than a Start Code, without a complete header, with only zeros, or SEIs with a payload
size that does not match the data, made the parser read outside the NALU.
---
 lib/src/legacy/legacy_h26x_common.c | 63 ++++++++++++++++++++++------
 lib/src/signed_video_h26x_common.c  | 65 ++++++++++++++++++++++-------
 lib/src/signed_video_h26x_sign.c    |  2 +-
 3 files changed, 102 insertions(+), 28 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..0ddbbea 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,13 +171,16 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // Without a final size byte the payload size is unknown.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -196,6 +199,9 @@ legacy_get_uuid_sei_type(const uint8_t *uuid)
 static bool
 legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 {
+  // A NALU without a complete header is not valid.
+  if (nalu->hashable_data_size < LEGACY_H264_NALU_HEADER_LEN) return false;
+
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -204,7 +210,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -259,6 +266,9 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 static bool
 legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
 {
+  // A NALU without a complete header is not valid.
+  if (nalu->hashable_data_size < LEGACY_H265_NALU_HEADER_LEN) return false;
+
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -275,7 +285,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -388,6 +399,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // The TLV part cannot go beyond the available data.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -410,6 +425,16 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
+      // Reading a byte may include reading an emulation prevention byte in front of it.
+      if (hashable_data_end - hashable_data_ptr < 2 &&
+          (hashable_data_ptr == hashable_data_end ||
+              (last_two_bytes == 0 && *hashable_data_ptr == 0x03))) {
+        DEBUG_LOG("Not enough data, there is no complete TLV part");
+        free(nalu->nalu_data_wo_epb);
+        nalu->nalu_data_wo_epb = NULL;
+        nalu->tlv_size = 0;
+        return;
+      }
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
@@ -460,9 +485,12 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // A NALU shorter than 4 bytes cannot have both a Start Code and a NALU header.
+  if (nalu_data_size >= 4) read_bytes = read_32bits(nalu_data, &start_code);
+
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -474,6 +502,7 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
@@ -495,7 +524,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,14 +535,21 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *hashable_data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
-      // Decode payload size and compute emulation prevention bytes
-      size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
-      payload += read_bytes;
+    bool is_user_data_unregistered =
+        (payload < hashable_data_end) && (*payload++ == LEGACY_USER_DATA_UNREGISTERED);
+    size_t payload_size = 0;
+    if (is_user_data_unregistered) {
+      // Decode payload size
+      size_t payload_size_bytes = legacy_get_payload_size(payload, hashable_data_end - payload, &payload_size);
+      payload += payload_size_bytes;
+      // A Signed Video SEI has at least a UUID and a reserved byte.
+      is_user_data_unregistered = (payload_size_bytes > 0) && (payload_size > UUID_LEN) &&
+          (hashable_data_end - payload > UUID_LEN);
+    }
+    if (is_user_data_unregistered) {
+      // Compute emulation prevention bytes
       nalu.payload = payload;
       nalu.payload_size = payload_size;
       // We now know the payload size, including UUID (16 bytes) and excluding stop bit. This means
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..b989c73 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,13 +317,16 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
+  // Without a final size byte the payload size is unknown.
+  if (data_ptr >= data_end) return 0;
   *payload_size += *data_ptr++;
 
   return (data_ptr - data);
@@ -342,6 +345,9 @@ h264_get_uuid_sei_type(const uint8_t *uuid)
 static bool
 parse_h264_nalu_header(h26x_nalu_t *nalu)
 {
+  // A NALU without a complete header is not valid.
+  if (nalu->hashable_data_size < H264_NALU_HEADER_LEN) return false;
+
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -350,7 +356,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -405,6 +412,9 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
 static bool
 parse_h265_nalu_header(h26x_nalu_t *nalu)
 {
+  // A NALU without a complete header is not valid.
+  if (nalu->hashable_data_size < H265_NALU_HEADER_LEN) return false;
+
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -421,7 +431,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -534,6 +545,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // The TLV part cannot go beyond the available data.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -556,6 +571,16 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
     for (size_t i = 0; i < data_size; i++) {
+      // Reading a byte may include reading an emulation prevention byte in front of it.
+      if (hashable_data_end - hashable_data_ptr < 2 &&
+          (hashable_data_ptr == hashable_data_end ||
+              (last_two_bytes == 0 && *hashable_data_ptr == 0x03))) {
+        DEBUG_LOG("Not enough data, there is no complete TLV part");
+        free(nalu->nalu_data_wo_epb);
+        nalu->nalu_data_wo_epb = NULL;
+        nalu->tlv_size = 0;
+        return;
+      }
       nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
@@ -606,9 +631,12 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // A NALU shorter than 4 bytes cannot have both a Start Code and a NALU header.
+  if (nalu_data_size >= 4) read_bytes = read_32bits(nalu_data, &start_code);
+
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -620,6 +648,7 @@ parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
@@ -641,7 +670,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,14 +681,21 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *hashable_data_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == USER_DATA_UNREGISTERED) {
-      // Decode payload size and compute emulation prevention bytes
-      size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
-      payload += read_bytes;
+    bool is_user_data_unregistered =
+        (payload < hashable_data_end) && (*payload++ == USER_DATA_UNREGISTERED);
+    size_t payload_size = 0;
+    if (is_user_data_unregistered) {
+      // Decode payload size
+      size_t payload_size_bytes = h264_get_payload_size(payload, hashable_data_end - payload, &payload_size);
+      payload += payload_size_bytes;
+      // A Signed Video SEI has at least a UUID and a reserved byte.
+      is_user_data_unregistered = (payload_size_bytes > 0) && (payload_size > UUID_LEN) &&
+          (hashable_data_end - payload > UUID_LEN);
+    }
+    if (is_user_data_unregistered) {
+      // Compute emulation prevention bytes
       nalu.payload = payload;
       nalu.payload_size = payload_size;
       // We now know the payload size, including UUID (16 bytes) and excluding stop bit. This means
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..9462f89 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -497,7 +497,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
-- 
2.43.0


From f8931beb254cb91ba8342f8c87584381b6c2a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:39 +0000
Subject: [PATCH 05/70] fix: do not read outside the TLV data when decoding
 SEIs

The TLV decoders trusted all lengths in the received data. Check that
headers, values and strings fit in the data, do not index the library
tuples with a vendor tag and search for the signature tag in all of the
encoded payload, also if it has many emulation prevention bytes.
---
 lib/src/legacy/legacy_h26x_auth.c |   8 +-
 lib/src/legacy/legacy_tlv.c       |  81 ++++++++++++------
 lib/src/signed_video_h26x_auth.c  |   8 +-
 lib/src/signed_video_tlv.c        | 135 +++++++++++++++++++++---------
 4 files changed, 163 insertions(+), 69 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..b7e3605 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -980,8 +980,12 @@ legacy_update_hashable_data(legacy_h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
-  const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+  // Note that |tlv_size| is the size without emulation prevention bytes, hence cannot be used to limit
+  // the search.
+  if (!nalu->tlv_start_in_nalu_data) return;
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const uint8_t *signature_tag_ptr = tlv_find_tag(nalu->tlv_start_in_nalu_data,
+      hashable_data_end - nalu->tlv_start_in_nalu_data, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..8e6a2a9 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -184,6 +185,9 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 2, SV_INCOMPATIBLE_VERSION);
+    // Version, GOP counter, number of sent NALUs and code version (and flags) are always present.
+    SV_THROW_IF(data_size < (size_t)7 + SV_VERSION_BYTES + (version >= 2 ? 1 : 0),
+        SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -204,6 +208,8 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF((size_t)(data + data_size - data_ptr) < sizeof(gop_info->timestamp),
+            SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -235,6 +241,25 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/**
+ * @brief Decodes one string of the PRODUCT_INFO_TAG and moves |data_ptr| past it
+ *
+ * A string is preceded by its size (1 byte) and includes the null-terminated character.
+ */
+static svrc_t
+legacy_decode_product_info_string(char **str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  const size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+  if ((*data_ptr)[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  svrc_t status = allocate_memory_and_copy_string(str, (const char *)*data_ptr);
+  *data_ptr += str_size;
+
+  return status;
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -242,6 +267,7 @@ static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
@@ -252,26 +278,11 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(legacy_decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -344,7 +355,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
   // The algo was removed in version 2 since it is not needed. Simply move to next byte if
   // older version.
-  if (version < 2) {
+  if (version < 2 && pubkey_size > 0) {
     data_ptr++;
     pubkey_size -= 1;
   }
@@ -446,6 +457,8 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
   uint8_t **signature_ptr = &verify_data->signature;
+  // Version, encoding status, hash type and signature size are always present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   uint8_t encoding_status = *data_ptr++;
   legacy_hash_type_t hash_type = *data_ptr++;
@@ -500,6 +513,8 @@ static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
   const uint8_t *data_ptr = data;
+  // Version and OID size are always present and the OID has to fit in the data.
+  if (data_size < 2 || data_size != (size_t)data[1] + 2) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
@@ -556,30 +571,40 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  // The header has to fit in the data.
+  if (data_size < (size_t)tlv.bytes_for_length + 1) return SV_INVALID_PARAMETER;
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // The value has to be non-empty and fit in the data.
+  if (*length == 0 || *length > data_size - *data_bytes_read) {
+    DEBUG_LOG("Parsed an invalid length (%zu) of tag (%d)", *length, *tag);
+    return SV_INVALID_PARAMETER;
+  }
 
   return SV_OK;
 }
@@ -596,7 +621,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -630,13 +656,14 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 4859a9d..e7c745c 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1066,8 +1066,12 @@ update_hashable_data(h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
-  const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+  // Note that |tlv_size| is the size without emulation prevention bytes, hence cannot be used to limit
+  // the search.
+  if (!nalu->tlv_start_in_nalu_data) return;
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const uint8_t *signature_tag_ptr = tlv_find_tag(nalu->tlv_start_in_nalu_data,
+      hashable_data_end - nalu->tlv_start_in_nalu_data, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..6de3b2c 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -318,6 +322,9 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(version < 1 || version > 3, SV_INCOMPATIBLE_VERSION);
+    // Version, GOP counter, number of sent NALUs and code version (and flags) are always present.
+    SV_THROW_IF(data_size < (size_t)7 + SV_VERSION_BYTES + (version >= 2 ? 1 : 0),
+        SV_AUTHENTICATION_ERROR);
 
     data_ptr += read_32bits(data_ptr, &gop_info->global_gop_counter);
     DEBUG_LOG("Found GOP counter = %u", gop_info->global_gop_counter);
@@ -338,6 +345,8 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF((size_t)(data + data_size - data_ptr) < sizeof(gop_info->timestamp),
+            SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -349,6 +358,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -511,6 +521,25 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/**
+ * @brief Decodes one string of the PRODUCT_INFO_TAG and moves |data_ptr| past it
+ *
+ * A string is preceded by its size (1 byte) and includes the null-terminated character.
+ */
+static svrc_t
+decode_product_info_string(char **str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  const size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+  if ((*data_ptr)[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+
+  svrc_t status = allocate_memory_and_copy_string(str, (const char *)*data_ptr);
+  *data_ptr += str_size;
+
+  return status;
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
@@ -518,6 +547,7 @@ static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
@@ -528,26 +558,11 @@ decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -701,7 +716,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
   // The algo was removed in version 2 since it is not needed. Simply move to next byte if
   // older version.
-  if (version < 2) {
+  if (version < 2 && pubkey_size > 0) {
     data_ptr++;
     pubkey_size -= 1;
   }
@@ -900,6 +915,8 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
   uint8_t **signature_ptr = &verify_data->signature;
+  // Version, encoding status, hash type and signature size are always present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   uint8_t encoding_status = *data_ptr++;
   hash_type_t hash_type = *data_ptr++;
@@ -998,6 +1015,8 @@ static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
   const uint8_t *data_ptr = data;
+  // Version and OID size are always present and the OID has to fit in the data.
+  if (data_size < 2 || data_size != (size_t)data[1] + 2) return SV_AUTHENTICATION_ERROR;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
@@ -1151,28 +1170,41 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  // The header has to fit in the data.
+  if (data_size < (size_t)tlv.bytes_for_length + 1) return SV_INVALID_PARAMETER;
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // The value has to be non-empty and fit in the data.
+  if (*length == 0 || *length > data_size - *data_bytes_read) {
+    DEBUG_LOG("Parsed an invalid length (%zu) of tag (%d)", *length, *tag);
+    return SV_INVALID_PARAMETER;
+  }
 
   return SV_OK;
 }
@@ -1189,7 +1221,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1208,6 +1241,25 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/* Reads a byte, as read_byte(), but never at, or beyond, |data_end|. Returns false if there is no
+ * byte left to read. */
+static bool
+read_byte_safe(uint16_t *last_two_bytes,
+    const uint8_t **data,
+    const uint8_t *data_end,
+    bool do_emulation_prevention,
+    uint8_t *byte)
+{
+  const bool is_epb = do_emulation_prevention && *data < data_end && **data == 0x03 &&
+      *last_two_bytes == 0;
+  if (data_end - *data < (is_epb ? 2 : 1)) {
+    *data = data_end;
+    return false;
+  }
+  *byte = read_byte(last_two_bytes, data, do_emulation_prevention);
+  return true;
+}
+
 const uint8_t *
 tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bool with_ep)
 {
@@ -1216,25 +1268,31 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  while (tlv_data_ptr < tlv_data_end) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    uint8_t byte = 0;
+    if (!read_byte_safe(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    sv_tlv_tag_t this_tag = (sv_tlv_tag_t)byte;
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
-    // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    // Without a known tag it is not possible to move to the next one.
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
-    if (tlv.bytes_for_length == 2) {
-      length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (tlv.tag != this_tag || tlv.bytes_for_length == 0) break;
+
+    // Read the length
+    size_t length = 0;
+    for (int i = 0; i < tlv.bytes_for_length; i++) {
+      if (!read_byte_safe(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+      length = (length << 8) | byte;
     }
     // Scan past the data
-    for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    for (size_t i = 0; i < length; i++) {
+      if (!read_byte_safe(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
@@ -1257,13 +1315,14 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From f3a1c27c00f44da42c864807f536e4ed80c6d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 06/70] fix: only count picture NALUs as frames for the
 recurrence interval

---
 lib/src/signed_video_h26x_sign.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 9462f89..0a4c68a 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -510,8 +510,9 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-    // counter for primary slices.
-    if (nalu.is_primary_slice && nalu.is_last_nalu_part) {
+    // counter for primary slices of picture NALUs.
+    const bool is_picture_nalu = nalu.nalu_type == NALU_TYPE_I || nalu.nalu_type == NALU_TYPE_P;
+    if (is_picture_nalu && nalu.is_primary_slice && nalu.is_last_nalu_part) {
       if ((self->frame_count % self->recurrence) == 0) {
         self->has_recurrent_data = true;
       }
-- 
2.43.0


From b43b71dbddd8cee6ad30983beedeade0ca616bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:41 +0000
Subject: [PATCH 07/70] fix: finalize the GOP hash at end of stream

The SEI generated at end of stream carried the GOP hash of the previous
GOP, hence the last GOP of an intact stream was reported as not OK.
---
 lib/src/signed_video_h26x_sign.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 0a4c68a..d8331dd 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -729,8 +729,13 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // There has to be an ongoing GOP to end.
+    SV_THROW_IF(self->gop_info->num_nalus_in_gop_hash == 0, SV_NOT_SUPPORTED);
+    SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
+    // The GOP has ended, hence the next I-frame should not generate a SEI.
+    self->sei_generation_enabled = false;
     // Fetch the signature. If it is not ready we exit without generating the SEI.
     sign_or_verify_data_t *sign_data = self->sign_data;
     SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 55d56855e5d8f9519c29e6a8a6e4f1d766c6502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 08/70] fix: keep the hash algorithm if the received one is
 unknown

---
 lib/src/signed_video_openssl.c | 38 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..51628d0 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -388,21 +388,23 @@ openssl_finalize_hash(void *handle, uint8_t *hash, bool use_primary_ctx)
 }
 
 /* Given an message_digest_t object, this function reads the serialized data in |oid| and
- * sets its |type|. */
+ * sets its |type|. If |oid| is not a known hash algorithm |self| is not changed. */
 static svrc_t
-oid_to_type(message_digest_t *self)
+oid_to_type(message_digest_t *self, const unsigned char *encoded_oid, size_t encoded_oid_size)
 {
   ASN1_OBJECT *obj = NULL;
+  const EVP_MD *type = NULL;
   const unsigned char *encoded_oid_ptr = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Point to the first byte of the OID. The |oid_ptr| will increment while decoding.
-    encoded_oid_ptr = self->encoded_oid;
-    SV_THROW_IF(
-        !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
-    self->type = EVP_get_digestbyobj(obj);
-    self->size = EVP_MD_size(self->type);
+    encoded_oid_ptr = encoded_oid;
+    SV_THROW_IF(!d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, encoded_oid_size), SV_EXTERNAL_ERROR);
+    type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!type || EVP_MD_size(type) <= 0, SV_EXTERNAL_ERROR);
+    self->type = type;
+    self->size = EVP_MD_size(type);
   SV_CATCH()
   SV_DONE(status)
 
@@ -485,20 +487,22 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     return SV_OK;
   }
 
-  // A new hash algorithm to set. Reset existing one.
-  free(self->hash_algo.encoded_oid);
-  self->hash_algo.encoded_oid = NULL;
-  self->hash_algo.encoded_oid_size = 0;
-
+  // A new hash algorithm to set. Keep the existing one if the new one is not supported.
+  unsigned char *new_encoded_oid = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    self->hash_algo.encoded_oid = malloc(encoded_oid_size);
-    SV_THROW_IF(!self->hash_algo.encoded_oid, SV_MEMORY);
-    memcpy(self->hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
-    self->hash_algo.encoded_oid_size = encoded_oid_size;
+    new_encoded_oid = malloc(encoded_oid_size);
+    SV_THROW_IF(!new_encoded_oid, SV_MEMORY);
+    memcpy(new_encoded_oid, encoded_oid, encoded_oid_size);
 
-    SV_THROW(oid_to_type(&self->hash_algo));
+    SV_THROW(oid_to_type(&self->hash_algo, encoded_oid, encoded_oid_size));
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo.encoded_oid = new_encoded_oid;
+    self->hash_algo.encoded_oid_size = encoded_oid_size;
   SV_CATCH()
+  {
+    free(new_encoded_oid);
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 49aacc449b78b4f9efe97bd38ad2d97815c3dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:33 +0000
Subject: [PATCH 09/70] fix: never report OK if the signature could not be
 verified

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index e7c745c..77b56c5 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -631,6 +631,7 @@ validate_authenticity(signed_video_t *self)
   int num_invalid_nalus = -1;
   int num_missed_nalus = -1;
   bool verify_success = false;
+  bool signature_is_ok = true;
 
   if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
@@ -639,6 +640,8 @@ validate_authenticity(signed_video_t *self)
     verify_success = verify_hashes_without_sei(self);
   } else {
     verify_success = verify_hashes_with_sei(self, &num_expected_nalus, &num_received_nalus);
+    // Nothing can be authentic if the signature could not be verified, or if verifying it failed.
+    signature_is_ok = (self->gop_info->verified_signature_hash == 1);
     // Set |latest_validated_gop| to recived gop counter for the next validation.
     self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter;
   }
@@ -651,7 +654,7 @@ validate_authenticity(signed_video_t *self)
   DEBUG_LOG("Number of missed NALUs = %d.", num_missed_nalus);
   remove_used_in_gop_hash(self->nalu_list);
 
-  valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  valid = (num_invalid_nalus > 0 || !signature_is_ok) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
 
   // Post-validation actions.
 
-- 
2.43.0


From 2a934c3156df03471bbc1f03a0da07c80629ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 10/70] fix: do not abort on a SEI without any content

---
 lib/src/legacy/legacy_h26x_auth.c | 2 +-
 lib/src/signed_video_h26x_auth.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index b7e3605..757de5f 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 77b56c5..061c389 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 95619649ae04bb45f72e10f7f082b024022da3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 11/70] fix: accept signatures of another size when the key
 type changes

---
 lib/src/legacy/legacy_tlv.c | 5 +++--
 lib/src/signed_video_tlv.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 8e6a2a9..cde20e3 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -476,7 +476,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= LEGACY_NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      // Either the first signature, or signed with another type of key.
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -485,7 +487,6 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 6de3b2c..7da2a8e 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -934,7 +934,9 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      // Either the first signature, or signed with another type of key.
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -943,7 +945,6 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From 5adc884fb00c9825d2479a666aa83e93623541c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:01 +0000
Subject: [PATCH 12/70] fix: read the hash algorithm from the SEI if the public
 key is set by the user

---
 lib/src/signed_video_h26x_auth.c | 12 +++++++++---
 lib/src/signed_video_tlv.c       | 20 ++++++++++++++++++++
 lib/src/signed_video_tlv.h       | 14 ++++++++++++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 061c389..63bf66f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -860,7 +860,11 @@ is_recurrent_data_decoded(signed_video_t *self)
 {
   h26x_nalu_list_t *nalu_list = self->nalu_list;
 
-  if (self->has_public_key || !self->validation_flags.signing_present) return true;
+  if (!self->validation_flags.signing_present) return true;
+
+  // If the Public key was set by the user, the hash algorithm may still be unknown.
+  const bool has_public_key = self->has_public_key;
+  if (has_public_key && self->validation_flags.hash_algo_known) return true;
 
   bool recurrent_data_decoded = false;
   h26x_nalu_list_item_t *item = nalu_list->first_item;
@@ -869,12 +873,14 @@ is_recurrent_data_decoded(signed_video_t *self)
     if (item->nalu && item->nalu->is_gop_sei && item->validation_status == 'P') {
       const uint8_t *tlv_data = item->nalu->tlv_data;
       size_t tlv_size = item->nalu->tlv_size;
-      recurrent_data_decoded = tlv_find_and_decode_optional_tags(self, tlv_data, tlv_size);
+      recurrent_data_decoded = has_public_key
+          ? tlv_find_and_decode_crypto_info(self, tlv_data, tlv_size)
+          : tlv_find_and_decode_optional_tags(self, tlv_data, tlv_size);
     }
     item = item->next;
   }
 
-  return recurrent_data_decoded;
+  return has_public_key || recurrent_data_decoded;
 }
 
 /* Loops through the |nalu_list| to find out if there are GOPs that awaits validation. */
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 7da2a8e..86c8db2 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1338,6 +1338,26 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
   return optional_tags_decoded;
 }
 
+bool
+tlv_find_and_decode_crypto_info(signed_video_t *self,
+    const uint8_t *tlv_data,
+    size_t tlv_data_size)
+{
+  if (!self) return false;
+
+  const uint8_t *tag_ptr = tlv_find_tag(tlv_data, tlv_data_size, CRYPTO_INFO_TAG, false);
+  if (!tag_ptr) return false;
+
+  size_t tlv_header_size = 0;
+  size_t length = 0;
+  sv_tlv_tag_t tag = UNDEFINED_TAG;
+  svrc_t status = decode_tlv_header(
+      tag_ptr, tlv_data + tlv_data_size - tag_ptr, &tlv_header_size, &tag, &length);
+  if (status != SV_OK) return false;
+
+  return (decode_crypto_info(self, tag_ptr + tlv_header_size, length) == SV_OK);
+}
+
 const sv_tlv_tag_t *
 get_optional_tags(size_t *num_of_optional_tags)
 {
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index e59d4ba..debfe3c 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -146,6 +146,20 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     const uint8_t *tlv_data,
     size_t tlv_data_size);
 
+/**
+ * @brief Finds and decodes the crypto info TLV only, if present
+ *
+ * @param self Pointer to the signed_video_t session.
+ * @param tlv_data Pointer to the TLV data to scan.
+ * @param tlv_data_size Size of the TLV data.
+ *
+ * @returns True if the crypto info was found and successfully decoded.
+ */
+bool
+tlv_find_and_decode_crypto_info(signed_video_t *self,
+    const uint8_t *tlv_data,
+    size_t tlv_data_size);
+
 /**
  * @brief Helper to get only the optional tags as an array
  *
-- 
2.43.0


From ded64232b363b7a1f75761df49942f63d7b75ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 13/70] fix: remove all missing items of a first validation
 that could not be done

---
 lib/src/signed_video_h26x_nalu_list.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..9e252d0 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -402,7 +402,7 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
   return status;
 }
 
-/* Removes 'M' items present at the beginning of the |list|. A decoded SEI is marked
+/* Removes 'M' items present in the oldest part of the |list|. A decoded SEI is marked
  * as 'U' since it is not associated with this recording. The screening keeps going
  * until we find the decoded SEI. */
 void
@@ -415,8 +415,8 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
   h26x_nalu_list_item_t *item = list->first_item;
   while (item && !(found_first_pending_nalu && found_decoded_sei)) {
     // Reset the invalid verification failure if we have not past the first pending item.
-    // Remove the missing NALU in the front.
-    if (item->validation_status == 'M' && (item == list->first_item)) {
+    // Remove the missing NALU. Note that missing items may have been added after the first NALU.
+    if (item->validation_status == 'M') {
       const h26x_nalu_list_item_t *item_to_remove = item;
       item = item->next;
       h26x_nalu_list_remove_and_free_item(list, item_to_remove);
-- 
2.43.0


From 587a3d319176b3086f1c54c484a0bcee9b802270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 14/70] fix: do not register a NALU part that is refused

If the first part of a NALU was refused since there are remaining SEIs, the
part was treated as a continuation when added again. The hash, and thereby the
signature, became wrong.
---
 lib/src/signed_video_h26x_sign.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index d8331dd..4195c1d 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -482,6 +482,11 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     return SV_INVALID_PARAMETER;
   }
 
+  // Check if signing is possible before the NALU part is registered. Otherwise, a part that is
+  // refused would be treated as handled when added a second time.
+  svrc_t status = prepare_for_nalus_to_prepend(self);
+  if (status != SV_OK) return status;
+
   h26x_nalu_t nalu = {0};
   gop_info_t *gop_info = self->gop_info;
   // TODO: Consider moving this into parse_nalu_info().
@@ -503,10 +508,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.hashable_data_size = nalu_data_size;
   }
 
-  svrc_t status = SV_UNKNOWN_FAILURE;
+  status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(prepare_for_nalus_to_prepend(self));
-
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-- 
2.43.0


From 02e5e6b7212619b5e4e37c7207cd0d29db904bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:33 +0000
Subject: [PATCH 15/70] fix: handle trailing zeros of a NALU split in parts

Trailing zeros are not part of a NALU and are not hashed, but if they were in
another part than the end of the NALU they were hashed, or adding the part
failed, depending on how the NALU was split.
---
 lib/src/signed_video_h26x_common.c   |  9 +++++++++
 lib/src/signed_video_h26x_internal.h |  1 +
 lib/src/signed_video_h26x_sign.c     | 17 +++++++++++++----
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index b989c73..8b9eb1c 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -956,6 +956,15 @@ update_hash(signed_video_t *self,
   const uint8_t *hashable_data = nalu->hashable_data;
   size_t hashable_data_size = nalu->hashable_data_size;
 
+  // The part has nothing but 0x00 bytes, which may be trailing.
+  if (hashable_data_size == 0) return SV_OK;
+  // The 0x00 bytes at the end of the previous parts were not trailing. Hash them first.
+  const uint8_t zero = 0x00;
+  for (size_t i = 0; i < nalu->num_preceding_zeros; i++) {
+    svrc_t status = openssl_update_hash(self->crypto_handle, &zero, 1, false);
+    if (status != SV_OK) return status;
+  }
+
   return openssl_update_hash(self->crypto_handle, hashable_data, hashable_data_size, false);
 }
 
diff --git a/lib/src/signed_video_h26x_internal.h b/lib/src/signed_video_h26x_internal.h
index a4a2a90..41ae2b3 100644
--- a/lib/src/signed_video_h26x_internal.h
+++ b/lib/src/signed_video_h26x_internal.h
@@ -140,6 +140,7 @@ struct _h26x_nalu_t {
   bool is_gop_sei;  // True if this is a Signed Video generated SEI NALU
   bool is_first_nalu_part;  // True if the |nalu_data| includes the first part
   bool is_last_nalu_part;  // True if the |nalu_data| includes the last part
+  size_t num_preceding_zeros;  // Number of 0x00 bytes in previous parts not yet hashed
   bool with_epb;  // Hashable data may include emulation prevention bytes
   bool is_golden_sei;
 };
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 4195c1d..bcbee94 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -501,12 +501,21 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     copy_nalu_except_pointers(&nalu, self->last_nalu);
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
-    // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
-      nalu_data_size--;
-    }
     nalu.hashable_data_size = nalu_data_size;
   }
+  // Trailing 0x00 bytes are not part of the NALU and should not be hashed. If the NALU is split in
+  // parts it is not known if the 0x00 bytes at the end of a part are trailing until a part with
+  // other data is added. Keep track of the number of such bytes and hash them when that happens.
+  if (!(nalu.is_first_nalu_part && nalu.is_last_nalu_part)) {
+    nalu.num_preceding_zeros = self->last_nalu->num_preceding_zeros;
+    size_t num_zeros = 0;
+    while (nalu.hashable_data_size > 0 && nalu.hashable_data[nalu.hashable_data_size - 1] == 0x00) {
+      nalu.hashable_data_size--;
+      num_zeros++;
+    }
+    if (nalu.hashable_data_size == 0) num_zeros += nalu.num_preceding_zeros;
+    self->last_nalu->num_preceding_zeros = num_zeros;
+  }
 
   status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From d3585e7d2208a463ad8bdab522ce10631c08652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 16/70] fix: check the size of the serial number in the Axis
 attestation certificate

A serial number of 20 characters or more was written outside the allocated memory.
---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..5ea5045 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,9 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    // Check that the serial number fits, including null-terminated character.
+    SV_THROW_IF(strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH,
+        SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
-- 
2.43.0


From 5167e6a553561f8ec2c7b64609a084e389b7e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 17/70] fix: free the message digest context and unused
 certificates of the Axis vendor

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 5ea5045..c190a6a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // Free the certificate that was read, but not pushed to |untrusted_certificates|.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
@@ -515,6 +517,7 @@ sv_vendor_axis_communications_teardown(void *handle)
 
   free(self->attestation);
   free(self->certificate_chain);
+  EVP_MD_CTX_free(self->md_ctx);
   X509_free(self->trusted_ca);
   free(self);
 }
-- 
2.43.0


From 15715af92b0e2f78a7a691208515166ab1126245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 18/70] fix: do not read outside the data when decoding the
 Axis vendor TLV

---
 .../axis-communications/sv_vendor_axis_communications.c   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index c190a6a..bbb3cfd 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -613,16 +613,20 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   const uint8_t *data_ptr = data;
-  uint8_t version = *data_ptr++;
+  uint8_t version = 0;
   uint8_t attestation_size = 0;
   size_t cert_size = 0;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    SV_THROW_IF(!data || data_size < 2, SV_AUTHENTICATION_ERROR);
+    version = *data_ptr++;
     SV_THROW_IF(version != 1, SV_INCOMPATIBLE_VERSION);
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // There has to be a |certificate_chain| after the |attestation|.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -642,7 +646,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -652,6 +655,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(strlen(self->certificate_chain) < cert_size, SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From 89d80accad88f69e1e5d58928dd2409e11c56118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 19/70] fix: handle incomplete attestation reports when
 encoding the Axis vendor TLV

Signing crashed with an attestation only, and with an incomplete certificate
chain a TLV that cannot be decoded was added to the SEI.
---
 .../axis-communications/sv_vendor_axis_communications.c     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index bbb3cfd..f3edf5d 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -545,7 +545,7 @@ get_untrusted_certificates_size(const sv_vendor_axis_communications_t *self)
   while (certs_left > 0 && cert_ptr) {
     cert_ptr = strstr(cert_chain_ptr, "-----BEGIN CERTIFICATE-----");
     certs_left--;
-    cert_chain_ptr = cert_ptr + 1;
+    if (cert_ptr) cert_chain_ptr = cert_ptr + 1;
   }
   // Check if |cert_ptr| points at the third (last) certificate. If not, the certificate chain is
   // incomplete.
@@ -568,8 +568,8 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
   size_t certificate_chain_encode_size = get_untrusted_certificates_size(self);
   const uint8_t version = 1;  // Increment when the change breaks the format
 
-  // If there is no attestation or certificate chain, skip encoding, that is return 0.
-  if (!self->attestation || !self->certificate_chain) return 0;
+  // If there is no attestation or complete certificate chain, skip encoding, that is return 0.
+  if (!self->attestation || certificate_chain_encode_size == 0) return 0;
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From bbf6b0f7d435ae1b6e268d5236dfde040393e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 20/70] fix: keep a reference to the public key in the Axis
 vendor

The public key is replaced if it changes in the stream, after which the Axis
vendor used freed memory.
---
 .../sv_vendor_axis_communications.c           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index f3edf5d..ff3b112 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -116,8 +116,7 @@ typedef struct _sv_vendor_axis_communications_t {
   struct attestation_report attestation_report;
 
   // Public key to validate using |attestation| and |certificate_chain|
-  const void *public_key;  // A pointer to the public key used for validation. Assumed to be a
-  // EVP_PKEY struct. Ownership is NOT transferred.
+  EVP_PKEY *public_key;  // A reference to the public key used for validation.
 
   // Public key validation results
   sv_vendor_axis_supplemental_authenticity_t supplemental_authenticity;
@@ -378,7 +377,6 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 {
   assert(self);
 
-  EVP_PKEY *pkey = NULL;
   uint8_t *public_key_uncompressed = NULL;
   size_t public_key_uncompressed_size = 0;
   uint8_t *signed_data = NULL;
@@ -391,10 +389,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     SV_THROW_IF(!self->md_ctx, SV_VENDOR_ERROR);
     SV_THROW_IF(!self->public_key, SV_NOT_SUPPORTED);
     // Convert |public_key| to uncompressed Weierstrass form which will be part of |signed_data|.
-    // The |public_key| is on EVP_PKEY_CTX form.
-    pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)self->public_key);
-    SV_THROW_IF(!pkey, SV_EXTERNAL_ERROR);
-    public_key_uncompressed_size = EVP_PKEY_get1_encoded_public_key(pkey, &public_key_uncompressed);
+    public_key_uncompressed_size =
+        EVP_PKEY_get1_encoded_public_key(self->public_key, &public_key_uncompressed);
     // Check size and prefix of |public_key| after conversion.
     SV_THROW_IF(public_key_uncompressed_size != PUBLIC_KEY_UNCOMPRESSED_SIZE, SV_VENDOR_ERROR);
     SV_THROW_IF(public_key_uncompressed[0] != PUBLIC_KEY_UNCOMPRESSED_PREFIX, SV_VENDOR_ERROR);
@@ -518,6 +514,7 @@ sv_vendor_axis_communications_teardown(void *handle)
   free(self->attestation);
   free(self->certificate_chain);
   EVP_MD_CTX_free(self->md_ctx);
+  EVP_PKEY_free(self->public_key);
   X509_free(self->trusted_ca);
   free(self);
 }
@@ -717,10 +714,14 @@ set_axis_communications_public_key(void *handle,
       SV_THROW_IF(strcmp(group_name, SN_X9_62_prime256v1) != 0, SV_VENDOR_ERROR);
     }
 
-    // The Public key is of correct type and size.
-    self->public_key = public_key;
+    // The Public key is of correct type and size. Keep a reference to it, since it may be replaced by
+    // another one.
+    SV_THROW_IF(EVP_PKEY_up_ref(pkey) != 1, SV_EXTERNAL_ERROR);
+    EVP_PKEY_free(self->public_key);
+    self->public_key = pkey;
   SV_CATCH()
   {
+    EVP_PKEY_free(self->public_key);
     self->public_key = NULL;
     public_key_validation = 0;
   }
-- 
2.43.0


From 76259e35268ccd275aba89f70f6234a7af25dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 21/70] fix: validate video from Axis without an attestation

If there is no attestation, or if the public key was not part of the stream, the
public key validation should be not feasible, but the validation failed.
---
 lib/src/signed_video_h26x_auth.c                           | 4 +++-
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 63bf66f..468d895 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -823,7 +823,9 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      const char *serial_number = self->product_info->serial_number;
+      if (supplemental_authenticity->public_key_validation >= 0 &&
+          (!serial_number || strcmp(serial_number, supplemental_authenticity->serial_number))) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index ff3b112..37c4784 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -740,6 +740,13 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  // Without an attestation, or if the Public key was not part of the stream, there are no means to
+  // validate the Public key.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) {
+    *supplemental_authenticity = &self->supplemental_authenticity;
+    return SV_OK;
+  }
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 180216e0ec2b23ed8fd6979aad92a8efffdb4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 22/70] fix: malformed attestations and other curves should not
 end validation with an error

The public key is not correct in these cases, but the video could still be validated.
---
 .../axis-communications/sv_vendor_axis_communications.c     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 37c4784..3fc868f 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -458,7 +458,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     verified_signature = EVP_DigestVerify(self->md_ctx,
         self->attestation_report.attestation_list.signature,
         self->attestation_report.attestation_list.signature_size, signed_data, SIGNED_DATA_SIZE);
-    SV_THROW_IF(verified_signature < 0, SV_EXTERNAL_ERROR);
+    // A signature that could not be verified, for example if it is malformed, is not correct.
+    SV_THROW_IF(verified_signature < 0, SV_VENDOR_ERROR);
 
     // If verification fails (is 0) the result should never be overwritten with success (1) later.
     self->supplemental_authenticity.public_key_validation &= verified_signature;
@@ -707,11 +708,10 @@ set_axis_communications_public_key(void *handle,
     if (EVP_PKEY_base_id(pkey) != EVP_PKEY_EC) {
       public_key_validation = 0;
     } else {
-      SV_THROW_IF(EVP_PKEY_get_base_id(pkey) != EVP_PKEY_EC, SV_VENDOR_ERROR);
       char group_name[100];
       SV_THROW_IF(EVP_PKEY_get_group_name(pkey, group_name, sizeof(group_name), NULL) != 1,
           SV_EXTERNAL_ERROR);
-      SV_THROW_IF(strcmp(group_name, SN_X9_62_prime256v1) != 0, SV_VENDOR_ERROR);
+      if (strcmp(group_name, SN_X9_62_prime256v1) != 0) public_key_validation = 0;
     }
 
     // The Public key is of correct type and size. Keep a reference to it, since it may be replaced by
-- 
2.43.0


From 90a91ba0e9fcc65b581e6d220117f25c58d39cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:19 +0000
Subject: [PATCH 23/70] fix: free decoded arbitrary data when closing a session

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 0ddbbea..edcf5a2 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -981,6 +981,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 8b9eb1c..fba7c51 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1302,6 +1302,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 0cb13fd128d210ba072d44145558ba2d8fd9b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 24/70] fix: store the hashable data of a SEI hashed without
 emulation prevention

---
 lib/src/signed_video_h26x_nalu_list.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 9e252d0..53bd9a0 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,10 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
+  // If the SEI was hashed before applying emulation prevention the |hashable_data| is not part of the
+  // |nalu_data|, but of |nalu_data_wo_epb|.
+  const bool is_hashed_wo_epb =
+      item->nalu->nalu_data_wo_epb && item->nalu->hashable_data == item->nalu->nalu_data_wo_epb;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +336,16 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      nalu_data = malloc(item->nalu->nalu_data_size +
+          (is_hashed_wo_epb ? item->nalu->hashable_data_size : 0));
       SV_THROW_IF(!nalu_data, SV_MEMORY);
       memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
-      if (item->nalu->is_hashable) {
-        hashable_data = nalu_data + hashable_data_offset;
+      if (item->nalu->is_hashable && is_hashed_wo_epb) {
+        // Store the |hashable_data| after the |nalu_data|.
+        hashable_data = nalu_data + item->nalu->nalu_data_size;
+        memcpy(hashable_data, item->nalu->hashable_data, item->nalu->hashable_data_size);
+      } else if (item->nalu->is_hashable) {
+        hashable_data = nalu_data + (item->nalu->hashable_data - item->nalu->nalu_data);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From 8c9378c85af5cdc145c2eb4dbd6770455527f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:06 +0000
Subject: [PATCH 25/70] fix: legacy validation left a dangling pointer when
 missing NALUs were added last

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..3aee095 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,10 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing items, for which there is nothing to copy, may have been added after the last NALU.
+  while (!item->nalu && item->prev) {
+    item = item->prev;
+  }
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From a96f47a495a96f99436f9451a38210c5bd6d8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:03 +0000
Subject: [PATCH 26/70] fix: adding and removing many missing NALUs took
 quadratic time

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 8 ++++----
 lib/src/signed_video_h26x_nalu_list.c  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 3aee095..ba7b7a7 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -144,11 +144,10 @@ legacy_h26x_nalu_list_remove_and_free_item(legacy_h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use legacy_h26x_nalu_list_refresh(), first_item needs to be part of the
-  // list. If |item_to_remove| was that first_item, we need to set a new one.
+  // If |item_to_remove| was at any end of the |list|, set a new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  legacy_h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   legacy_h26x_nalu_list_item_free(item);
 }
@@ -321,12 +320,13 @@ legacy_h26x_nalu_list_add_missing(legacy_h26x_nalu_list_t *list,
       } else {
         legacy_h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      legacy_h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  legacy_h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 53bd9a0..3c8b8ab 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -197,11 +197,10 @@ h26x_nalu_list_remove_and_free_item(h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use h26x_nalu_list_refresh(), first_item needs to be part of the list.
-  // If |item_to_remove| was that first_item, we need to set a new one.
+  // If |item_to_remove| was at any end of the |list|, set a new one.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   h26x_nalu_list_item_free(item);
 }
@@ -399,12 +398,13 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
       } else {
         h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
-- 
2.43.0


From 10b285b8f6cd9ea5c0211da258f0ce670015e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 27/70] fix: drop the pending SEI if its signing failed

A SEI for which no signature could be generated was either left in the buffer, whereby all
following signatures were added to the wrong SEIs, or freed but left in the buffer, causing
use after free and double free.
---
 lib/src/signed_video_h26x_sign.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index bcbee94..318ec54 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -125,6 +125,8 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
+    // Remove it from the buffer. Otherwise, the next signature would be added to the wrong SEI.
+    if (payload) shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   } else if (!payload) {
@@ -578,9 +580,20 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
   SV_TRY()
     SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
     sign_or_verify_data_t *sign_data = self->sign_data;
-    while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
-        sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
+    bool has_signature = true;
+    while (has_signature) {
+      signature_error = SV_OK;
+      has_signature = sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
+          sign_data->max_signature_size, &sign_data->signature_size, &signature_error);
+      if (signature_error != SV_OK) {
+        // The signing failed, hence the oldest pending SEI will never get a signature. Drop it.
+        sign_data->signature_size = 0;
+        if (self->sei_data_buffer_idx > self->num_of_completed_seis) {
+          complete_sei_nalu_and_add_to_prepend(self);
+        }
+        SV_THROW(signature_error);
+      }
+      if (!has_signature) break;
 #ifdef SIGNED_VIDEO_DEBUG
       // TODO: This might not work for blocked signatures, that is if the hash in
       // |sign_data| does not correspond to the copied |signature|.
@@ -749,13 +762,7 @@ signed_video_set_end_of_stream(signed_video_t *self)
     // The GOP has ended, hence the next I-frame should not generate a SEI.
     self->sei_generation_enabled = false;
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-    sign_or_verify_data_t *sign_data = self->sign_data;
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-    while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
-        sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
-      SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
-    }
+    SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 81146ff393fd3d3eb86251970df67225a6fc8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:22 +0000
Subject: [PATCH 28/70] fix: pull SEIs in correct order if signatures arrive
 while pulling

If a SEI was completed between the two steps of signed_video_get_nalu_to_prepend(), it was written
to memory allocated for another SEI. Also, it was pulled out of order.
---
 lib/src/signed_video_h26x_sign.c | 10 ++++++++--
 lib/src/signed_video_internal.h  |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 318ec54..50bfcc6 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -435,6 +435,7 @@ prepare_for_nalus_to_prepend(signed_video_t *self)
     // Mark the start of signing when the first NAL Unit is passed in and a signing key
     // has been set.
     self->signing_started = true;
+    self->is_pulling_latest_seis = false;
     // Check if we have NALUs to prepend waiting to be pulled. If we have one item only, this is an
     // empty list item, the pull action has no impact. We can therefore silently remove it and
     // proceed. But if there are vital SEI-nalus waiting to be pulled we return an error message
@@ -631,8 +632,13 @@ get_latest_sei(signed_video_t *self, uint8_t *sei, size_t *sei_size)
   if (!self || !sei_size) return SV_INVALID_PARAMETER;
   *sei_size = 0;
 
-  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
-  if (status != SV_OK) return status;
+  // The latest SEI is pulled first. Therefore, do not complete more SEIs until the ones already
+  // completed have been pulled. Otherwise, they end up in the wrong order.
+  if (!self->is_pulling_latest_seis) {
+    svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
+    if (status != SV_OK) return status;
+  }
+  self->is_pulling_latest_seis = (self->num_of_completed_seis > 0);
   if (self->num_of_completed_seis < 1) {
     DEBUG_LOG("There are no completed seis.");
     return SV_OK;
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..b7ffbf0 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -177,6 +177,7 @@ struct _signed_video_t {
   sei_data_t sei_data_buffer[MAX_SEI_DATA_BUFFER];
   int sei_data_buffer_idx;
   int num_of_completed_seis;
+  bool is_pulling_latest_seis;  // SEIs are being pulled with signed_video_get_nalu_to_prepend().
 
   // Members only used for validation
   // TODO: Collect everything needed by the authentication part only in one struct/object, which
-- 
2.43.0


From c17167ea9d7033f1895dcd6e240204fc3ff4ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:57 +0000
Subject: [PATCH 29/70] fix: do not stay in legacy validation after a reset

A validating session which had found a legacy stream handled everything after a
reset as a legacy stream as well.
---
 lib/src/signed_video_h26x_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index fba7c51..9a06058 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1248,7 +1248,9 @@ signed_video_reset(signed_video_t *self)
     SV_THROW_IF(!self, SV_INVALID_PARAMETER);
     DEBUG_LOG("Resetting signed session");
     // Reset session states
-    SV_THROW(legacy_sv_reset(self->legacy_sv));
+    // The next stream is not necessarily a legacy one. Legacy validation starts again if needed.
+    legacy_sv_free(self->legacy_sv);
+    self->legacy_sv = NULL;
     self->signing_started = false;
     self->sei_generation_enabled = false;
     gop_info_reset(self->gop_info);
-- 
2.43.0


From e618c3c15856ce81d58ce12467f98893f93e8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:15 +0000
Subject: [PATCH 30/70] fix: use the hash algorithm of the current stream after
 a reset

A hash context kept the message digest it was created with, and a stream without
cryptographic information was hashed with the algorithm of the previous stream.
---
 lib/src/signed_video_h26x_auth.c |  4 ++++
 lib/src/signed_video_openssl.c   | 14 ++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 468d895..d4e85b9 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1178,6 +1178,10 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         is_recurrent_data_decoded(self)) {
       if (!self->validation_flags.hash_algo_known) {
         DEBUG_LOG("No cryptographic information found in SEI. Using default hash algo");
+        // A previous stream may have used another hash algorithm.
+        SV_THROW(openssl_set_hash_algo(self->crypto_handle, NULL));
+        self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
+        self->gop_info->nalu_hash = self->gop_info->hashes + self->verify_data->hash_size;
         self->validation_flags.hash_algo_known = true;
       }
       if (nalu.is_golden_sei) SV_THROW(prepare_golden_sei(self, nalu_list->last_item));
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 51628d0..f1e0a87 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -335,17 +335,15 @@ openssl_init_hash(void *handle, bool use_primary_ctx)
   openssl_crypto_t *self = (openssl_crypto_t *)handle;
   int ret = 0;
   EVP_MD_CTX **ctx = use_primary_ctx ? &self->primary_ctx : &self->secondary_ctx;
-  if (*ctx) {
-    // Message digest type already set in context. Initialize the hashing function.
-    ret = EVP_DigestInit_ex(*ctx, NULL, NULL);
-  } else {
-    if (!self->hash_algo.type) return SV_INVALID_PARAMETER;
-    // Create a new context and set message digest type.
+  if (!self->hash_algo.type) return SV_INVALID_PARAMETER;
+  if (!(*ctx)) {
+    // Create a new context.
     *ctx = EVP_MD_CTX_new();
     if (!(*ctx)) return SV_EXTERNAL_ERROR;
-    // Set a message digest type and initialize the hashing function.
-    ret = EVP_DigestInit_ex(*ctx, self->hash_algo.type, NULL);
   }
+  // Set the message digest type, which may have changed since the context was created, and
+  // initialize the hashing function.
+  ret = EVP_DigestInit_ex(*ctx, self->hash_algo.type, NULL);
   return ret == 1 ? SV_OK : SV_EXTERNAL_ERROR;
 }
 
-- 
2.43.0


From 5312f76a008bb6512000559f997be4854212d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:47 +0000
Subject: [PATCH 31/70] fix: report a golden SEI that cannot be decoded as not
 authentic

The public key and product information of a golden SEI were used although the SEI
itself could neither be decoded nor verified, and all GOPs were reported as OK.
---
 lib/src/signed_video_h26x_auth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index d4e85b9..2bf360b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1184,7 +1184,12 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         self->gop_info->nalu_hash = self->gop_info->hashes + self->verify_data->hash_size;
         self->validation_flags.hash_algo_known = true;
       }
-      if (nalu.is_golden_sei) SV_THROW(prepare_golden_sei(self, nalu_list->last_item));
+      if (nalu.is_golden_sei) {
+        // A golden SEI that cannot be decoded is reported as not authentic. Its Public key must not
+        // be used.
+        svrc_t golden_sei_status = prepare_golden_sei(self, nalu_list->last_item);
+        if (golden_sei_status != SV_OK) self->gop_info->verified_signature_hash = -1;
+      }
 
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
-- 
2.43.0


From e388a82a29483c34e2e50fd6e0ca35133129145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:29 +0000
Subject: [PATCH 32/70] fix: the accumulated verdict never improves by a report
 without verdict

A report of a present signature replaced an accumulated NOT_OK, after which the
next OK became the accumulated verdict.
---
 lib/src/signed_video_authenticity.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..227a2ae 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -226,7 +226,8 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // Still either pending validation or video has no signature. Update with the result from
     // |latest|.
     accumulated->authenticity = latest->authenticity;
-  } else if (latest->authenticity < accumulated->authenticity) {
+  } else if (latest->authenticity > SV_AUTH_RESULT_SIGNATURE_PRESENT &&
+      latest->authenticity < accumulated->authenticity) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
     // with this worse result, since that is what should rule the total validation.
     accumulated->authenticity = latest->authenticity;
-- 
2.43.0


From f5c88425f4993c8165db4360b05e3ee682774e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:01 +0000
Subject: [PATCH 33/70] fix: verify a golden SEI delivered after picture units

The pending units were not hashed yet when the golden SEI was verified, which made
it fail.
---
 lib/src/signed_video_h26x_auth.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 2bf360b..de17e4b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1184,13 +1184,6 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         self->gop_info->nalu_hash = self->gop_info->hashes + self->verify_data->hash_size;
         self->validation_flags.hash_algo_known = true;
       }
-      if (nalu.is_golden_sei) {
-        // A golden SEI that cannot be decoded is reported as not authentic. Its Public key must not
-        // be used.
-        svrc_t golden_sei_status = prepare_golden_sei(self, nalu_list->last_item);
-        if (golden_sei_status != SV_OK) self->gop_info->verified_signature_hash = -1;
-      }
-
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
       if (!(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
@@ -1199,6 +1192,12 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         accumulated_validation_init(self->accumulated_validation);
       }
       SV_THROW(reregister_nalus(self));
+      if (nalu.is_golden_sei) {
+        // A golden SEI that cannot be decoded is reported as not authentic. Its Public key must not
+        // be used.
+        svrc_t golden_sei_status = prepare_golden_sei(self, nalu_list->last_item);
+        if (golden_sei_status != SV_OK) self->gop_info->verified_signature_hash = -1;
+      }
     }
     SV_THROW(maybe_validate_gop(self, &nalu));
   SV_CATCH()
-- 
2.43.0


From bebdb37027aa0355e6f87bc9c9774fa5f084717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 34/70] fix: do not read outside the buffer of hashes in the
 threaded plugin

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..a377eba 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -612,7 +612,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From 18e06ca61bcc830d49207f3ce642e86350a85aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:50 +0000
Subject: [PATCH 35/70] fix: refuse hashes of another size in the threaded
 plugin

A session with another hash size, using a central thread, triggered an assert in the thread.
---
 lib/plugins/threaded-signing/plugin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index a377eba..7869222 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -245,6 +245,11 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     }
     self->sign_data->hash_size = hash_size;
   }
+  // The |hash_size| has to be the same for all sessions that share |sign_data|.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
 
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
-- 
2.43.0


From 58c47c072f992342088a2e998fe83ca7a7184e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:54 +0000
Subject: [PATCH 36/70] fix: a session does not have to wait for other sessions
 to fetch signatures

With a central thread, only the oldest signature could be fetched. If it belonged to a session which
no longer was polled no other session got its signatures.
---
 lib/plugins/threaded-signing/plugin.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 7869222..40b247c 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -283,7 +283,7 @@ done:
 }
 
 /* If
- *   1. the |id| matches the oldest |out|, and
+ *   1. there is an |out| with a matching |id|, and
  *   2. the signature in |out| has been copied to |signature|
  * then returns true, otherwise false.
  * Moves the signatures in |out| forward when the copy is done. */
@@ -308,30 +308,30 @@ get_signature(threaded_data_t *self,
     goto done;
   }
 
+  // Find the oldest signature of this session. Signatures of other sessions should not block it.
+  int idx = 0;
+  while (idx < self->out_idx && self->out[idx].id != id) idx++;
   // Return if there are no signatures in the buffer
-  if (self->out_idx == 0) goto done;
-
-  // Return if next signature belongs to a different session.
-  if (self->out[0].id != id) goto done;
+  if (idx == self->out_idx) goto done;
 
   *written_signature_size = 0;
-  if (self->out[0].signing_error) {
+  if (self->out[idx].signing_error) {
     // Propagate SV_EXTERNAL_ERROR when signing failed.
     status = SV_EXTERNAL_ERROR;
-  } else if (self->out[0].size > max_signature_size) {
+  } else if (self->out[idx].size > max_signature_size) {
     // There is no room to copy the signature, set status to invalid parameter.
     status = SV_INVALID_PARAMETER;
   } else {
     // Copy the oldest signature
-    memcpy(signature, self->out[0].signature, self->out[0].size);
-    *written_signature_size = self->out[0].size;
+    memcpy(signature, self->out[idx].signature, self->out[idx].size);
+    *written_signature_size = self->out[idx].size;
     // Mark as copied.
     has_copied_signature = true;
   }
   // Move buffer
-  signature_data_t tmp = self->out[0];
+  signature_data_t tmp = self->out[idx];
   reset_signature_buffer(&tmp);
-  int i = 1;
+  int i = idx + 1;
   while (i < MAX_BUFFER_LENGTH) {
     self->out[i - 1] = self->out[i];
     i++;
-- 
2.43.0


From 038fb873880c899745de759a1b1116b1da59c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:59 +0000
Subject: [PATCH 37/70] fix: keep all signatures if the out buffer of the
 threaded plugin is full

The signatures were silently dropped, or the thread stopped for good. Now the thread waits for room,
and the in buffer tells the session when to stop adding hashes.
---
 lib/plugins/threaded-signing/plugin.c | 36 +++++++++------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 40b247c..582169a 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -23,13 +23,13 @@
  * This signing plugin sets up a worker thread and calls openssl_sign_hash(), from the worker
  * thread, when there is a new hash to sign. To handle several signatures at the same time, the
  * plugin has two buffers. One for incomming hashes and another one for outgoing signatures.
- * The thread is stopped if 1) the out buffer is full, 2) there was a failure in the memory
- * allocation for a new signature or 3) sv_signing_plugin_session_teardown() is called.
+ * The thread is stopped if 1) there was a failure in the memory allocation for a new signature or
+ * 2) sv_signing_plugin_session_teardown() is called. The thread waits if the out buffer is full.
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. The thread is stopped if 1) there was a failure in the memory
+ * allocation for a new signature or 2) sv_signing_plugin_exit() is called.
  */
 
 #include <assert.h>
@@ -338,6 +338,8 @@ get_signature(threaded_data_t *self,
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
   self->out_idx--;
+  // The thread may be waiting for room in |out|.
+  g_cond_signal(&self->cond);
 
 done:
   g_mutex_unlock(&self->mutex);
@@ -449,7 +451,7 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
@@ -484,15 +486,6 @@ central_worker_thread(void *user_data)
       }
 
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       central.out[idx].signing_error = (status != SV_OK);
@@ -518,7 +511,7 @@ central_worker_thread(void *user_data)
       }
       central.out_idx++;
     } else {
-      // Wait for a signal, triggered when it is time to sign a hash.
+      // Wait for a signal, triggered when it is time to sign a hash and there is room in |out|.
       g_cond_wait(&(central.cond), &(central.mutex));
     }
   }
@@ -584,6 +577,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // The thread may be waiting for room in |out|.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
@@ -607,7 +602,7 @@ local_worker_thread(void *user_data)
   g_cond_signal(&self->cond);
 
   while (self->is_running) {
-    if (self->in_idx > 0) {
+    if (self->in_idx > 0 && self->out_idx < MAX_BUFFER_LENGTH) {
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
       assert(self->in[0].size == self->sign_data->hash_size);
@@ -633,13 +628,6 @@ local_worker_thread(void *user_data)
       self->is_in_signing = false;
 
       int idx = self->out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        self->is_running = false;
-        free_plugin(self);
-        goto done;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       self->out[idx].signing_error = (status != SV_OK);
@@ -663,7 +651,7 @@ local_worker_thread(void *user_data)
       }
       self->out_idx++;
     } else {
-      // Wait for a signal, triggered when it is time to sign a hash.
+      // Wait for a signal, triggered when it is time to sign a hash and there is room in |out|.
       g_cond_wait(&self->cond, &self->mutex);
     }
   }
-- 
2.43.0


From e146481e7f66abacf78fcb1607cabd0dc67c5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 38/70] fix: free the local session of the threaded plugin if
 it cannot be set up

---
 lib/plugins/threaded-signing/plugin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 582169a..b7887ab 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -703,6 +703,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
@@ -774,7 +775,7 @@ sv_signing_plugin_get_signature(void *handle,
     return get_signature(
         &central, self->central->id, signature, max_signature_size, written_signature_size, error);
   } else {
-    *error = SV_NOT_SUPPORTED;
+    if (error) *error = SV_NOT_SUPPORTED;
     return false;
   }
 }
-- 
2.43.0


From 968d8fa17878da770e2162d7930479a65c6a92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 39/70] fix: a public key that cannot be read should not block
 setting another one

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index de17e4b..e48f39b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1265,6 +1265,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // Make it possible to try again.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 20d88f31700823fe83188b476b12bf010f332aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:41 +0000
Subject: [PATCH 40/70] fix: free the object of an unknown hash algorithm

---
 lib/src/signed_video_openssl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index f1e0a87..79ea14b 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -450,9 +450,10 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
     name_or_oid = DEFAULT_HASH_ALGO;
   }
 
+  ASN1_OBJECT *hash_algo_obj = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    ASN1_OBJECT *hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
+    hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
     SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
@@ -468,6 +469,8 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   SV_CATCH()
   SV_DONE(status)
 
+  ASN1_OBJECT_free(hash_algo_obj);
+
   return status;
 }
 
-- 
2.43.0


From ca581d0ac82a7d875c1cf98cf4fc322ada2c73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:48 +0000
Subject: [PATCH 41/70] fix: setting the private key again leaked the previous
 one and lost it upon failure

---
 lib/src/signed_video_h26x_sign.c | 34 ++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50bfcc6..4952d3e 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -838,20 +838,42 @@ signed_video_set_private_key_new(signed_video_t *self,
 {
   if (!self || !private_key || private_key_size == 0) return SV_INVALID_PARAMETER;
 
+  sign_or_verify_data_t sign_data = {0};
+  pem_pkey_t pem_public_key = {0};
+  void *plugin_handle = NULL;
+
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Temporally turn the PEM |private_key| into an EVP_PKEY and allocate memory for signatures.
-    SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
-    SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
+    SV_THROW(openssl_private_key_malloc(&sign_data, private_key, private_key_size));
+    SV_THROW(openssl_read_pubkey_from_private_key(&sign_data, &pem_public_key));
+
+    plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
+    SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
 
-    self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
-    SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
+    // Replace the existing key, if there is one. SEIs still waiting for a signature will never get
+    // one.
+    while (self->sei_data_buffer_idx > self->num_of_completed_seis) {
+      free(self->sei_data_buffer[self->num_of_completed_seis].sei);
+      shift_sei_buffer_at_index(self, self->num_of_completed_seis);
+    }
+    sv_signing_plugin_session_teardown(self->plugin_handle);
+    self->plugin_handle = plugin_handle;
+    free(self->sign_data->signature);
+    self->sign_data->signature = sign_data.signature;
+    self->sign_data->signature_size = 0;
+    self->sign_data->max_signature_size = sign_data.max_signature_size;
+    free(self->pem_public_key.key);
+    self->pem_public_key = pem_public_key;
   SV_CATCH()
+  {
+    free(sign_data.signature);
+    free(pem_public_key.key);
+  }
   SV_DONE(status)
 
   // Free the EVP_PKEY since it is no longer needed. It is handled by the signing plugin.
-  openssl_free_key(self->sign_data->key);
-  self->sign_data->key = NULL;
+  openssl_free_key(sign_data.key);
 
   return status;
 }
-- 
2.43.0


From 7df4e0ca850e13c2df3cebeb2ae20d501bcd8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:40 +0000
Subject: [PATCH 42/70] fix: generating a golden SEI should not affect the
 ongoing GOP

---
 lib/src/signed_video_h26x_sign.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 4952d3e..e2fef77 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -333,8 +333,14 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       // Force SEI to be hashable.
       h26x_nalu_t nalu_without_signature_data =
           parse_nalu_info(*payload, fake_payload_size, self->codec, false, true);
-      // Create a document hash.
-      SV_THROW(hash_and_add(self, &nalu_without_signature_data));
+      // Create a document hash. A golden SEI does not belong to a GOP, hence its hash should not be
+      // added to the ongoing one.
+      if (self->is_golden_sei) {
+        SV_THROW(openssl_hash_data(self->crypto_handle, nalu_without_signature_data.hashable_data,
+            nalu_without_signature_data.hashable_data_size, self->gop_info->nalu_hash));
+      } else {
+        SV_THROW(hash_and_add(self, &nalu_without_signature_data));
+      }
       // Note that the "add" part of the hash_and_add() operation above is actually only necessary
       // for SV_AUTHENTICITY_LEVEL_GOP where we need to update the |gop_hash|. For
       // SV_AUTHENTICITY_LEVEL_FRAME adding this hash to the |hash_list| is pointless, since we have
@@ -356,15 +362,18 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       memcpy(sign_data->hash, gop_info->gop_hash, hash_size);
     }
 
-    // Reset the |num_nalus_in_gop_hash| since we start a new GOP.
-    gop_info->num_nalus_in_gop_hash = 0;
-    // Reset the |hash_list| by rewinding the |list_idx| since we start a new GOP.
-    gop_info->list_idx = 0;
-
-    // End of GOP. Reset flag to get new reference.
-    self->gop_info->has_reference_hash = false;
-    // Reset the timestamp to avoid including a duplicate in the next SEI.
-    gop_info->has_timestamp = false;
+    // A golden SEI does not end the ongoing GOP.
+    if (!self->is_golden_sei) {
+      // Reset the |num_nalus_in_gop_hash| since we start a new GOP.
+      gop_info->num_nalus_in_gop_hash = 0;
+      // Reset the |hash_list| by rewinding the |list_idx| since we start a new GOP.
+      gop_info->list_idx = 0;
+
+      // End of GOP. Reset flag to get new reference.
+      self->gop_info->has_reference_hash = false;
+      // Reset the timestamp to avoid including a duplicate in the next SEI.
+      gop_info->has_timestamp = false;
+    }
 
     SV_THROW(sv_signing_plugin_sign(self->plugin_handle, sign_data->hash, sign_data->hash_size));
   SV_CATCH()
-- 
2.43.0


From d344e112bfabed78bfe52dc5b6c71a64b620cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 43/70] fix: generating a golden SEI should not change the
 authenticity level

---
 lib/src/signed_video_h26x_sign.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index e2fef77..3ec3a35 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -796,7 +796,6 @@ signed_video_generate_golden_sei(signed_video_t *self)
   // recurrent data, hence |has_recurrent_data| is set to true.
   self->is_golden_sei = true;
   self->has_recurrent_data = true;
-  self->authenticity_level = SV_AUTHENTICITY_LEVEL_FRAME;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From d3b1965496fe8a4d7b4a061ee333d0cbdc93a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 44/70] fix: verify the signature of a golden SEI also when
 other SEIs are pending

---
 lib/src/signed_video_h26x_auth.c | 59 ++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index e48f39b..baf0e92 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -53,7 +53,7 @@ verify_hashes_without_sei(signed_video_t *self);
 static void
 validate_authenticity(signed_video_t *self);
 static svrc_t
-prepare_for_validation(signed_video_t *self);
+prepare_for_validation(signed_video_t *self, h26x_nalu_list_item_t *sei);
 static bool
 is_recurrent_data_decoded(signed_video_t *self);
 static bool
@@ -768,16 +768,39 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     memcpy(verify_data->hash, sei->hash, verify_data->hash_size);
 
     self->gop_state.has_sei = true;
-    SV_THROW(prepare_for_validation(self));
+    SV_THROW(prepare_for_validation(self, sei));
   SV_CATCH()
   SV_DONE(status)
 
   return status;
 }
 
+/* Sets the |validation_status| of a golden SEI from the verification of its signature. The Public
+ * key of a golden SEI which is not authentic must not be used. */
+static void
+update_golden_sei_status(signed_video_t *self, h26x_nalu_list_item_t *sei)
+{
+  switch (self->gop_info->verified_signature_hash) {
+    case 1:
+      // Signature verified successfully.
+      sei->validation_status = '.';
+      break;
+    case 0:
+      // Signature verification failed.
+      sei->validation_status = 'N';
+      self->has_public_key = false;
+      break;
+    case -1:
+    default:
+      // Error occurred during verification; handle as an error.
+      sei->validation_status = 'E';
+      self->has_public_key = false;
+  }
+}
+
 /* prepare_for_validation()
  *
- * 1) finds the oldest available and pending SEI in the |nalu_list|.
+ * 1) uses the |sei|, which is the oldest available and pending SEI in the |nalu_list| or a golden SEI.
  * 2) decodes the TLV data from it if it has not been done already.
  * 3) points signature->hash to the location of either the document hash or the gop_hash. This is
  *    needed to know which hash the signature will verify.
@@ -785,18 +808,16 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
  * 5) verify the associated hash using the signature.
  */
 static svrc_t
-prepare_for_validation(signed_video_t *self)
+prepare_for_validation(signed_video_t *self, h26x_nalu_list_item_t *sei)
 {
   assert(self);
 
   validation_flags_t *validation_flags = &(self->validation_flags);
-  h26x_nalu_list_t *nalu_list = self->nalu_list;
   sign_or_verify_data_t *verify_data = self->verify_data;
   const size_t hash_size = verify_data->hash_size;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    h26x_nalu_list_item_t *sei = h26x_nalu_list_get_next_sei_item(nalu_list);
     if (sei) {
       if (!sei->has_been_decoded) {
         // Decode the SEI and set signature->hash
@@ -983,25 +1004,10 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
     if (validation_flags->is_first_sei) {
       // Check if the data is golden. If it is, update the validation status accordingly.
       if (nalu->is_golden_sei) {
-        switch (self->gop_info->verified_signature_hash) {
-          case 1:
-            // Signature verified successfully.
-            nalu_list->last_item->validation_status = '.';
-            latest->authenticity = SV_AUTH_RESULT_SIGNATURE_PRESENT;
-            break;
-          case 0:
-            // Signature verification failed.
-            nalu_list->last_item->validation_status = 'N';
-            latest->authenticity = SV_AUTH_RESULT_NOT_OK;
-            self->has_public_key = false;
-            break;
-          case -1:
-          default:
-            // Error occurred during verification; handle as an error.
-            nalu_list->last_item->validation_status = 'E';
-            latest->authenticity = SV_AUTH_RESULT_NOT_OK;
-            self->has_public_key = false;
-        }
+        update_golden_sei_status(self, nalu_list->last_item);
+        latest->authenticity = nalu_list->last_item->validation_status == '.'
+            ? SV_AUTH_RESULT_SIGNATURE_PRESENT
+            : SV_AUTH_RESULT_NOT_OK;
       } else {
         latest->authenticity = SV_AUTH_RESULT_SIGNATURE_PRESENT;
         latest->public_key_has_changed = false;
@@ -1026,7 +1032,7 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
         latest->number_of_received_picture_nalus = 0;
         latest->number_of_pending_picture_nalus = -1;
       }
-      SV_THROW(prepare_for_validation(self));
+      SV_THROW(prepare_for_validation(self, h26x_nalu_list_get_next_sei_item(nalu_list)));
       update_link_hash_for_auth(self);
 
       if (!validation_flags->signing_present) {
@@ -1197,6 +1203,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         // be used.
         svrc_t golden_sei_status = prepare_golden_sei(self, nalu_list->last_item);
         if (golden_sei_status != SV_OK) self->gop_info->verified_signature_hash = -1;
+        update_golden_sei_status(self, nalu_list->last_item);
       }
     }
     SV_THROW(maybe_validate_gop(self, &nalu));
-- 
2.43.0


From 3f170d26074ab18e80a9e9969e1d313fbd020c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 45/70] fix: write the signature with emulation prevention as
 the rest of the SEI

---
 lib/src/signed_video_h26x_sign.c | 7 ++++++-
 lib/src/signed_video_internal.h  | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 3ec3a35..cfedfab 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -99,6 +99,7 @@ add_payload_to_buffer(signed_video_t *self, uint8_t *payload, uint8_t *payload_s
   self->sei_data_buffer[self->sei_data_buffer_idx].write_position = payload_signature_ptr;
   self->sei_data_buffer[self->sei_data_buffer_idx].last_two_bytes = self->last_two_bytes;
   self->sei_data_buffer[self->sei_data_buffer_idx].completed_sei_size = 0;
+  self->sei_data_buffer[self->sei_data_buffer_idx].sei_epb = self->sei_epb;
   self->sei_data_buffer_idx += 1;
 }
 
@@ -135,9 +136,13 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
     goto done;
   }
 
-  // Add the signature to the SEI payload.
+  // Add the signature to the SEI payload. Apply emulation prevention as for the rest of the SEI, even
+  // if the setting has changed since then.
+  const bool sei_epb = self->sei_epb;
+  self->sei_epb = sei_data->sei_epb;
   sei_data->completed_sei_size =
       get_sign_and_complete_sei_nalu(self, &payload, payload_signature_ptr);
+  self->sei_epb = sei_epb;
   if (!sei_data->completed_sei_size) {
     status = SV_UNKNOWN_FAILURE;
     goto done;
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index b7ffbf0..32dae68 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -110,6 +110,7 @@ struct _sei_data_t {
   uint8_t *write_position;
   uint16_t last_two_bytes;
   size_t completed_sei_size;  // The final SEI size, set when it is completed
+  bool sei_epb;  // Flag that tells if the SEI is written with emulation prevention
 };
 
 struct _signed_video_t {
-- 
2.43.0


From 18fab333735e76a9dc04e61d3f4b0101441e8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:47 +0000
Subject: [PATCH 46/70] fix: allocate enough memory for emulation prevention
 bytes in SEIs

---
 lib/src/signed_video_h26x_sign.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index cfedfab..39710de 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -256,8 +256,8 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
     sei_buffer_size += payload_size;
     sei_buffer_size += 1;  // Stop bit in a separate byte
 
-    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 3 bytes.
-    sei_buffer_size = sei_buffer_size * 4 / 3;
+    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 2 bytes.
+    sei_buffer_size = sei_buffer_size * 3 / 2;
 
     // Allocate memory for payload + SEI header to return
     *payload = (uint8_t *)malloc(sei_buffer_size);
-- 
2.43.0


From 26900d792f8ba98508816ff79f8b7f995dfed62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:17 +0000
Subject: [PATCH 47/70] fix: a public key that cannot be read is not a received
 public key

---
 lib/src/signed_video_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 86c8db2..35c2853 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -738,11 +738,11 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-- 
2.43.0


From b6b010b7ef80d3b896d423441f97183c74985fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:23 +0000
Subject: [PATCH 48/70] fix: only a SEI can select legacy validation

---
 lib/src/signed_video_h26x_auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index baf0e92..3f83e31 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1192,7 +1192,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
       }
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
-      if (!(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
+      if (nalu.is_gop_sei && !(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
         self->legacy_sv = legacy_sv_create(self);
         SV_THROW_IF(!self->legacy_sv, SV_MEMORY);
         accumulated_validation_init(self->accumulated_validation);
-- 
2.43.0


From 69e65e6fdfb2b11a889b0842161b2e97ad6be6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:02 +0000
Subject: [PATCH 49/70] fix: keep the status of a golden SEI if the first
 validation cannot be performed

---
 lib/src/signed_video_h26x_nalu_list.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 3c8b8ab..752770d 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -430,7 +430,9 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
       h26x_nalu_list_remove_and_free_item(list, item_to_remove);
       continue;
     }
-    if (item->has_been_decoded && item->validation_status != 'U') {
+    // The status of a golden SEI has been set from its own signature and does not change.
+    const bool is_golden_sei = item->nalu && item->nalu->is_golden_sei;
+    if (item->has_been_decoded && item->validation_status != 'U' && !is_golden_sei) {
       // Usually, these items were added because we verified hashes with a SEI not associated with
       // this recording. This can happen if we export to file or fast forward in a recording. The
       // SEI used to generate these missing items is set to 'U'.
@@ -439,7 +441,7 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
     }
     // TODO: Resetting the item validation in the current GOP may affect the validation of the next
     // GOP. This needs to be fixed.
-    if (item->validation_status == 'N') {
+    if (item->validation_status == 'N' && !is_golden_sei) {
       // Reset validation status to 'P' for the next validation.
       item->validation_status = 'P';
     }
-- 
2.43.0


From 0177f3583a24b1801151700ecbb5784aec4f4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 50/70] fix: comparing versions should not overflow

---
 lib/src/signed_video_h26x_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 9a06058..7c27f2f 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1329,7 +1329,7 @@ signed_video_compare_versions(const char *version1, const char *version2)
   int result = 0;
   int j = 0;
   while (result == 0 && j < SV_VERSION_BYTES) {
-    result = arr1[j] - arr2[j];
+    result = (arr1[j] > arr2[j]) - (arr1[j] < arr2[j]);
     j++;
   }
   if (result == 0) status = 0;  // |version1| equals to |version2|
-- 
2.43.0


From d67c5c135a62099c9c946093747a9f37a051fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 51/70] fix: a video signed with a newer version was never
 reported as a version mismatch

---
 lib/src/signed_video_authenticity.c | 14 +++++++++++++-
 lib/src/signed_video_h26x_common.c  |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 227a2ae..b19c545 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -213,11 +213,23 @@ authenticity_report_init(signed_video_authenticity_t *authenticity_report)
   assert(!authenticity_report->this_version);
   authenticity_report->version_on_signing_side = calloc(1, SV_VERSION_MAX_STRLEN);
   authenticity_report->this_version = calloc(1, SV_VERSION_MAX_STRLEN);
+  if (authenticity_report->this_version) {
+    strcpy(authenticity_report->this_version, SIGNED_VIDEO_VERSION);
+  }
 
   latest_validation_init(&authenticity_report->latest_validation);
   accumulated_validation_init(&authenticity_report->accumulated_validation);
 }
 
+/* Ranks authenticity results from bad to good. With SV_AUTH_RESULT_VERSION_MISMATCH a correct
+ * validation cannot be guaranteed, hence it is worse than all results but SV_AUTH_RESULT_NOT_OK. */
+static int
+get_rank(SignedVideoAuthenticityResult authenticity)
+{
+  if (authenticity == SV_AUTH_RESULT_VERSION_MISMATCH) return 2 * SV_AUTH_RESULT_NOT_OK + 1;
+  return 2 * authenticity;
+}
+
 void
 update_accumulated_validation(const signed_video_latest_validation_t *latest,
     signed_video_accumulated_validation_t *accumulated)
@@ -227,7 +239,7 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // |latest|.
     accumulated->authenticity = latest->authenticity;
   } else if (latest->authenticity > SV_AUTH_RESULT_SIGNATURE_PRESENT &&
-      latest->authenticity < accumulated->authenticity) {
+      get_rank(latest->authenticity) < get_rank(accumulated->authenticity)) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
     // with this worse result, since that is what should rule the total validation.
     accumulated->authenticity = latest->authenticity;
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 7c27f2f..1a06ab9 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1259,6 +1259,10 @@ signed_video_reset(signed_video_t *self)
     validation_flags_init(&(self->validation_flags));
     latest_validation_init(self->latest_validation);
     accumulated_validation_init(self->accumulated_validation);
+    // The next stream may have been signed with another version.
+    if (self->authenticity) {
+      memset(self->authenticity->version_on_signing_side, 0, SV_VERSION_MAX_STRLEN);
+    }
     // Empty the |nalu_list|.
     h26x_nalu_list_free_items(self->nalu_list);
 
-- 
2.43.0


From 841e393ca2850109ecccd26f7d9d3877e50c54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:22 +0000
Subject: [PATCH 52/70] fix: do not read outside an empty path when generating
 a private key

---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 79ea14b..90becbe 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -692,7 +692,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From 4ca97804bc07320b3e757258be49496d7a1f9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:28 +0000
Subject: [PATCH 53/70] fix: report failure if the private key could not be
 written to file

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90becbe..ffbbeb0 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -592,6 +592,8 @@ write_private_key_to_file(EVP_PKEY *pkey, const char *path_to_key)
     f_private = fopen(path_to_key, "wb");
     SV_THROW_IF(!f_private, SV_EXTERNAL_ERROR);
     SV_THROW_IF(!PEM_write_PrivateKey(f_private, pkey, NULL, 0, 0, NULL, NULL), SV_EXTERNAL_ERROR);
+    // The key has not been written until the file is flushed.
+    SV_THROW_IF(fflush(f_private) != 0, SV_EXTERNAL_ERROR);
   SV_CATCH()
   {
     if (f_private) unlink(path_to_key);
-- 
2.43.0


From 8474deb2e32ac2c44c75c29b0c39532594f0e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:25 +0000
Subject: [PATCH 54/70] fix: a legacy SEI that cannot be decoded or verified
 blocked the validation of the rest of the stream

---
 lib/src/legacy/legacy_h26x_auth.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 757de5f..f27864f 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -708,7 +708,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       const uint8_t *tlv_data = sei->nalu->tlv_data;
       size_t tlv_size = sei->nalu->tlv_size;
 
-      SV_THROW(legacy_decode_sei_data(self, tlv_data, tlv_size));
+      status = legacy_decode_sei_data(self, tlv_data, tlv_size);
+      // A SEI that cannot be decoded should not block the validation of the rest of the stream.
+      if (status != SV_OK) sei->validation_status = 'E';
+      SV_THROW(status);
       sei->has_been_decoded = true;
       if (self->gop_info->signature_hash_type == LEGACY_DOCUMENT_HASH) {
         memcpy(verify_data->hash, sei->hash, hash_size);
@@ -763,7 +766,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       }
       printf("\n");
 #endif
-      SV_THROW(openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash));
+      status = openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash);
+      // Nor should a SEI for which the signature cannot be verified.
+      if (status != SV_OK && sei) sei->validation_status = 'E';
+      SV_THROW(status);
     }
 
   SV_CATCH()
-- 
2.43.0


From 9469c66eebf124f2a6b412aab9dc9b2941b9850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 55/70] fix: count NAL Units received before legacy validation
 was selected

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3f83e31..dad730a 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1195,7 +1195,11 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
       if (nalu.is_gop_sei && !(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
         self->legacy_sv = legacy_sv_create(self);
         SV_THROW_IF(!self->legacy_sv, SV_MEMORY);
+        // The NAL Units in the list are added, and hence counted, again.
+        unsigned int number_of_received_nalus =
+            self->accumulated_validation->number_of_received_nalus - nalu_list->num_items;
         accumulated_validation_init(self->accumulated_validation);
+        self->accumulated_validation->number_of_received_nalus = number_of_received_nalus;
       }
       SV_THROW(reregister_nalus(self));
       if (nalu.is_golden_sei) {
-- 
2.43.0


From 66908b2bf3371e236bbefa17a4d822be364d1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:03 +0000
Subject: [PATCH 56/70] fix: check that memory for signing and verifying was
 allocated when creating a session

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 1a06ab9..29258b7 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1202,6 +1202,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1227,6 +1228,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
-- 
2.43.0


From 83d0d12d619ecfc69711fc1c44012847e8da02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:09 +0000
Subject: [PATCH 57/70] fix: do not use an authenticity report that could not
 be allocated

---
 lib/src/signed_video_authenticity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index b19c545..a40c9c9 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -366,10 +366,11 @@ create_local_authenticity_report_if_needed(signed_video_t *self)
   // Already exists, return SV_OK.
   if (self->authenticity) return SV_OK;
 
+  signed_video_authenticity_t *auth_report = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Create a new one.
-    signed_video_authenticity_t *auth_report = signed_video_authenticity_report_create();
+    auth_report = signed_video_authenticity_report_create();
     SV_THROW_IF(auth_report == NULL, SV_MEMORY);
     // Transfer |product_info| from |self|.
     SV_THROW(transfer_product_info(&auth_report->product_info, self->product_info));
@@ -393,6 +394,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    auth = NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From 3d90861eae038b6db018acc04be6c8d655e2c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:14 +0000
Subject: [PATCH 58/70] fix: handle NAL Units that could not be added to the
 list or copied

---
 lib/src/legacy/legacy_h26x_auth.c     | 12 ++++++++----
 lib/src/signed_video_h26x_auth.c      | 14 +++++++++-----
 lib/src/signed_video_h26x_nalu_list.c |  3 ++-
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index f27864f..437e7e0 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1027,11 +1027,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_in_list = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    is_in_list = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1040,10 +1042,12 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_DONE(status)
 
   // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (is_in_list) {
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index dad730a..1853baf 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1166,6 +1166,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_in_list = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1174,6 +1175,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    is_in_list = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1215,11 +1217,13 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_DONE(status)
 
   // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (is_in_list) {
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 752770d..456b34a 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -355,7 +355,8 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     copied_nalu->hashable_data = hashable_data;
   SV_CATCH()
   {
-    free(nalu_data_wo_epb);  // At this point, nalu_data_wo_epb is actually NULL.
+    free(nalu_data_wo_epb);
+    free(nalu_data);
     free(copied_nalu);
     copied_nalu = NULL;
   }
-- 
2.43.0


From d699e25ed9f479d4d31e4c8af6e24dda66995bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:20 +0000
Subject: [PATCH 59/70] fix: do not access NAL Units that could not be copied

---
 lib/src/signed_video_h26x_auth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 1853baf..f59ec25 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -577,7 +577,7 @@ verify_hashes_without_sei(signed_video_t *self)
     num_marked_items++;
 
     item = item->next;
-    if (item) {
+    if (item && item->nalu) {
       found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
     }
   }
@@ -1117,6 +1117,11 @@ reregister_nalus(signed_video_t *self)
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   svrc_t status = SV_UNKNOWN_FAILURE;
   while (item) {
+    // Skip NAL Units that could not be stored. That has already been reported.
+    if (!item->nalu) {
+      item = item->next;
+      continue;
+    }
     if (self->legacy_sv) {
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
-- 
2.43.0


From 067db94388c554c892921009c77dc26c1af1b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:25 +0000
Subject: [PATCH 60/70] fix: keep product information if it cannot be
 reallocated

---
 lib/src/signed_video_h26x_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 29258b7..9bb6aed 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -308,8 +308,9 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
   // The allocated size must be exact or reset on empty string, i.e., ""
   if (*member_size_ptr != new_data_size) {
     DEBUG_LOG("Member size diff, re-allocating");
-    *member_ptr = realloc(*member_ptr, new_data_size);
-    if (*member_ptr == NULL) return SV_MEMORY;
+    void *new_member_ptr = realloc(*member_ptr, new_data_size);
+    if (!new_member_ptr) return SV_MEMORY;
+    *member_ptr = new_member_ptr;
   }
   memcpy(*member_ptr, new_data_ptr, new_data_size);
   *member_size_ptr = new_data_size;
-- 
2.43.0


From 268bb36f2f72d55cd4e87b4821987e938bf2f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:31 +0000
Subject: [PATCH 61/70] fix: report if there is no memory for the NAL Unit to
 prepend

---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 39710de..06be812 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -751,6 +751,10 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      nalu_to_prepend->nalu_data_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From f272159da6d501b4acfe4bf34fe8d59e39ed2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:37 +0000
Subject: [PATCH 62/70] fix: forget the size of a Public key that could not be
 allocated

---
 lib/src/legacy/legacy_tlv.c | 1 +
 lib/src/signed_video_tlv.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index cde20e3..2c0551b 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -367,6 +367,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 35c2853..143c6ef 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -728,6 +728,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
-- 
2.43.0


From 9144e2e4e03897f16a6f4ef454cdd4df0c527f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:43 +0000
Subject: [PATCH 63/70] fix: check that memory for the data of an attestation
 was allocated

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 3fc868f..47582ad 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -410,6 +410,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 38edf0f7c2348764708e12e0a79ec4fbad8adeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 64/70] fix: return an error if the authenticity report could
 not be created

---
 lib/src/legacy/legacy_h26x_auth.c | 1 +
 lib/src/signed_video_h26x_auth.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 437e7e0..e287449 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1075,6 +1075,7 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
+      SV_THROW_IF(authenticity && !*authenticity, SV_MEMORY);
     }
   SV_CATCH()
   SV_DONE(status)
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index f59ec25..cf0b3ac 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1257,6 +1257,7 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
+      SV_THROW_IF(authenticity && !*authenticity, SV_MEMORY);
     }
     SV_THROW(legacy_sv_add_nalu_and_authenticate(
         self->legacy_sv, nalu_data, nalu_data_size, authenticity));
-- 
2.43.0


From b55419ee718a28651276a8ad21fdc006a238e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 65/70] fix: return an error if there is no memory for the path
 of a private key

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index ffbbeb0..8f55b32 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -711,6 +711,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -737,6 +738,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From 32246fc172309cbe1712ed4042a550afc3125b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:11 +0000
Subject: [PATCH 66/70] fix: undo change of a function that is not used

---
 lib/src/signed_video_h26x_common.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 9bb6aed..29258b7 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -308,9 +308,8 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
   // The allocated size must be exact or reset on empty string, i.e., ""
   if (*member_size_ptr != new_data_size) {
     DEBUG_LOG("Member size diff, re-allocating");
-    void *new_member_ptr = realloc(*member_ptr, new_data_size);
-    if (!new_member_ptr) return SV_MEMORY;
-    *member_ptr = new_member_ptr;
+    *member_ptr = realloc(*member_ptr, new_data_size);
+    if (*member_ptr == NULL) return SV_MEMORY;
   }
   memcpy(*member_ptr, new_data_ptr, new_data_size);
   *member_size_ptr = new_data_size;
-- 
2.43.0


From 2c65f4a8f93670b592169689f4f13d1dbda1aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 67/70] fix: do not access a NAL Unit that could not be copied
 (legacy)

---
 lib/src/legacy/legacy_h26x_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index e287449..6bdd857 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -758,7 +758,8 @@ legacy_prepare_for_validation(legacy_sv_t *self)
 #endif
 
     // If we have received a SEI there is a signature to use for verification.
-    if (self->gop_state.has_sei || self->nalu_list->first_item->nalu->is_golden_sei) {
+    const legacy_h26x_nalu_t *first_nalu = self->nalu_list->first_item->nalu;
+    if (self->gop_state.has_sei || (first_nalu && first_nalu->is_golden_sei)) {
 #ifdef SIGNED_VIDEO_DEBUG
       printf("Hash to verify against signature:\n");
       for (size_t i = 0; i < verify_data->hash_size; i++) {
-- 
2.43.0


From 0ba00db5a5e6f4c53f363e47494986fd8ddc241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:42 +0000
Subject: [PATCH 68/70] fix: count the received picture NAL Units right when
 several GOPs are validated at once

A GOP for which the number of received NAL Units is unknown (-1) was added to the sum.
---
 lib/src/signed_video_h26x_auth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index cf0b3ac..2d7fc1c 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -724,7 +724,13 @@ validate_authenticity(signed_video_t *self)
     // validation.
     latest->authenticity = valid;
   }
-  latest->number_of_received_picture_nalus += num_received_nalus;
+  if (num_received_nalus >= 0) {
+    // Do not let an earlier unknown number (a negative value) affect the sum.
+    if (latest->number_of_received_picture_nalus < 0) latest->number_of_received_picture_nalus = 0;
+    latest->number_of_received_picture_nalus += num_received_nalus;
+  } else if (latest->number_of_received_picture_nalus == 0) {
+    latest->number_of_received_picture_nalus = -1;
+  }
   if (self->gop_state.has_lost_sei) {
     latest->number_of_expected_picture_nalus = -1;
   } else if (latest->number_of_expected_picture_nalus != -1) {
-- 
2.43.0


From c0eb8e73773947f2700f2468928d74d7a5c7eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:13 +0000
Subject: [PATCH 69/70] fix: do not set the attestation when the call is
 refused since the certificate chain exists

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 47582ad..3ff9f67 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -793,10 +793,11 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)sv->vendor_handle;
   bool allocated_attestation = false;
   bool allocated_certificate_chain = false;
+  // If any of them already exists, return error without setting the other one.
+  if (attestation && self->attestation) return SV_NOT_SUPPORTED;
+  if (certificate_chain && self->certificate_chain) return SV_NOT_SUPPORTED;
   // The user wants to set the |attestation|.
   if (attestation) {
-    // If |attestation| already exists, return error.
-    if (self->attestation) return SV_NOT_SUPPORTED;
     // Allocate memory and copy to |self|.
     self->attestation = malloc(attestation_size);
     allocated_attestation = true;
@@ -807,8 +808,6 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
 
   // The user wants to set the |certificate_chain|.
   if (certificate_chain) {
-    // If |certificate_chain| already exists, return error.
-    if (self->certificate_chain) return SV_NOT_SUPPORTED;
     // Check if there is anything to copy.
     size_t certificate_chain_size = strlen(certificate_chain);
     if (certificate_chain_size == 0) goto catch_error;
-- 
2.43.0


From 5c8d14f61123e3188d2431b92f5385d96b14ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:59 +0000
Subject: [PATCH 70/70] fix: do not use the reference hash from before a reset

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 29258b7..9d97e5c 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -257,6 +257,8 @@ gop_info_reset(gop_info_t *gop_info)
   gop_info->verified_signature_hash = -1;
   // If a reset is forced, the stored hashes in |hash_list| have no meaning anymore.
   gop_info->list_idx = 0;
+  // Nor has the reference hash, which should not be used for any NAL Unit added after the reset.
+  memset(gop_info->hash_buddies, 0, sizeof(gop_info->hash_buddies));
   gop_info->has_reference_hash = false;
   gop_info->global_gop_counter_is_synced = false;
 }
-- 
2.43.0

