From 760e9ad944a4997a457c02fdf3907667b48e3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 01/17] fix: DeltaTransformer::transform on an empty array ran
 from index 2^64-1

---
 src/hzip_core/preprocessor/delta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..fa95cc5 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,7 +6,7 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
-    for (uint64_t i = length - 1; i > 0; i--) {
+    for (uint64_t i = length; i-- > 1;) {
         data[i] -= data[i - 1];
     }
 }
-- 
2.43.0


From abf5087dd7e75e3dd4065427721e375d67cca33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 02/17] fix: DeltaTransformer overflowed signed int on large
 jumps between neighbours

---
 src/hzip_core/preprocessor/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index fa95cc5..25321cb 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -7,12 +7,12 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 
 void hztrans::DeltaTransformer::transform() {
     for (uint64_t i = length; i-- > 1;) {
-        data[i] -= data[i - 1];
+        data[i] = (int) ((uint32_t) data[i] - (uint32_t) data[i - 1]);
     }
 }
 
 void hztrans::DeltaTransformer::invert() {
     for (uint64_t i = 1; i < length; i++) {
-        data[i] += data[i - 1];
+        data[i] = (int) ((uint32_t) data[i] + (uint32_t) data[i - 1]);
     }
 }
\ No newline at end of file
-- 
2.43.0


From d2b16a32f56dc54c93fb6160cea9dbd510fbc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 03/17] fix: ZigZag iterator: pre-increment returned the old
 position and post-increment the new one

---
 src/hzip_core/preprocessor/zigzag.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..df11d53 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -84,7 +84,7 @@ namespace hztrans {
                 this->height = height;
             }
 
-            self_type operator++() {
+            self_type operator++(int) {
                 self_type i = *this;
                 _val.next(width, height);
                 this->x = _val.x;
@@ -92,7 +92,7 @@ namespace hztrans {
                 return i;
             }
 
-            self_type operator++(int) {
+            self_type operator++() {
                 _val.next(width, height);
                 this->x = _val.x;
                 this->y = _val.y;
-- 
2.43.0


From 76eb556359248c969cc641eb3dcbd476da213050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 04/17] fix: ZigZag over a grid with one zero dimension
 iterated cells outside the grid

---
 src/hzip_core/preprocessor/zigzag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index df11d53..a0fe122 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -112,6 +112,10 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            if (width == 0 || height == 0) {
+                return end();
+            }
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From d4d44487f2e826a1626bba331b710b69414a4233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 05/17] fix: hz_validate_path overflowed its int index on paths
 of 2^31 bytes and more

---
 src/hzip_core/utils/validation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/validation.h b/src/hzip_core/utils/validation.h
index b2c8ce5..5364501 100644
--- a/src/hzip_core/utils/validation.h
+++ b/src/hzip_core/utils/validation.h
@@ -19,7 +19,7 @@ inline void hz_validate_path(const std::string &path) {
         }
     }
 
-    for (int i = 0; i < path.length() - 1; i++) {
+    for (size_t i = 0; i < path.length() - 1; i++) {
         if (path[i] == '/' && path[i + 1] == '/') {
             throw UtilErrors::ValidationError("Path must not contain repeated forward slashes");
         }
-- 
2.43.0


From c5fb3a5b16bfae8fac7316bd1bfd31651528a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 06/17] fix: socket send/recv failures (-1) were compared as
 unsigned and went unnoticed

---
 src/hzip_network/api/handlers/socket_class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..a92f9f9 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (send(_sock, buf, n, 0) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +28,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (recv(_sock, buf, n, MSG_WAITALL) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-- 
2.43.0


From f413c71b746e6178fe196ce7a067eec19915ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 07/17] fix: MTF inverse counted a 64-bit alphabet with an int

---
 src/hzip_core/preprocessor/move_to_front.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/preprocessor/move_to_front.h b/src/hzip_core/preprocessor/move_to_front.h
index 6d03b33..3b7ed96 100755
--- a/src/hzip_core/preprocessor/move_to_front.h
+++ b/src/hzip_core/preprocessor/move_to_front.h
@@ -39,7 +39,7 @@ namespace hztrans {
 
         void invert() {
             lru_cache.clear();
-            for (int i = 0; i < alphabet_size; i++) {
+            for (uint64_t i = 0; i < alphabet_size; i++) {
                 lru_cache.push_back(i);
             }
             for (uint64_t i = 0; i < data.size(); i++) {
-- 
2.43.0


From ce42b91e33d156e73b95dbb2a69371ac63d29090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 08/17] fix: HZ_Stack kept a full index after its last element
 was popped (wrong size, element lost to a skipped buffer)

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..a3bb4c1 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = buffer == nullptr ? 0 : bufsize;
 
             rfree(tmp);
         }
-- 
2.43.0


From c5ca8a4c8a37c82f45f506252150321dce7b5e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 09/17] fix: hz_unary_write never ended for values above 1

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From a9990a8ad7c949f4211d73d41bcb471ae7d3c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 10/17] fix: hz_u8_to_u32ptr dropped up to three trailing bytes

---
 src/hzip_core/utils/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 8902327..1f2dabb 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -137,6 +137,11 @@ HZ_INLINE rainman::ptr<uint32_t> hz_u8_to_u32ptr(const rainman::ptr<uint8_t> &ar
         }
     }
 
+    if (n & 3) {
+        // pad the last word
+        arr32[j] = tmp << ((4 - (n & 3)) << 3);
+    }
+
     return arr32;
 }
 
-- 
2.43.0


From 4906baa261584b7105a64c9d5e568239d9aa3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 11/17] fix: rANS stream codec counted 64-bit sizes with an int

---
 src/hzip_core/kernel/hzrans/hzrans64_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp b/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
index 51dc251..15a6357 100755
--- a/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
+++ b/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
@@ -35,7 +35,7 @@ hzrans64_encoder_output hzrans64_encoder::encode() {
 
     auto _data = rainman::ptr<uint32_t>(data->size());
 
-    for (int i = 0; !data->empty(); i++) {
+    for (uint64_t i = 0; !data->empty(); i++) {
         _data[i] = data->top();
         data->pop();
     }
@@ -74,7 +74,7 @@ hzrans64_decoder_output hzrans64_decoder::decode(rainman::ptr<uint32_t> &raw) {
     auto sym = rainman::ptr<uint64_t>(size);
     auto dummy_stack = rainman::ptr<HZ_Stack<uint32_t>>();
 
-    for (int i = 0; i < size; i++) {
+    for (uint64_t i = 0; i < size; i++) {
         if (cross_decoder != nullptr) {
             cross_decoder(state, dummy_stack);
         }
-- 
2.43.0


From 953f3f28a67c556a5247cb1d5629eabb168b79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 12/17] fix: a reused rANS encoder reported the words of
 earlier streams as well

---
 src/hzip_core/kernel/hzrans/hzrans64_codec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp b/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
index 15a6357..d43633d 100755
--- a/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
+++ b/src/hzip_core/kernel/hzrans/hzrans64_codec.cpp
@@ -22,6 +22,9 @@ void hzrans64_encoder::set_cross_encoder(hz_cross_codec _cross_encoder) {
 hzrans64_encoder_output hzrans64_encoder::encode() {
     auto data = rainman::ptr<HZ_Stack<uint32_t>>();
 
+    state->x = state->lower_bound;
+    state->count = 0;
+
     while (index--) {
         if (cross_encoder != nullptr) {
             cross_encoder(state, data);
-- 
2.43.0


From f39ad59a46f22a066db9795927c0223edf7bc34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:32 +0000
Subject: [PATCH 13/17] fix: colour transformer left its executor uninitialised
 without OpenCL

---
 src/hzip_core/preprocessor/color.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index b36b336..bd26f1b 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -8,6 +8,7 @@ hztrans::LinearU16XColorTransformer::LinearU16XColorTransformer(
         uint8_t bit_depth
 ) : _width(width), _height(height), _bit_depth(bit_depth) {
     _mask = (1ull << _bit_depth) - 1;
+    _executor = hzruntime::CPU;
     if (hzruntime::Config::opencl_support_enabled) {
         if (_width * _height > 1000000) {
             _executor = hzruntime::OPENCL;
-- 
2.43.0


From 28c1205a8ae52e4759d6e2dccc756b1b5154ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 14/17] fix: rebuild model state dependencies when an archive
 is loaded

---
 src/hzip_storage/archive/archive.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..4700422 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -148,7 +148,10 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
     }
@@ -163,8 +166,15 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
 
     uint64_t blob_id = read(0x40);
 
+    // Skip the blob header and blob-o-size
+    uint64_t header_length = read(0x40);
+    seek((header_length << 3) + 0x40);
+
+    // add dependency
+    hza_increment_dep(read(0x40));
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - (header_length << 3) - 0x100);
 
     metadata.blob_map[blob_id] = sof;
 }
-- 
2.43.0


From be8182169e631c2ef0d92fbe003c069292a54967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:02 +0000
Subject: [PATCH 15/17] fix: release the archive table lock when opening,
 loading or closing an archive fails

---
 src/hzip_network/api/providers/archive_provider.cpp | 8 ++------
 src/hzip_network/api/providers/archive_provider.h   | 1 +
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..de2bed7 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,7 +1,7 @@
 #include "archive_provider.h"
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
     rainman::ptr<HZ_Archive> archive;
     if (arch_map.contains(path)) {
         archive = arch_map[path];
@@ -12,17 +12,13 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
         arch_map[path] = archive;
     }
 
-    mutex.unlock();
-
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::lock_guard<std::mutex> lock(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
-
-    mutex.unlock();
 }
diff --git a/src/hzip_network/api/providers/archive_provider.h b/src/hzip_network/api/providers/archive_provider.h
index c625797..be63dec 100644
--- a/src/hzip_network/api/providers/archive_provider.h
+++ b/src/hzip_network/api/providers/archive_provider.h
@@ -1,6 +1,7 @@
 #ifndef HYBRIDZIP_ARCHIVE_PROVIDER_H
 #define HYBRIDZIP_ARCHIVE_PROVIDER_H
 
+#include <mutex>
 #include <unordered_map>
 #include <string>
 #include <hzip_storage/archive/archive.h>
-- 
2.43.0


From 21a9b1e78ff6babb9f91d77d6a1a706bb9fe2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:02 +0000
Subject: [PATCH 16/17] fix: keep the existing model state when training fails

---
 src/hzip_codec/processor/processor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..2182e04 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -119,9 +119,9 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
         throw ProcessorErrors::InvalidOperationError("Archive not found");
     }
 
-    if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+    bool mstate_exists = job->archive.inner()->check_mstate_exists(job->mstate_addr.inner());
+    if (mstate_exists) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -131,6 +131,11 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        // Replace the existing mstate only after training has succeeded.
+        if (mstate_exists) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From 321c1d16ffffe991df0680f2e9e4ca50129ebd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:05 +0000
Subject: [PATCH 17/17] fix: close an accepted connection whose time limit
 cannot be set

---
 src/hzip_network/api/api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..0a2c92d 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -136,11 +136,13 @@ Api *Api::process(uint64_t _n_threads) {
         if (time_out.tv_sec > 0) {
             if (setsockopt(client_sock, SOL_SOCKET, SO_RCVTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
 
             if (setsockopt(client_sock, SOL_SOCKET, SO_SNDTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
         }
-- 
2.43.0

