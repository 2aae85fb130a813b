From 700141c8db86d4aeb1b1280e2560b70621879dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 01/32] fix: region/chunk overlap was computed in 32 bit, wrong
 for spans of 2^31 elements and more

---
 include/z5/util/blocking.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..b0c088c 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,7 +155,7 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
+            std::ptrdiff_t offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
-- 
2.43.0


From ebc9298f11ae19530c66fe74eb51f1c1d5141e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 02/32] fix: out-of-range requests were accepted when offset
 plus shape wraps around

---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..671144a 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // compare without adding offset and shape, their sum may exceed the range of size_t
+                if(offset[d] > shape_[d] || shape[d] > shape_[d] - offset[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From d18079bf075cdaca03f18c2eaad4080e8d967669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 03/32] fix: out-of-bounds read for chunk indices of the wrong
 dimension

---
 include/z5/handle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..803c1f6 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,10 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            // the indices come from the caller, don't read past their end
+            if(chunkIndices_.size() != defaultShape_.size()) {
+                throw std::runtime_error("Chunk index has wrong dimension");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
-- 
2.43.0


From 4ea748fe0d999bfaaaba87cd9e34fea788557a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 04/32] fix: reading a missing or out-of-grid chunk of a
 sharded dataset returned uninitialized data

---
 include/z5/generic/sharded_dataset.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..092acff 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -66,8 +66,16 @@ namespace generic {
         }
 
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
+            // make sure that we have a valid chunk
+            ChunkHandleType innerChunk(handle_, chunkIndices, defaultChunkShape(), shape());
+            checkChunk(innerChunk);
+
             std::vector<char> buffer;
             readRawChunk(chunkIndices, buffer);
+            // a missing chunk yields an empty buffer
+            if(buffer.empty()) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
-- 
2.43.0


From c9fb4bf9ec2c97d39f1631e1093c4059640f6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:39 +0000
Subject: [PATCH 05/32] fix: ThreadPool::waitFinished could hang when called
 from several threads

---
 include/z5/util/threadpool.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..7ae8626 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -245,7 +245,8 @@ inline void ThreadPool::init(const ParallelOptions & options)
                         ++processed;
                         --busy;
                         lock.unlock();
-                        finish_condition.notify_one();
+                        // there may be several threads in waitFinished
+                        finish_condition.notify_all();
                     }
                 }
             }
-- 
2.43.0


From 7736b5f60ee5e7ca244b97c91deeb7219a7a96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 06/32] fix: parallel_foreach over forward iterators did not
 compile

---
 include/z5/util/threadpool.hxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 7ae8626..9af8e30 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -390,10 +390,7 @@ inline void parallel_foreach_impl(
     F && f,
     std::forward_iterator_tag
 ){
-    if (nItems == 0)
-        nItems = std::distance(iter, end);
-
-    std::ptrdiff_t workload = nItems;
+    std::ptrdiff_t workload = nItems == 0 ? std::distance(iter, end) : nItems;
     const float workPerThread = float(workload)/pool.nThreads();
     const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)(int(workPerThread/3.0f+0.5f), 1);
 
-- 
2.43.0


From 0fe224c6a8adf3ccfc979d6eebf81c4883950ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:08 +0000
Subject: [PATCH 07/32] fix: truncated raw chunks were read as stale buffer
 contents

---
 include/z5/util/format_data.hxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..548759c 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -143,10 +143,11 @@ namespace util {
                            const std::size_t data_size, const COMPRESSOR & compressor) {
         // we don't need to decompress for raw compression
         if(compressor->type() == 0) {
-            // bound the copy by the output capacity: a corrupt chunk (or corrupt shard
-            // slot length) must not overflow the caller's buffer
-            if(nBytes > data_size * sizeof(T)) {
-                throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
+            // the payload must have exactly the expected size: a corrupt chunk (or corrupt
+            // shard slot length) must not overflow the caller's buffer, and a truncated one
+            // must not leave stale values in the part that is not covered
+            if(nBytes != data_size * sizeof(T)) {
+                throw std::runtime_error("z5: size of raw chunk does not match the expected chunk size");
             }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
-- 
2.43.0


From b35134f53ac1a4bf36c5b73c84677a3e2679474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:34 +0000
Subject: [PATCH 08/32] fix: compressed chunks decoding to the wrong size were
 accepted

---
 include/z5/compression/blosc_compressor.hxx | 13 ++++++++++++-
 include/z5/compression/bzip2_compressor.hxx |  4 ++++
 include/z5/compression/lz4_compressor.hxx   |  3 +++
 include/z5/compression/xz_compressor.hxx    |  4 ++++
 include/z5/compression/zlib_compressor.hxx  | 13 ++++++++++---
 include/z5/compression/zstd_compressor.hxx  |  3 +++
 6 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..46ca8d2 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,7 +47,18 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+
+            // blosc reads the compressed length from its own header, so we need to make sure
+            // that it agrees with the number of bytes we actually have
+            std::size_t sizeExpected = 0;
+            if(nBytesIn < BLOSC_MIN_HEADER_LENGTH ||
+               blosc_cbuffer_validate(dataIn, nBytesIn, &sizeExpected) < 0) {
+                throw std::runtime_error("z5: invalid or truncated blosc chunk");
+            }
+            if(sizeExpected != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: blosc chunk has the wrong decompressed size");
+            }
 
             // decompress the data (blosc reads the compressed length from its own header)
             int sizeDecompressed = blosc_decompress_ctx(
diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..3f5e93e 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -96,6 +96,10 @@ namespace compression {
     		    throw std::runtime_error(err);
             }
 
+            if(bzs.avail_out != 0) {
+                throw std::runtime_error("z5: bzip2 chunk has the wrong decompressed size");
+            }
+
 		}
 
         inline types::Compressor type() const {
diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..00ab693 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -51,6 +51,9 @@ namespace compression {
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
+            }
+            if(static_cast<std::size_t>(compressed) != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: lz4 chunk has the wrong decompressed size");
             }
 		}
 
diff --git a/include/z5/compression/xz_compressor.hxx b/include/z5/compression/xz_compressor.hxx
index 4ecb92c..c6b7334 100644
--- a/include/z5/compression/xz_compressor.hxx
+++ b/include/z5/compression/xz_compressor.hxx
@@ -128,6 +128,10 @@ namespace compression {
                 std::string err = "Exception during xz decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
+
+            if(lzs.total_out != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: xz chunk has the wrong decompressed size");
+            }
 		}
 
         inline types::Compressor type() const {
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..49983ef 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -99,9 +99,7 @@ namespace compression {
             }
 
             // Pick the wrapper from the metadata flag (zlib for zarr-v2 "zlib", gzip
-            // for n5 / zarr-v2 "gzip" / zarr-v3). Pass a non-null actual-size pointer so
-            // that, like the previous zlib code, a stream decoding to fewer than the
-            // expected bytes still succeeds (only an overflow is an error).
+            // for n5 / zarr-v2 "gzip" / zarr-v3).
             std::size_t actualOut = 0;
             libdeflate_result res = useZlibEncoding_ ?
                 libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
@@ -121,6 +119,11 @@ namespace compression {
             if(res != LIBDEFLATE_SUCCESS) {
                 throw std::runtime_error("z5: libdeflate decompression failed (" + std::to_string((int) res) + ")");
             }
+
+            // a stream that decodes to fewer bytes would leave stale values in the output
+            if(actualOut != sizeOutBytes) {
+                throw std::runtime_error("z5: zlib chunk has the wrong decompressed size");
+            }
         }
 
 #else // WITH_LIBDEFLATE -- stock zlib backend
@@ -209,6 +212,10 @@ namespace compression {
                 std::string err = "Exception during zlib decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
     		}
+
+            if(zs.total_out != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: zlib chunk has the wrong decompressed size");
+            }
 		}
 
 #endif // WITH_LIBDEFLATE
diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..57c69cd 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -49,6 +49,9 @@ namespace compression {
                 std::string err = "Exception during zstd decompression: " +
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
+            }
+            if(decompressed != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: zstd chunk has the wrong decompressed size");
             }
 		}
 
-- 
2.43.0


From 76a3a10af02120882f28464422d56aba77e57658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:23 +0000
Subject: [PATCH 09/32] fix: bzip2 and zlib silently truncated chunks of 4 GiB
 and more

---
 include/z5/compression/bzip2_compressor.hxx | 14 ++++++++++++++
 include/z5/compression/zlib_compressor.hxx  | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index 3f5e93e..f386851 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -2,6 +2,9 @@
 
 #ifdef WITH_BZIP2
 
+#include <limits>
+#include <stdexcept>
+
 #include <bzlib.h>
 
 #include "z5/compression/compressor_base.hxx"
@@ -30,6 +33,11 @@ namespace compression {
             // the output buffer must be 1% + 600 bytes larger than the input
             std::size_t outSize = sizeof(T) * (sizeIn + static_cast<std::size_t>(0.01 * static_cast<float>(sizeIn)));
             outSize += 600;
+            // the sizes in bz_stream are 32 bit
+            if(sizeIn * sizeof(T) > std::numeric_limits<unsigned int>::max() ||
+               outSize > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 compression");
+            }
             dataOut.resize(outSize);
 
             // low - level API
@@ -66,6 +74,12 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            // the sizes in bz_stream are 32 bit
+            if(nBytesIn > std::numeric_limits<unsigned int>::max() ||
+               sizeOut * sizeof(T) > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 decompression");
+            }
+
             // create the bzip2 stream
             bz_stream bzs;
             bzs.opaque = NULL;
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 49983ef..520e747 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -9,6 +9,7 @@
 #endif
 
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -151,6 +152,11 @@ namespace compression {
             // directly into it (no 256kb scratch buffer, no per-block vector::insert).
             const std::size_t sizeInBytes = sizeIn * sizeof(T);
             const uLong bound = deflateBound(&zs, sizeInBytes);
+            // the sizes in z_stream are 32 bit
+            if(sizeInBytes > std::numeric_limits<uInt>::max() || bound > std::numeric_limits<uInt>::max()) {
+                deflateEnd(&zs);
+                throw std::runtime_error("z5: chunk is too large for zlib compression");
+            }
             dataOut.resize(bound);
 
             zs.next_in = (Bytef*) dataIn;
@@ -175,6 +181,12 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            // the sizes in z_stream are 32 bit
+            if(nBytesIn > std::numeric_limits<uInt>::max() ||
+               sizeOut * sizeof(T) > std::numeric_limits<uInt>::max()) {
+                throw std::runtime_error("z5: chunk is too large for zlib decompression");
+            }
+
             // open the zlib stream
             z_stream zs;
             memset(&zs, 0, sizeof(zs));
-- 
2.43.0


From 40438ed45d03da820e534466c9f8ad7205ca63c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 10/32] fix: n5 chunks whose header does not match the chunk
 overflowed the read buffer

---
 include/z5/multiarray/array_access.hxx | 16 ++++++++++++----
 include/z5/util/format_data.hxx        | 19 ++++++++++++++++---
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..665abb3 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -118,17 +118,21 @@ namespace multiarray {
             ds.readRawChunk(chunkId, dataBuffer);
 
             // get the shape of the chunk (as it is stored)
-            std::size_t chunkStoreSize = maxChunkSize;
+            types::ShapeType storedShape = maxChunkShape;
             std::size_t headerLength = 0;
             if(!isZarr) {
-                if(util::read_n5_header(dataBuffer, chunkStoreSize, headerLength)) {
+                std::size_t chunkStoreSize;
+                if(util::read_n5_header(dataBuffer, chunkStoreSize, headerLength, &storedShape)) {
                     throw std::runtime_error("Can't read from varlen chunks to multiarray");
                 }
             }
 
             // edge chunk stored at full size (zarr) -> use the default chunk shape; the
             // leading block of the buffer holds the valid data.
-            if(chunkStoreSize != chunkSize) {
+            if(storedShape != chunkShape) {
+                if(storedShape != maxChunkShape) {
+                    throw std::runtime_error("z5: invalid n5 chunk: shape in the header does not match the chunk");
+                }
                 chunkSize = maxChunkSize;
                 chunkShape = maxChunkShape;
             }
@@ -277,7 +281,11 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // check before reading: the size of a varlen
+                                           // chunk is not bounded by the size of the buffer
+                                           std::size_t varlenSize;
+                                           if(ds.checkVarlenChunk(chunkId, varlenSize) ||
+                                              ds.readChunk(chunkId, &buf[0])) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 548759c..4759bf3 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -167,10 +167,12 @@ namespace util {
     // chunks, sets `data_size` to the number of elements in the payload and
     // `header_length` to the header's byte length -- the payload starts at
     // buffer.data() + header_length (the header is NOT removed from the buffer,
-    // which would memmove the whole compressed payload).
+    // which would memmove the whole compressed payload). If `chunk_shape` is given, it is
+    // set to the chunk shape from the header (in C axis order).
     inline bool read_n5_header(const std::vector<char> & buffer,
                                std::size_t & data_size,
-                               std::size_t & header_length) {
+                               std::size_t & header_length,
+                               types::ShapeType * chunk_shape=nullptr) {
         // every read below is validated against the buffer size first: a truncated
         // or corrupt chunk file must produce a clean error, not out-of-bounds reads
         if(buffer.size() < 4) {
@@ -187,6 +189,9 @@ namespace util {
         memcpy(&ndim, &buffer[2], 2);
         util::reverseEndiannessInplace(ndim);
 
+        if(mode > 1) {
+            throw std::runtime_error("z5: invalid n5 chunk: unknown mode");
+        }
         const bool is_varlen = mode == 1;
         const std::size_t fullHeaderLen = (ndim + 1) * 4 + (is_varlen ? 4 : 0);
         if(buffer.size() < fullHeaderLen) {
@@ -217,6 +222,9 @@ namespace util {
                                         std::size_t(1), std::multiplies<std::size_t>());
         }
 
+        if(chunk_shape != nullptr) {
+            chunk_shape->assign(shape.begin(), shape.end());
+        }
         header_length = headerlen;
         return is_varlen;
     }
@@ -234,7 +242,12 @@ namespace util {
         bool is_varlen = false;
 
         if(!is_zarr) {
-            is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            types::ShapeType header_shape;
+            is_varlen = read_n5_header(buffer, chunk_size, header_length, &header_shape);
+            // the caller's buffer has the size of the chunk in the grid
+            if(!is_varlen && header_shape != chunk.shape()) {
+                throw std::runtime_error("z5: invalid n5 chunk: shape in the header does not match the chunk");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
-- 
2.43.0


From 52cf45ebc565dc62cb2d1280b5abe22f8cfdc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 11/32] fix: n5 header queries used uninitialized values for
 missing or corrupt headers

---
 include/z5/filesystem/store.hxx | 44 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..c59d31a 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -98,25 +98,18 @@ namespace store_detail {
                                                 std::size_t & chunkSize) {
             std::ifstream file(chunk.path(), std::ios::binary);
 
-            // read the mode
             uint16_t mode;
-            file.read((char *) &mode, 2);
-            util::reverseEndiannessInplace(mode);
-
+            const uint16_t ndim = readHeaderStart(file, chunk, mode);
             if(mode == 0) {
                 return false;
             }
 
-            // read the number of dimensions
-            uint16_t ndim;
-            file.read((char *) &ndim, 2);
-            util::reverseEndiannessInplace(ndim);
-
             // advance the file by ndim * 4 to skip the shape
             file.seekg((ndim + 1) * 4);
 
             uint32_t varlength;
             file.read((char*) &varlength, 4);
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -129,19 +122,15 @@ namespace store_detail {
                                                types::ShapeType & chunkShape) {
             std::ifstream file(chunk.path(), std::ios::binary);
 
-            // advance the file by 2 to skip the mode
-            file.seekg(2);
-
-            // read the number of dimensions
-            uint16_t ndim;
-            file.read((char *) &ndim, 2);
-            util::reverseEndiannessInplace(ndim);
+            uint16_t mode;
+            const uint16_t ndim = readHeaderStart(file, chunk, mode);
 
             // read temporary shape with uint32 entries
             std::vector<uint32_t> shapeTmp(ndim);
             for(int d = 0; d < ndim; ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            checkHeader(file, chunk);
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
@@ -153,6 +142,29 @@ namespace store_detail {
             file.close();
         }
 
+    private:
+
+        // a missing, truncated or corrupt header is an error
+        static inline void checkHeader(const std::ifstream & file, const ChunkHandleType & chunk,
+                                       const bool isValid=true) {
+            if(!file || !isValid) {
+                throw std::runtime_error("z5: missing or invalid n5 chunk header: " + chunk.path().string());
+            }
+        }
+
+        // read the mode and the number of dimensions from an n5 chunk header
+        static inline uint16_t readHeaderStart(std::ifstream & file, const ChunkHandleType & chunk,
+                                               uint16_t & mode) {
+            uint16_t ndim;
+            file.read((char *) &mode, 2);
+            file.read((char *) &ndim, 2);
+            checkHeader(file, chunk);
+            util::reverseEndiannessInplace(mode);
+            util::reverseEndiannessInplace(ndim);
+            checkHeader(file, chunk, mode <= 1 && ndim == chunk.shape().size());
+            return ndim;
+        }
+
     };
 
     static_assert(z5::generic::ChunkStorePolicy<ChunkStore>);
-- 
2.43.0


From f0413e5afc721b4575dbd536c919cfd1818fa139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 12/32] fix: shard index entries that are half empty or have no
 bytes were read as never-written chunks

---
 include/z5/util/sharding.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..d86bb9c 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -33,7 +33,7 @@ namespace util {
         uint64_t offset = SHARD_EMPTY;
         uint64_t nbytes = SHARD_EMPTY;
         inline bool empty() const {
-            return offset == SHARD_EMPTY || nbytes == SHARD_EMPTY;
+            return offset == SHARD_EMPTY && nbytes == SHARD_EMPTY;
         }
     };
 
@@ -119,9 +119,12 @@ namespace util {
             entries[s].offset = readLE64(p);
             entries[s].nbytes = readLE64(p + 8);
             // bound non-empty entries by the data region so corrupt offsets can
-            // never cause out-of-bounds reads downstream
+            // never cause out-of-bounds reads downstream; an inner chunk always has
+            // some bytes, so an entry without any is corrupt (and must not be
+            // mistaken for an empty slot)
             if(!entries[s].empty() &&
-               (entries[s].offset > indexStart ||
+               (entries[s].nbytes == 0 ||
+                entries[s].offset > indexStart ||
                 entries[s].nbytes > indexStart - entries[s].offset)) {
                 return false;
             }
-- 
2.43.0


From cac3aa5a0fd41119f6648770aefa248cdb3c3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 13/32] fix: n5 chunk extents and element counts of 2^32 and
 more were truncated in the header

---
 include/z5/util/format_data.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 4759bf3..bba0dd1 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -20,9 +22,16 @@ namespace util {
 
 
     inline void write_n5_header(std::vector<char> & buffer, const types::ShapeType & shape,
-                                const bool isVarlen, const uint32_t varlen) {
+                                const bool isVarlen, const std::size_t varlen) {
 
         const unsigned ndim = shape.size();
+
+        // the header holds the extents and the varlen size as 32 bit numbers
+        const auto fits = [](const std::size_t size){return size <= std::numeric_limits<uint32_t>::max();};
+        if(!std::all_of(shape.begin(), shape.end(), fits) || (isVarlen && !fits(varlen))) {
+            throw std::runtime_error("z5: the chunk is too large for the n5 format");
+        }
+
         buffer.resize((ndim + 1) * 4);
 
         // write the mode
-- 
2.43.0


From 4efbb4e11a3542246e253b61ebb7c94e9c072e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:10 +0000
Subject: [PATCH 14/32] fix: lz4 decompression truncated chunk sizes of 2 GiB
 and more to int

---
 include/z5/compression/lz4_compressor.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 00ab693..0f2d373 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -2,6 +2,10 @@
 
 #ifdef WITH_LZ4
 
+#include <limits>
+#include <stdexcept>
+#include <string>
+
 #include <lz4.h>
 #include <lz4hc.h>
 
@@ -46,6 +50,11 @@ namespace compression {
         }
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+            // the sizes in the lz4 interface are int
+            if(nBytesIn > static_cast<std::size_t>(std::numeric_limits<int>::max()) ||
+               sizeOut * sizeof(T) > static_cast<std::size_t>(std::numeric_limits<int>::max())) {
+                throw std::runtime_error("z5: chunk is too large for lz4 decompression");
+            }
             const int compressed = LZ4_decompress_safe(dataIn, (char *) dataOut,
                                                        nBytesIn, sizeOut * sizeof(T));
             if(compressed <= 0) {
-- 
2.43.0


From da90ad79271b7e510235f3ace165e7a8c7199e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 15/32] fix: zero or overflowing chunk and shard shapes were
 accepted and crashed later

---
 include/z5/metadata.hxx | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..fd24d55 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cmath>
+#include <cstddef>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include <iomanip>
@@ -407,6 +409,39 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            // a chunk must hold at least one element and its size in bytes must be representable
+            checkedSize(chunkShape, types::datatypeSize(dtype), "chunk shape");
+
+            if(shardShape.empty()) {
+                return;
+            }
+            if(shardShape.size() != chunkShape.size()) {
+                throw std::runtime_error("Dimension of shards and chunks does not agree");
+            }
+            types::ShapeType chunksPerShard(shardShape.size());
+            for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                if(shardShape[d] % chunkShape[d] != 0) {
+                    throw std::runtime_error("Shard shape must be a multiple of the chunk shape");
+                }
+                chunksPerShard[d] = shardShape[d] / chunkShape[d];
+            }
+            // the shard index has two 8 byte values per chunk
+            checkedSize(chunksPerShard, 16, "shard shape");
+        }
+
+        // make sure that all extents are positive and that the size in bytes is representable
+        static void checkedSize(const types::ShapeType & extents, const std::size_t itemSize,
+                                const std::string & what) {
+            std::size_t size = itemSize;
+            for(const auto extent : extents) {
+                if(extent == 0) {
+                    throw std::runtime_error("Invalid " + what + ": extents must be positive");
+                }
+                if(extent > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / size) {
+                    throw std::runtime_error("Invalid " + what + ": too large");
+                }
+                size *= extent;
+            }
         }
 
 
@@ -489,7 +524,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From 9244d64d89cd3a8dd36e3e5367d290044710fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:28 +0000
Subject: [PATCH 16/32] fix: missing or mistyped metadata fields were undefined
 behaviour or misread

---
 include/z5/metadata.hxx    | 51 +++++++++++++++++++++++++-------------
 include/z5/types/types.hxx | 38 ++++++++++++++--------------
 2 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index fd24d55..461165b 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <limits>
@@ -86,7 +87,7 @@ namespace z5 {
             if(isZarr) {
                 // distinguish zarr v2 (.zarray) from v3 (zarr.json) by the version field
                 auto it = j.find("zarr_format");
-                if(it != j.end() && it->get<int>() == 3) {
+                if(it != j.end() && *it == 3) {
                     zarrFormat = 3;
                     fromJsonV3(j);
                 } else {
@@ -146,14 +147,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype").get<std::string>());
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + j.at("dtype").get<std::string>());
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = readShape(j.at("shape"));
+            chunkShape = readShape(j.at("chunks"));
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -177,9 +178,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id").get<std::string>();
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -192,13 +193,15 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType").get<std::string>());
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = readShape(j.at("dimensions"));
+            std::reverse(shape.begin(), shape.end());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = readShape(j.at("blockSize"));
+            std::reverse(chunkShape.begin(), chunkShape.end());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
@@ -323,11 +326,11 @@ namespace z5 {
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr v3 data_type: " + j.at("data_type").get<std::string>());
             }
-            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            shape = readShape(j.at("shape"));
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
-            const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
-            types::ShapeType outerShape(gridShape.begin(), gridShape.end());
+            const types::ShapeType outerShape =
+                readShape(j.at("chunk_grid").at("configuration").at("chunk_shape"));
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
@@ -365,8 +368,7 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
-                    const auto & innerShapeJson = scfg.at("chunk_shape");
-                    chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
+                    chunkShape = readShape(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
                     break;
@@ -404,6 +406,21 @@ namespace z5 {
 
     private:
 
+        // read a shape, which must be an array of non-negative integers
+        static types::ShapeType readShape(const nlohmann::json & j) {
+            if(!j.is_array()) {
+                throw std::runtime_error("Invalid shape: not an array");
+            }
+            types::ShapeType shape;
+            for(const auto & extent : j) {
+                if(!extent.is_number_integer() || (!extent.is_number_unsigned() && extent.get<int64_t>() < 0)) {
+                    throw std::runtime_error("Invalid shape: extents must be non-negative integers");
+                }
+                shape.push_back(extent.get<std::size_t>());
+            }
+            return shape;
+        }
+
         // make sure that shapes agree
         void checkShapes() {
             if(shape.size() != chunkShape.size()) {
@@ -469,7 +486,7 @@ namespace z5 {
 
             jIt = j.find("filters");
             if(jIt != j.end()) {
-                if(!j["filters"].is_null() && j["filters"].size() > 0) {
+                if(!jIt->is_null() && jIt->size() > 0) {
                     throw std::runtime_error(
                         "Invalid Filters: Z5 does not support filters"
                     );
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..36dc07a 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -238,26 +238,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +312,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts.at("nthreads").get<int>();
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From ab9e9ca8afb9c859da82d75d70ed278fa16aa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:28 +0000
Subject: [PATCH 17/32] fix: zarr v3 metadata with unsupported codecs, byte
 order, chunk grid or shard index was misread

---
 include/z5/metadata.hxx    | 25 +++++++++++++++++++++++++
 include/z5/types/types.hxx | 21 +++++++++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 461165b..9c8faa1 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -331,6 +331,13 @@ namespace z5 {
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const types::ShapeType outerShape =
                 readShape(j.at("chunk_grid").at("configuration").at("chunk_shape"));
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
+            const auto transformers = j.find("storage_transformers");
+            if(transformers != j.end() && !transformers->empty()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: storage transformers are not supported");
+            }
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
@@ -366,11 +373,15 @@ namespace z5 {
             bool sharded = false;
             for(const auto & c : codecs) {
                 if(c.at("name") == "sharding_indexed") {
+                    if(codecs.size() != 1) {
+                        throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: sharding cannot be combined with other codecs");
+                    }
                     sharded = true;
                     const auto & scfg = c.at("configuration");
                     chunkShape = readShape(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
+                    checkShardIndex(scfg);
                     break;
                 }
             }
@@ -381,6 +392,20 @@ namespace z5 {
             types::readV3CodecsFromJson(*innerCodecs, compressor, compressionOptions);
         }
 
+
+        // only shards with a little endian, crc32c protected index at the end of the file are supported
+        static void checkShardIndex(const nlohmann::json & config) {
+            const auto location = config.find("index_location");
+            if(location != config.end() && *location != "end") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported shard index location");
+            }
+            const auto & indexCodecs = config.at("index_codecs");
+            if(!indexCodecs.is_array() || indexCodecs.size() != 2 || indexCodecs[1].at("name") != "crc32c") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported shard index codecs");
+            }
+            types::checkV3BytesCodec(indexCodecs[0]);
+        }
+
     public:
         // metadata values that can be set
         types::Datatype dtype;
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 36dc07a..b25a873 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,14 +506,31 @@ namespace types {
         }
     }
 
-    // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
+    // the array-to-bytes codec must be ``bytes`` in little endian order
+    // (the order may be omitted for one byte data types)
+    inline void checkV3BytesCodec(const nlohmann::json & c) {
+        if(c.at("name") != "bytes") {
+            throw std::runtime_error("z5: unsupported zarr v3 codec: expected bytes codec");
+        }
+        const auto cfg = c.find("configuration");
+        if(cfg != c.end() && cfg->contains("endian") && cfg->at("endian") != "little") {
+            throw std::runtime_error("z5: only little endian zarr v3 data is supported");
+        }
+    }
+
+    // parse a zarr v3 codec list into a Compressor + CompressionOptions: the ``bytes`` codec,
+    // followed by at most one compressor
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
+        if(!jCodecs.is_array() || jCodecs.empty() || jCodecs.size() > 2) {
+            throw std::runtime_error("z5: unsupported zarr v3 codecs");
+        }
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
-            if(name == "bytes") {
+            if(&c == &jCodecs.front()) {
+                checkV3BytesCodec(c);
                 continue;
             }
             const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
-- 
2.43.0


From c8078cff84a4143fb84f352253170cd5bcf20405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 18/32] fix: fill values that the data type or format cannot
 represent were undefined behaviour or lost on reopening

---
 include/z5/metadata.hxx    | 42 +++++++++++++++++++++++++++++++++++---
 include/z5/types/types.hxx |  8 ++++++++
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 9c8faa1..ba5c496 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -61,6 +61,7 @@ namespace z5 {
                 shardShape(shardShape)
         {
             checkShapes();
+            checkFillValue();
         }
 
 
@@ -98,6 +99,7 @@ namespace z5 {
                 fromJsonN5(j);
             }
             checkShapes();
+            checkFillValue();
         }
 
     private:
@@ -166,9 +168,9 @@ namespace z5 {
                     throw std::runtime_error("Invalid string value for fillValue");
                 }
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
-                fillValue = std::numeric_limits<double>::quiet_NaN();
+                fillValue = types::isFloatingPoint(dtype) ? std::numeric_limits<double>::quiet_NaN() : 0;
             } else {
-                fillValue = static_cast<double>(fillValJson);
+                fillValue = readFillValue(fillValJson);
             }
 
             auto jIt = j.find("dimension_separator");
@@ -363,7 +365,7 @@ namespace z5 {
             } else if(fillValJson.type() == nlohmann::json::value_t::null) {
                 fillValue = 0;
             } else {
-                fillValue = static_cast<double>(fillValJson);
+                fillValue = readFillValue(fillValJson);
             }
 
             // codecs: detect sharding, recover inner chunk shape + inner compressor
@@ -446,6 +448,40 @@ namespace z5 {
             return shape;
         }
 
+        // read a numeric fill value, which is represented as double
+        static double readFillValue(const nlohmann::json & j) {
+            if(!j.is_number()) {
+                throw std::runtime_error("Invalid fill value: not a number");
+            }
+            const double value = j.get<double>();
+            const bool exact = j.is_number_unsigned() ?
+                value < std::ldexp(1., 64) && static_cast<uint64_t>(value) == j.get<uint64_t>() :
+                !j.is_number_integer() ||
+                (value < std::ldexp(1., 63) && static_cast<int64_t>(value) == j.get<int64_t>());
+            if(!exact) {
+                throw std::runtime_error("Invalid fill value: not representable");
+            }
+            return value;
+        }
+
+        // make sure that the fill value is a value of the data type
+        void checkFillValue() const {
+            if(!isZarr && fillValue != 0) {
+                throw std::runtime_error("Invalid fill value: n5 only supports zero");
+            }
+            if(types::isFloatingPoint(dtype)) {
+                return;
+            }
+            const int nBits = 8 * types::datatypeSize(dtype);
+            const bool isSigned = dtype == types::int8 || dtype == types::int16 ||
+                                  dtype == types::int32 || dtype == types::int64;
+            const double lower = isSigned ? -std::ldexp(1., nBits - 1) : 0;
+            const double upper = std::ldexp(1., isSigned ? nBits - 1 : nBits);
+            if(!(fillValue >= lower && fillValue < upper)) {
+                throw std::runtime_error("Invalid fill value: not a value of the data type");
+            }
+        }
+
         // make sure that shapes agree
         void checkShapes() {
             if(shape.size() != chunkShape.size()) {
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b25a873..7d80600 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -442,6 +442,14 @@ namespace types {
         }
     }
 
+    // floating point or complex data type
+    inline bool isFloatingPoint(Datatype dt) {
+        switch(dt) {
+            case float32: case float64: case complex64: case complex128: case complex256: return true;
+            default: return false;
+        }
+    }
+
     inline std::string bloscShuffleToString(int s) {
         return s == 0 ? "noshuffle" : (s == 2 ? "bitshuffle" : "shuffle");
     }
-- 
2.43.0


From 78ee98f48b9e137fd1a84fd13f3d65556ef9c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 19/32] fix: zlib streams were stored in datasets whose
 metadata declares gzip

---
 include/z5/metadata.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index ba5c496..e10efdc 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -590,6 +590,16 @@ namespace z5 {
         // add the default compression options if necessary
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
+        #ifdef WITH_ZLIB
+        // only zarr v2 has a zlib codec, n5 and zarr v3 always use the gzip encoding
+        if(internalCompressor == types::zlib) {
+            if(!(createAsZarr && zarrFormat == 2)) {
+                internalCompressionOptions["useZlib"] = false;
+            } else if(compressor == "gzip") {
+                internalCompressionOptions.insert({"useZlib", false});
+            }
+        }
+        #endif
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
         // sharding is only valid for zarr v3, and the shard shape must be a
-- 
2.43.0


From f993673421c7097d51cd3690b8099bbf02d7b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 20/32] fix: creating a dataset whose metadata cannot be stored
 left an empty directory behind

---
 include/z5/filesystem/factory.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 2d0c806..aa69932 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -59,6 +59,9 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // make sure that the metadata can be stored before creating anything
+        nlohmann::json j;
+        metadata.toJson(j);
         dataset.create();
         writeMetadata(dataset, metadata);
         return factory_detail::makeDataset(dataset, metadata);
-- 
2.43.0


From 357ca474de12a29ef98c1d314177ac1a86334520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 21/32] fix: unsupported format versions, separators and chunk
 key encodings were accepted

---
 include/z5/filesystem/metadata.hxx |  3 +++
 include/z5/metadata.hxx            | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..44da19a 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -95,6 +95,9 @@ namespace metadata_detail {
         auto isZarr = metadata_detail::getMetadataPath(handle, path);
         metadata_detail::readMetadata(path, j);
         metadata.fromJson(j, isZarr);
+        if(isZarr && (metadata.zarrFormat == 3) != (path.filename() == "zarr.json")) {
+            throw std::runtime_error("Invalid Zarr format: does not agree with the metadata file");
+        }
     }
 
 }
diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index e10efdc..141eab4 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -60,6 +60,7 @@ namespace z5 {
                 chunkKeyEncoding(chunkKeyEncoding),
                 shardShape(shardShape)
         {
+            checkFormat();
             checkShapes();
             checkFillValue();
         }
@@ -98,6 +99,7 @@ namespace z5 {
             } else {
                 fromJsonN5(j);
             }
+            checkFormat();
             checkShapes();
             checkFillValue();
         }
@@ -464,6 +466,22 @@ namespace z5 {
             return value;
         }
 
+        // make sure that the format version and the chunk key encoding are supported
+        void checkFormat() const {
+            if(!isZarr) {
+                return;
+            }
+            if(zarrFormat != 2 && zarrFormat != 3) {
+                throw std::runtime_error("Invalid Zarr format: Z5 only supports zarr formats 2 and 3");
+            }
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Invalid dimension separator: must be '.' or '/'");
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Invalid chunk key encoding: must be 'default' or 'v2'");
+            }
+        }
+
         // make sure that the fill value is a value of the data type
         void checkFillValue() const {
             if(!isZarr && fillValue != 0) {
-- 
2.43.0


From 883c3fb25939511ecfcbe5a0fa7bb964a584f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:43 +0000
Subject: [PATCH 22/32] fix: zarr v3 sharded metadata with an empty chunk grid
 was read as unsharded

---
 include/z5/metadata.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 141eab4..b08771e 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -335,6 +335,9 @@ namespace z5 {
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const types::ShapeType outerShape =
                 readShape(j.at("chunk_grid").at("configuration").at("chunk_shape"));
+            if(outerShape.size() != shape.size()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: dimensions of shape and chunk grid do not agree");
+            }
             if(j.at("chunk_grid").at("name") != "regular") {
                 throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
             }
-- 
2.43.0


From e313eeed53da1c80601b01fe763107c1d4f28006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:32 +0000
Subject: [PATCH 23/32] fix: failed writes on close and of metadata and
 attributes were ignored

Data buffered by the output stream is only written when the file is closed,
so an error there (disk full, ...) went unnoticed; metadata and attribute
documents were not checked at all.
---
 include/z5/filesystem/attributes.hxx | 18 ++++++++++++++----
 include/z5/filesystem/metadata.hxx   |  3 +++
 include/z5/filesystem/store.hxx      |  3 ++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..4aa3930 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -43,19 +43,29 @@ namespace attrs_detail {
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
+            const auto path = base_ / name;
+            std::ofstream file(path);
             file << j;
-            file.close();
+            closeFile(file, path);
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
+            const auto path = base_ / name;
+            std::ofstream file(path);
             file << std::setw(4) << j << std::endl;
-            file.close();
+            closeFile(file, path);
         }
 
     private:
+        // opening, writing and closing (which flushes) can all fail
+        static inline void closeFile(std::ofstream & file, const fs::path & path) {
+            file.close();
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to write metadata file: " + path.string());
+            }
+        }
+
         fs::path base_;
     };
 
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index 44da19a..a72d75a 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -13,6 +13,9 @@ namespace metadata_detail {
         std::ofstream file(path);
         file << std::setw(4) << j << std::endl;
         file.close();
+        if(!file.good()) {
+            throw std::runtime_error("z5: failed to write metadata file: " + path.string());
+        }
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index c59d31a..8fee22a 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -42,10 +42,11 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
         }
         file.write(buffer.data(), buffer.size());
+        // closing flushes the remaining data, which can fail as well
+        file.close();
         if(!file.good()) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
-        file.close();
     }
 
 }  // namespace store_detail
-- 
2.43.0


From e2138451b76ea77d6783ed58e10579e0c2757683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 24/32] fix: python index -size selected a negative offset
 instead of the first position

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From 9049884a7faaee5d9fa9b68b230c24ed1a513653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:52 +0000
Subject: [PATCH 25/32] fix: python assignment refused or rearranged some
 arrays

Arrays of one element were refused by regions with more axes, 0-d arrays were
always refused, and an array was reshaped into a region with leading singleton
axes (e.g. (2, 2) into (1, 4)) instead of being refused.
---
 src/python/module/z5py/shape_utils.py | 48 ++++++---------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..3bb30f1 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -50,12 +50,14 @@ def int_to_start_stop(i, size):
     return slice(start, start + 1)
 
 
-def sliding_window(arr, wsize):
-    """Yield a wsize-length tuple of items from sequence arr as a sliding window"""
-    if wsize > len(arr):
-        return
-    for idx in range(len(arr) - wsize + 1):
-        yield tuple(arr[idx:idx + wsize])
+def strip_singletons(shape):
+    """Remove the leading and trailing singleton dimensions from a shape"""
+    important_shape = list(shape)
+    while important_shape and important_shape[0] == 1:
+        important_shape.pop(0)
+    while important_shape and important_shape[-1] == 1:
+        important_shape.pop()
+    return tuple(important_shape)
 
 
 def rectify_shape(arr, required_shape):
@@ -66,40 +68,12 @@ def rectify_shape(arr, required_shape):
     if arr.shape == required_shape:
         return arr
 
-    important_shape = list(arr.shape)
-    while len(important_shape) > 1:
-        if important_shape[0] == 1:
-            important_shape.pop(0)
-        elif important_shape[-1] == 1:
-            important_shape.pop()
-        else:
-            break
-
-    important_shape = tuple(important_shape)
+    # leading and trailing singletons can be added and removed; what remains has to match
+    if strip_singletons(arr.shape) == strip_singletons(required_shape):
+        return arr.reshape(required_shape)
 
     msg = ('could not broadcast input array from shape {} into shape {}; '
            'complicated broadcasting not supported').format(arr.shape, required_shape)
-
-    if len(important_shape) > len(required_shape):
-        raise ValueError(msg)
-
-    is_leading = True
-    for window in sliding_window(required_shape, len(important_shape)):
-        if window == important_shape:
-            if is_leading:
-                is_leading = False
-                continue
-            else:
-                break
-        if is_leading:
-            if window[0] != 1:
-                break
-        else:
-            if window[-1] != 1:
-                break
-    else:
-        return arr.reshape(required_shape)
-
     raise ValueError(msg)
 
 
-- 
2.43.0


From a9194aa17f236db07712429205355999ef8cce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:31 +0000
Subject: [PATCH 26/32] fix: n5 datasets and groups were told apart by the
 number of their attributes

A node counted as a dataset if it had any four of the five attributes, so
that a dataset with both compression and compressionType was taken for a group,
and a group that holds them without a data type for a dataset.
---
 include/z5/handle.hxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 803c1f6..6d5e0fb 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -242,16 +242,13 @@ namespace handle {
 
 
     inline bool hasAllN5DatasetAttributes(nlohmann::json & j) {
-        const std::set<std::string> protectedAttributes = {"dimensions", "blockSize", "dataType",
-                                                           "compressionType", "compression"};
-        int nFound = 0;
-        for(auto jIt = j.begin(); jIt != j.end(); ++jIt) {
-            if(protectedAttributes.find(jIt.key()) != protectedAttributes.end()) {
-                ++nFound;
+        for(const char * attr : {"dimensions", "blockSize", "dataType"}) {
+            if(j.find(attr) == j.end()) {
+                return false;
             }
         }
-        // NOTE we only expect to find one of "compressionType" and "compression"
-        return nFound == (protectedAttributes.size() - 1);
+        // "compressionType" is the old name of "compression"
+        return j.find("compression") != j.end() || j.find("compressionType") != j.end();
     }
 }
 }
-- 
2.43.0


From 65bb04f5b3f5572ad1967bee08d2952579d93581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:31 +0000
Subject: [PATCH 27/32] fix: chunk utilities looked at padding and lost values
 next to nan

unique, uniqueWithCounts and removeTrivialChunks counted the padding of zarr
edge chunks, and nan, which cannot be ordered, hid other values in the
sets: removeTrivialChunks deleted chunks holding nan and other values.
---
 include/z5/util/functions.hxx | 67 +++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 11 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..47ab46f 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -26,6 +26,36 @@ namespace util {
     }
 
 
+    // Read the elements of a chunk that are part of the dataset: zarr chunks at the
+    // edge of the dataset are stored padded, the padding is left out.
+    template<class T>
+    inline void readChunkElements(const Dataset & ds,
+                                  const types::ShapeType & chunk,
+                                  std::vector<T> & data) {
+        const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
+        const bool isVarlen = ds.readChunk(chunk, data.data());
+        data.resize(dataSize);
+        const std::size_t nElements = ds.getChunkSize(chunk);
+        if(isVarlen || !ds.isZarr() || dataSize == nElements) {
+            return;
+        }
+        types::ShapeType shape, pos(ds.dimension(), 0);
+        ds.getChunkShape(chunk, shape);
+        const auto & paddedShape = ds.defaultChunkShape();
+        for(std::size_t i = 0; i < nElements; ++i) {
+            std::size_t offset = 0;
+            for(std::size_t d = 0; d < pos.size(); ++d) {
+                offset = offset * paddedShape[d] + pos[d];
+            }
+            data[i] = data[offset];
+            for(std::size_t d = pos.size(); d-- > 0 && ++pos[d] == shape[d];) {
+                pos[d] = 0;
+            }
+        }
+        data.resize(nElements);
+    }
+
+
     // remove chunks which contain only a single value
     // -> this is often some background value, that might`
     // be different from the global background value
@@ -48,11 +78,12 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
-            // check vector for number of uniques and if we only have a single unique, remove it
-            const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
-            const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
+            readChunkElements(ds, chunk, data);
+            // remove the chunk if all its elements are equal (a set would also
+            // take elements for equal that cannot be ordered, i.e. nan)
+            const bool remove = !data.empty() &&
+                (!removeSpecificValue || data.front() == value) &&
+                std::all_of(data.begin(), data.end(), [&data](const T val) {return val == data.front();});
             if(remove) {
                 ds.removeChunk(chunk);
             }
@@ -84,6 +115,15 @@ namespace util {
     }
 
 
+    // nan cannot be an element / key of an ordered set / map: it compares equal to
+    // every value there and would hide or replace it
+    template<class T>
+    inline bool isOrdered(const T val) {
+        return val == val;
+    }
+
+
+    // NOTE nan is not reported, see isOrdered
     // TODO add option to ignore fill value
     // TODO maybe it would be beneficial to have intermediate unordered sets
     template<class T>
@@ -104,10 +144,13 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            readChunkElements(ds, chunk, data);
             auto & threadSet = (tid == 0) ? uniques : threadData[tid - 1];
-            threadSet.insert(data.begin(), data.begin() + dataSize);
+            for(const T val : data) {
+                if(isOrdered(val)) {
+                    threadSet.insert(val);
+                }
+            }
         });
 
         // merge the per thread data
@@ -118,6 +161,7 @@ namespace util {
     }
 
 
+    // NOTE nan is not reported, see isOrdered
     // TODO add option to ignore fill value
     // TODO maybe it would be beneficial to have intermediate unordered maps
     template<class T>
@@ -136,11 +180,12 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
-            data.resize(dataSize);
+            readChunkElements(ds, chunk, data);
             auto & threadMap = (tid == 0) ? uniques : threadData[tid - 1];
             for(const T val : data) {
+                if(!isOrdered(val)) {
+                    continue;
+                }
                 auto mIt = threadMap.find(val);
                 if(mIt == threadMap.end()) {
                     threadMap.emplace(std::make_pair(val, 1));
-- 
2.43.0


From 527c8390668af6e4240c3406d217293d35b0fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:31 +0000
Subject: [PATCH 28/32] fix: chunk handle created directories in a read-only
 container

---
 include/z5/filesystem/handle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..523d237 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -274,6 +274,10 @@ namespace handle {
 
         // make the top level directories for a nested chunk
         inline void create() const {
+            if(!mode().canWrite()) {
+                const std::string err = "Cannot create chunk in mode " + mode().printMode();
+                throw std::invalid_argument(err.c_str());
+            }
             // don't need to do anything for chunks that are not nested
             if(dsHandle_.isZarr() && dsHandle_.zarrDelimiter() != "/") {
                 return;
-- 
2.43.0


From 02fa8317655818f5c5412050eafebe3fa0cf9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:16 +0000
Subject: [PATCH 29/32] fix: python groups created with a leading slash left
 the container, nested ones had no parent group

---
 src/python/module/z5py/group.py | 34 ++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..8a0b2e1 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -146,7 +146,15 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(name)
+        return self._handle.is_sub_group(name.lstrip('/'))
+
+    def _require_parent(self, name):
+        # the group that holds the (nested) name, created if necessary, and the name within it
+        *parents, name = name.strip('/').split('/')
+        group = self
+        for parent in parents:
+            group = group.require_group(parent)
+        return group, name
 
     def create_group(self, name):
         """ Create a new group.
@@ -164,6 +172,11 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
+        # a leading slash must not leave the container, and the intermediate groups of
+        # a nested path are groups of their own
+        group, name = self._require_parent(name)
+        if group is not self:
+            return group.create_group(name)
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -181,12 +194,16 @@ class Group(Mapping):
             ``Group``: group of the requested name.
         """
         if name in self:
+            name = name.lstrip('/')
             if not self.is_sub_group(name):
                 raise TypeError("Incompatible object (Dataset) already exists")
             handle = self._handle_factory(self._handle, name)
         else:
             if not self._handle.mode().can_write():
                 raise ValueError("Cannot create group with read-only permissions.")
+            group, name = self._require_parent(name)
+            if group is not self:
+                return group.require_group(name)
             handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -237,12 +254,9 @@ class Group(Mapping):
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
+        group, name = self._require_parent(name)
+        if group is not self:
+            return group.create_dataset(name, shape, dtype,
                                         data, chunks, compression,
                                         fillvalue, n_threads,
                                         shards=shards,
@@ -282,6 +296,12 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
+        if name in self:
+            name = name.lstrip('/')
+        elif self._handle.mode().can_write():
+            group, name = self._require_parent(name)
+            if group is not self:
+                return group.require_dataset(name, shape, dtype, chunks, n_threads, **kwargs)
         return Dataset._require_dataset(self, name, shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
-- 
2.43.0


From 61af6ebadeca7ade87cc3cebc10b3bb3372932b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:16 +0000
Subject: [PATCH 30/32] fix: python ignored the compression level given for
 blosc

---
 src/python/module/z5py/dataset.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..b650f61 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -39,6 +39,14 @@ def _unpickle_dataset(file_obj, name, n_threads):
     return ds
 
 
+def _rename_clevel(compression, compression_options):
+    # blosc calls its compression level 'clevel', the library (and ``compression_opts``) 'level'
+    if compression == 'blosc' and 'clevel' in compression_options:
+        compression_options = dict(compression_options)
+        compression_options['level'] = compression_options.pop('clevel')
+    return compression_options
+
+
 # TODO lz4 compression is currently not compatible with zarr
 # COMPRESSORS_ZARR = ('raw', 'blosc', 'zlib', 'bzip2', 'gzip', 'lz4')
 COMPRESSORS_ZARR = ('raw', 'blosc', 'zlib', 'bzip2', 'gzip', 'zstd')
@@ -109,7 +117,7 @@ class Dataset:
     @staticmethod
     def _to_zarr_compression_options(compression, compression_options):
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'zlib':
             default_opts = {'id': 'zlib', 'level': 5}
         elif compression == 'gzip':
@@ -125,6 +133,7 @@ class Dataset:
         else:
             raise RuntimeError("Compression %s is not supported in zarr format" % compression)
 
+        compression_options = _rename_clevel(compression, compression_options)
         # check for invalid options
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
@@ -144,7 +153,7 @@ class Dataset:
         # toJsonV3 turns them into the on-disk v3 codec configuration. NOTE: gzip
         # must set useZlib=False so the zlib compressor emits a gzip wrapper.
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'gzip':
             default_opts = {'level': 5, 'useZlib': False}
         elif compression == 'zstd':
@@ -154,6 +163,7 @@ class Dataset:
         else:
             raise RuntimeError("Compression %s is not supported in zarr v3 format" % compression)
 
+        compression_options = _rename_clevel(compression, compression_options)
         # check for invalid options
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
@@ -178,12 +188,13 @@ class Dataset:
         elif compression == 'lz4':
             default_opts = {'level': 6}
         elif compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'zstd':
             default_opts = {'level': 3}
         else:
             raise RuntimeError("Compression %s is not supported in n5 format" % compression)
 
+        compression_options = _rename_clevel(compression, compression_options)
         # check for invalid options
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
-- 
2.43.0


From fe8d368c64b06d05950c732bc2b01ed971e979c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:52 +0000
Subject: [PATCH 31/32] fix: compression_opts of a dataset without compression
 raised

---
 src/python/module/z5py/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index b650f61..2f3d8f2 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -431,8 +431,8 @@ class Dataset:
         """ Compression library options of this dataset.
         """
         copts = self._impl.compression_options
-        # decode to json
-        copts = json.loads(copts)
+        # decode to json (null if there are no options)
+        copts = json.loads(copts) or {}
         # 'useZlib' is an internal option: it is derived from the compression
         # name ('zlib' vs 'gzip'), so it must not show up in the user-facing
         # options (which can be passed back to create_dataset)
-- 
2.43.0


From 24ae876537235fdc76d3dd20ed0eac33fce42934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:04 +0000
Subject: [PATCH 32/32] fix: utilities on sharded datasets failed with several
 threads

Reading or testing an inner chunk was not protected against another
thread that rewrites the same shard (removeTrivialChunks, removeDataset
and parallel_for_each_chunk with a mixture of reads and writes).
---
 include/z5/generic/sharded_dataset.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 092acff..0d26d2f 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <mutex>
+#include <shared_mutex>
 
 #include "z5/dataset.hxx"
 #include "z5/generic/store.hxx"
@@ -274,11 +275,14 @@ namespace generic {
 
     private:
 
-        // read a shard object and parse its index; returns false if the shard does not exist
+        // read a shard object and parse its index; returns false if the shard does not exist.
+        // Holds shardMutex_ (shared) so that a direct write to another inner chunk of the
+        // same shard cannot replace the shard object while it is read.
         inline bool readShard(const types::ShapeType & chunkId,
                               std::vector<char> & shardBuf,
                               std::vector<util::ShardEntry> & entries) const {
             ChunkHandleType shardChunk(handle_, util::shardId(chunkId, chunksPerShard_), shardShape_, shape());
+            std::shared_lock<std::shared_mutex> lock(shardMutex_);
             if(!STORE::read(shardChunk, shardBuf, "shard")) {
                 return false;
             }
@@ -294,7 +298,7 @@ namespace generic {
         inline void writeInnerBlob(const types::ShapeType & chunkId,
                                    std::vector<char> && blob,
                                    const bool nonEmpty) const {
-            std::lock_guard<std::mutex> lock(shardMutex_);
+            std::lock_guard<std::shared_mutex> lock(shardMutex_);
 
             const auto shardCoord = util::shardId(chunkId, chunksPerShard_);
             const std::size_t slot = util::shardSlot(chunkId, chunksPerShard_);
@@ -319,7 +323,7 @@ namespace generic {
         types::ShapeType shardShape_;
         types::ShapeType chunksPerShard_;
         std::size_t nSlots_;
-        mutable std::mutex shardMutex_;
+        mutable std::shared_mutex shardMutex_;
     };
 
 
-- 
2.43.0

