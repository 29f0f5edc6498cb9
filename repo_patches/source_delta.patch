From a251f4f1da1fe2c6d26bfd77b93db0217bf82b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 01/82] fix: iterator base() and operator-> return the sample
 pointer (they did not compile when used)

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..b50fffc 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -491,7 +491,7 @@ public:
      *
      * @return pointer
      */
-    pointer base() const { return &(this->point); }
+    pointer base() const { return this->point; }
 
 private:
     /// Current pointer we are on
-- 
2.43.0


From c3b1685bcf13990c9cf891eae64b3514ec69c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 02/82] fix: Buffer::shrink() reaches the container (it named a
 private member and did not compile when used)

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index b50fffc..93ec603 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1746,7 +1746,7 @@ public:
      * For more info.
      *
      */
-    constexpr void shrink() { this->buff.shrink_to_fit(); }
+    constexpr void shrink() { this->get_buff().shrink_to_fit(); }
 
     /**
      * @brief Removes all values from vector
-- 
2.43.0


From 7faa01c1ce2ece9f052d2666fcae69dd217d15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 03/82] fix: sequential iteration over an empty buffer does not
 divide by zero

---
 include/maec/dsp/buffer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 93ec603..66c0cc0 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -829,10 +829,24 @@ public:
          * @return int The sample of the iterator in the current channel
          */
         int get_sample(int index) const {
+
+            // An empty buffer has no samples to locate:
+
+            if (this->buff->channel_capacity() == 0) {
+                return 0;
+            }
+
             return static_cast<int>(index % this->buff->channel_capacity());
         }
 
         int get_channel(int index) const {
+
+            // An empty buffer has no channels to locate:
+
+            if (this->buff->channel_capacity() == 0) {
+                return 0;
+            }
+
 #ifdef _DEBUG
             // This section is specific to MSVC debug mode,
             // as without the modulo we get safe iterator errors,
-- 
2.43.0


From bf9308448639bb4e201c9523840d71d96d7597bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 04/82] fix: int16_mf inverts mf_int16 on negative values
 (full-scale -32768 left [-1,1] and wrapped on the way back)

---
 include/maec/audio_buffer.hpp | 4 ++--
 src/audio_buffer.cpp          | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/maec/audio_buffer.hpp b/include/maec/audio_buffer.hpp
index 3cb3be5..9c6c15c 100644
--- a/include/maec/audio_buffer.hpp
+++ b/include/maec/audio_buffer.hpp
@@ -242,8 +242,8 @@ unsigned char mf_uchar(double val);
 /**
  * @brief Converts a 16bit integer to mf
  *
- * We divide the integer by 32767,
- * and then cast to mf
+ * We divide positive integers by 32767,
+ * and negative integers by 32768 (the inverse of mf_int16())
  *
  * @param val Value to convert
  * @return double Converted mf
diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..3834a45 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by largest negative value:
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From a1f424416815b5b7158aaa9ad5e63bac3e48170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 05/82] fix: RingBuffer wraps negative positions (the unsigned
 modulo picked a wrong slot unless the size was a power of two)

---
 include/maec/dsp/buffer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 66c0cc0..fe0e8e0 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1904,12 +1904,20 @@ protected:
      *
      * We determine the given index falls within the bounds of the buffer.
      * We utilize the modulo operator to wrap the index around to the start of
-     * the buffer.
+     * the buffer. Negative indices wrap around to the end of the buffer.
      *
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+
+        // Use signed math, as an unsigned size breaks negative indices:
+
+        const int bsize = static_cast<int>(this->size());
+        const int rem = nindex % bsize;
+
+        return rem < 0 ? rem + bsize : rem;
+    }
 
 public:
     /**
-- 
2.43.0


From a56de284c339d57191585ebaad8c651e138a85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 06/82] fix: CharIStream stops at the end of its data instead
 of reading past it

---
 src/io/mstream.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..a083cc0 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,29 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine the number of bytes we can provide:
+
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t want = num > 0 ? static_cast<std::size_t>(num) : 0;
+    const std::size_t count = std::min(left, want);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + (this->arr.size() - left), count, byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += count;
+
+    // Determine if we ran out of data:
+
+    if (count < want) {
+
+        // Nothing left, just stop:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From 1f6bf0b4092a7e0d244bfb0e82b9835b493049e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 07/82] fix: CharOStream writes at the position it was asked to
 seek to, also past the end

---
 src/io/mstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index a083cc0..3b1601c 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -43,6 +43,13 @@ void CharIStream::read(char* byts, int num) {
 
 void CharOStream::write(char* byts, int num) {
 
+    // Determine if we are past the end, if so fill the gap with zeros:
+
+    if (this->index > this->arr.size()) {
+
+        this->arr.resize(this->index);
+    }
+
     // Offset to use when determining back insertion:
 
     std::size_t offset = 0;
-- 
2.43.0


From f831fd52307f013859ea1ce427ee27d9a453ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 08/82] fix: WaveReader skips the extension of a long format
 chunk

---
 include/maec/io/wav.hpp | 10 ++++++++++
 src/io/wav.cpp          | 27 +++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..5536fe7 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,16 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips a number of bytes in the stream
+     *
+     * We read and discard the data, stopping early
+     * if the stream goes into a bad state.
+     *
+     * @param num Number of bytes to skip
+     */
+    void skip(uint32_t num);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..a4ed266 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -233,6 +233,15 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // The format chunk may be larger than the values we use,
+    // skip anything extra so we end up at the next chunk:
+
+    if (chead.chunk_size > WavFormat::size() - ChunkHeader::size()) {
+
+        this->skip(chead.chunk_size -
+                   (WavFormat::size() - ChunkHeader::size()));
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
@@ -275,6 +284,24 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip(uint32_t num) {
+
+    // Read the data in small pieces, and throw it away:
+
+    std::array<char, 256> junk = {};
+
+    while (num > 0 && this->stream->good()) {
+
+        const auto count =
+            std::min(num, static_cast<uint32_t>(junk.size()));
+
+        this->stream->read(junk.data(), static_cast<int>(count));
+
+        this->total_read += count;
+        num -= count;
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
-- 
2.43.0


From b0131714f7cb9c84bb0518ecccb3173604975d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 09/82] fix: WaveReader copes with chunk sizes beyond 2 GB
 (negative read length, whole-chunk allocation)

---
 include/maec/io/wav.hpp |  2 +-
 src/io/wav.cpp          | 30 +++++++++---------------------
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 5536fe7..b8fb34b 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -608,7 +608,7 @@ private:
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    uint32_t chunk_read = 0;
 
     /// Total number of bytes read
     uint32_t total_read = 0;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index a4ed266..15388ad 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -330,23 +330,11 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, skip over it
+                // (it could claim to be any size, so never hold all of it)
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip(this->head.chunk_size);
 
                 continue;
             }
@@ -372,14 +360,14 @@ BufferPointer WaveReader::get_data() {
         // We either read the entire buffer size,
         // or the number of bytes left in this chunk, whichever is smallest
 
-        const int buffer_bytes =
-            (this->buffer_size * this->get_channels() - read) *
+        const int64_t buffer_bytes =
+            static_cast<int64_t>(this->buffer_size * this->get_channels() - read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const int64_t chunk_bytes =
+            static_cast<int64_t>(head.chunk_size) - this->chunk_read;
 
-        int to_read = 0;
+        int64_t to_read = 0;
 
         if (chunk_bytes <= buffer_bytes) {
 
@@ -402,7 +390,7 @@ BufferPointer WaveReader::get_data() {
 
         std::vector<char> tdata(to_read);
 
-        this->stream->read(tdata.data(), to_read);
+        this->stream->read(tdata.data(), static_cast<int>(to_read));
 
         this->total_read += to_read;
 
-- 
2.43.0


From 9a90159a210122bfc40ec8743acb95cf74a8f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 10/82] fix: WaveReader skips the padding byte after chunks of
 odd size

---
 include/maec/io/wav.hpp |  8 ++++++++
 src/io/wav.cpp          | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index b8fb34b..5984b90 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -604,6 +604,14 @@ private:
      */
     void skip(uint32_t num);
 
+    /**
+     * @brief Skips the padding after the current chunk, if any
+     *
+     * Chunks are word aligned, so chunks with an odd size
+     * are followed by a byte that is not part of any chunk.
+     */
+    void skip_padding();
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 15388ad..347d704 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -302,6 +302,17 @@ void WaveReader::skip(uint32_t num) {
     }
 }
 
+void WaveReader::skip_padding() {
+
+    // Chunks with an odd size are followed by one byte of padding,
+    // (unless the file simply ends here)
+
+    if (this->head.chunk_size % 2 == 1 && !this->done()) {
+
+        this->skip(1);
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
@@ -336,6 +347,8 @@ BufferPointer WaveReader::get_data() {
 
                 this->skip(this->head.chunk_size);
 
+                this->skip_padding();
+
                 continue;
             }
 
@@ -398,6 +411,13 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // If this chunk is complete, then get past any padding:
+
+        if (this->needs_chunk) {
+
+            this->skip_padding();
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From 2d46693e944a322cc52dc926579a28649371ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 11/82] fix: WaveReader is done at once with sample formats it
 cannot decode (get_data never returned for under 8 bits)

---
 src/io/wav.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 347d704..8cdf348 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -250,6 +250,16 @@ void WaveReader::start() {
     this->set_byterate(form.byte_rate);
     this->set_blockalign(form.block_align);
     this->set_bits_per_sample(form.bits_per_sample);
+
+    // Determine if we can make sense of this audio data:
+
+    if (this->get_channels() < 1 || (this->get_bits_per_sample() != 8 &&
+                                     this->get_bits_per_sample() != 16)) {
+
+        // We can't, so there is nothing to read:
+
+        this->stop();
+    }
 }
 
 void WaveReader::stop() {
-- 
2.43.0


From c6bcaf6d8cb04b5e533278c2f8d220680f17b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 12/82] fix: WaveReader and WaveWriter can be started again
 with another stream

---
 src/io/wav.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 8cdf348..a2845f8 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -177,7 +177,14 @@ void UnknownChunk::encode(BaseMOStream& stream) {
 
 void WaveReader::start() {
 
-    // First, start the stream:
+    // First, forget about anything read before:
+
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+    this->head = ChunkHeader();
+
+    // Next, start the stream:
 
     stream->start();
 
@@ -484,7 +491,11 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
-    // First, create the wave header:
+    // First, forget about anything written before:
+
+    this->set_size(0);
+
+    // Next, create the wave header:
 
     WavHeader whead;
 
-- 
2.43.0


From 04d803bb9ed517f869cf5f2bf3c763cc969ef409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 13/82] fix: WaveWriter::start starts its stream, as documented

---
 src/io/wav.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index a2845f8..b27ef4e 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -495,6 +495,13 @@ void WaveWriter::start() {
 
     this->set_size(0);
 
+    // Start the stream, if this was not done already:
+
+    if (this->stream->get_state() != BaseMOStream::started) {
+
+        this->stream->start();
+    }
+
     // Next, create the wave header:
 
     WavHeader whead;
-- 
2.43.0


From 598b702b06f366680df5042c58862b0d83f5d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 14/82] fix: WaveSource can be constructed (its whole interface
 was private)

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 5984b90..dd02240 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -735,6 +735,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From 081cf064ae876c7024f390dcffe5bc1fc9a7f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 15/82] fix: CharOStream leaves its data alone when asked to
 write nothing past the end

---
 src/io/mstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index 3b1601c..b0e09a2 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -45,7 +45,7 @@ void CharOStream::write(char* byts, int num) {
 
     // Determine if we are past the end, if so fill the gap with zeros:
 
-    if (this->index > this->arr.size()) {
+    if (num > 0 && this->index > this->arr.size()) {
 
         this->arr.resize(this->index);
     }
-- 
2.43.0


From 80f84d890198de3852dc79647a05226d7b39e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 16/82] fix: byte rate of a wave file does not overflow int on
 hostile headers

---
 include/maec/io/wav.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index dd02240..248c1fa 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -283,7 +283,7 @@ public:
      * @param chan New channel count to set
      */
     void set_channels(int chan) { this->channels = chan;
-        this->set_byterate(this->channels * this->get_samplerate() * this->get_bytes_per_sample());
+        this->update_byterate();
         this->set_blockalign(this->channels * this->get_bytes_per_sample());
     }
 
@@ -303,7 +303,7 @@ public:
      * @param samp New samplerate to set
      */
     void set_samplerate(int samp) { this->sample_rate = samp;
-        this->set_byterate(this->sample_rate * this->get_channels() * this->get_bytes_per_sample());
+        this->update_byterate();
     }
 
     /**
@@ -372,7 +372,7 @@ public:
      * @param bps Number of bits per sample to set
      */
     void set_bits_per_sample(int bps) { this->bits_per_sample = bps; this->bytes_per_sample = bps / 8;
-        this->set_byterate(this->bytes_per_sample * this->get_samplerate() * this->get_channels());
+        this->update_byterate();
         this->set_blockalign(this->bytes_per_sample * this->get_channels());
     }
 
@@ -398,8 +398,7 @@ public:
      * @param bps Number of bytes per sample to set
      */
     void set_bytes_per_sample(int bps) { this->bytes_per_sample = bps; this->bits_per_sample = bps * 8;
-        this->set_byterate(this->bytes_per_sample * this->get_samplerate() *
-                           this->get_channels());
+        this->update_byterate();
         this->set_blockalign(this->bytes_per_sample * this->get_channels());
     }
 
@@ -423,6 +422,18 @@ public:
 
 private:
 
+    /**
+     * @brief Determines the byte rate using our other values
+     *
+     * The product of values found in a file may not fit an int,
+     * so we use a wide type.
+     */
+    void update_byterate() {
+        this->set_byterate(static_cast<int>(
+            static_cast<int64_t>(this->channels) * this->sample_rate *
+            this->bytes_per_sample));
+    }
+
     /// Format of the audio
     int format = 1;
 
-- 
2.43.0


From 4345f27903c8fafe173a9dbed6824ab2eb9e8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 17/82] fix: sources and mixers set their state also when their
 start, stop or finish is overridden

---
 include/maec/source_module.hpp | 15 ++++++++++++---
 src/module_mixer.cpp           |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..4135a2a 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+        BaseModule::start();
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +62,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+        BaseModule::stop();
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +83,8 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+        BaseModule::finish();
+        this->finish();
+    }
 };
diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..60b5358 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -92,6 +92,10 @@ void ModuleMixDown::meta_finish() {
         mod->meta_finish();
     }
 
+    // Set our state
+
+    BaseModule::finish();
+
     // Call the user defined finish method
 
     this->finish();
-- 
2.43.0


From 5cc435b7ebc3b07a9913af871cadc61a2d0cd0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 18/82] fix: a module that was never synced to a chain can be
 done (it wrote through a null pointer)

---
 src/base_module.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base_module.cpp b/src/base_module.cpp
index 4418a1a..dea8c46 100644
--- a/src/base_module.cpp
+++ b/src/base_module.cpp
@@ -69,7 +69,10 @@ void BaseModule::done() {
     // Set the state to done:
     this->state_type = State::Finished;
 
-    // Report to the chain that we are done:
+    // Report to the chain that we are done (if we are apart of one):
 
-    ++(this->chain->module_finish);
+    if (this->chain != nullptr) {
+
+        ++(this->chain->module_finish);
+    }
 }
-- 
2.43.0


From dbb25506cb2d019994ea7096fdc66678e924e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 19/82] fix: syncing a chain again counts its modules once, not
 again

---
 include/maec/sink_module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..3444c31 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -84,6 +84,10 @@ public:
      *
      */
     void info_sync() override {
+        // We are the only module known until the backward modules sync:
+
+        this->chain_instance.module_num = 1;
+
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
-- 
2.43.0


From 282fd272f4d72b4f728a75786901335bb7b72929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 20/82] fix: a copied or moved sink uses its own chain info (it
 kept a pointer into the other sink)

---
 include/maec/sink_module.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 3444c31..11d715d 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -70,6 +70,34 @@ public:
         this->set_chain_info(&chain_instance);
     }
 
+    ~SinkModule() override = default;
+
+    /// Copies and moves share OUR chain info, not the one of the other sink
+    SinkModule(const SinkModule& other)
+        : AudioModule<void, B>(other), chain_instance(other.chain_instance) {
+        this->set_chain_info(&chain_instance);
+    }
+
+    SinkModule(SinkModule&& other) noexcept
+        : AudioModule<void, B>(std::move(other)),
+          chain_instance(other.chain_instance) {
+        this->set_chain_info(&chain_instance);
+    }
+
+    SinkModule& operator=(const SinkModule& other) {
+        AudioModule<void, B>::operator=(other);
+        this->chain_instance = other.chain_instance;
+        this->set_chain_info(&chain_instance);
+        return *this;
+    }
+
+    SinkModule& operator=(SinkModule&& other) {
+        AudioModule<void, B>::operator=(std::move(other));
+        this->chain_instance = other.chain_instance;
+        this->set_chain_info(&chain_instance);
+        return *this;
+    }
+
     // void meta_info_sync() override {
 
     //     // Preform the current info sync
-- 
2.43.0


From d60fbfceba2cf2d4eaf893f49e3ead91a44812df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 21/82] fix: ModuleMixUp remembers its forward module (syncing
 info through it used a null pointer)

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 60b5358..ebe8ba2 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -173,6 +173,10 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
+
+    // Also keep it as our forward module, we sync our info from there:
+
+    AudioModule<>::forward(mod);
 }
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
-- 
2.43.0


From 5f38bd78759d92c287c8c2ef148e0002712eb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 22/82] fix: ModuleMixUp copies the whole buffer (it wrote past
 its copy with several channels)

---
 src/module_mixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index ebe8ba2..71aced5 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -186,7 +186,7 @@ AudioBuffer&& ModuleMixUp::get_buffer() {
     tbuff.set_channels(this->get_info()->channels);
     tbuff.set_samplerate(this->get_info()->sample_rate);
 
-    tbuff.resize(this->get_info()->out_buffer);
+    tbuff.resize(this->buff.size());
 
     std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
 
-- 
2.43.0


From 15b6b6d5fe30fed6d1a71a4219b5734ceec700cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 23/82] fix: Counter counts each sample once, whatever the
 number of channels

---
 src/meta_audio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..75297ca 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,8 +19,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From ac16bfbf936f593aae6e4dbe8d471dd97b2c3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 24/82] fix: BufferModule does not write past its buffer when
 the repeated one is larger

---
 src/meta_audio.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 75297ca..5491de2 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -101,6 +101,13 @@ void BufferModule::process() {
 
     this->reserve();
 
+    // Ensure the contents fit:
+
+    if (this->buff.size() < this->gbuff->size()) {
+
+        this->buff.resize(this->gbuff->size());
+    }
+
     // Next, fill it using the contents of our old buffer:
 
     std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
-- 
2.43.0


From f683e7fa061cca125f7f9fe405f56aae87854d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 25/82] fix: UniformBuffer fills all channels of its output

---
 src/meta_audio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 5491de2..f00ed7f 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -119,7 +119,9 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    const int size = static_cast<int>(this->buff.size());
+
+    while (this->index < size) {
 
         // Determine if in buffer is out of values:
 
@@ -144,7 +146,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(size - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From 29ac364de90be658f9e1c6794da19eaed53f8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 26/82] fix: LatencyModule expects the right time for audio of
 several channels

---
 src/meta_audio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index f00ed7f..757421d 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -65,7 +65,7 @@ void LatencyModule::meta_process() {
     // Get size of buffer:
 
     const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+        static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -84,7 +84,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->timer.get_channels());
 
     // Add to total latency:
 
-- 
2.43.0


From b24f6d81f6964b3d7f10f3fc9cad9b29db65b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 27/82] fix: LatencyModule::reset clears its counts too,
 averages of nothing are zero (they divided by zero or by the old count)

---
 include/maec/meta_audio.hpp | 8 ++++++--
 src/meta_audio.cpp          | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..eff2f4c 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -228,7 +228,9 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
@@ -240,7 +242,9 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 757421d..c516acd 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -31,6 +31,10 @@ void LatencyModule::reset() {
     this->total_operation_latency = 0;
     this->total_operation_time = 0;
 
+    // Clear the counts the averages are made of:
+
+    Counter::reset();
+
     // Reset chain timer:
 
     this->timer.reset();
-- 
2.43.0


From e9cc474b102aecf08e4d35dace3ea21e9851152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 28/82] fix: asking a reset ChainTimer for its samplerate does
 not divide by zero

---
 include/maec/chrono.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..b711e71 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -126,7 +126,9 @@ public:
      * @return double Current approximate samplerate
      */
     int get_samplerate() const {
-        return static_cast<int>(NANO / this->nano_frame);
+        return this->nano_frame == 0
+                   ? 0
+                   : static_cast<int>(NANO / this->nano_frame);
     }
 
     /**
-- 
2.43.0


From dc2def6b14bb3815d7206817f06d3da0ca167d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 29/82] fix: ChainTimer keeps counting past 2^31 samples

---
 include/maec/chrono.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index b711e71..92803e8 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -85,7 +85,7 @@ private:
     int channels = 1;
 
     /// Current sample
-    int sample = 0;
+    int64_t sample = 0;
 
     /// Nanoseconds per frame
     int64_t nano_frame = NANO / dsp::consts::SAMPLE_RATE;
@@ -222,7 +222,7 @@ public:
      *
      * @param samp
      */
-    void set_sample(int samp) { this->sample = samp; }
+    void set_sample(int64_t samp) { this->sample = samp; }
 
     /**
      * @brief Increments the sample
@@ -242,14 +242,14 @@ public:
      *
      * @param val Value to add to sample number
      */
-    void add_sample(int val) { this->sample += val; }
+    void add_sample(int64_t val) { this->sample += val; }
 
     /**
      * @brief Gets the current sample
      *
      * We return the current sample in this timer.
      *
-     * @return int Current sample
+     * @return int64_t Current sample
      */
-    int get_sample() const { return this->sample; }
+    int64_t get_sample() const { return this->sample; }
 };
-- 
2.43.0


From e6f78d6cf73b6802b1a27f5ec892cf6ef1b2f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 30/82] fix: chrono, mixer and wave headers can be included
 along with other headers (they lacked an include guard)

---
 include/maec/chrono.hpp       | 2 ++
 include/maec/io/wav.hpp       | 2 ++
 include/maec/module_mixer.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 92803e8..b861bb8 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -23,6 +23,8 @@
  * We measure time values in nanoseconds.
  */
 
+#pragma once
+
 #include "const.hpp"
 
 /**
diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 248c1fa..6a6170d 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -12,6 +12,8 @@
  * so modules can read and write to wave files.
  */
 
+#pragma once
+
 #include "../sink_module.hpp"
 #include "../source_module.hpp"
 #include "audio_buffer.hpp"
diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index f410fd2..69c7a7f 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -9,6 +9,8 @@
  *
  */
 
+#pragma once
+
 #include <vector>
 
 #include "audio_buffer.hpp"
-- 
2.43.0


From 2eeab44fb0bd712810775bb0afced8666601062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 31/82] fix: a constant set on a configured ModuleParam keeps
 its buffer size and channels

---
 src/module_param.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_param.cpp b/src/module_param.cpp
index 17000ce..2087d75 100644
--- a/src/module_param.cpp
+++ b/src/module_param.cpp
@@ -39,6 +39,10 @@ void ModuleParam::set_constant(double val) {
     this->const_mod = std::make_unique<ConstModule>(val);
 
     this->link(this->const_mod.get());
+
+    // The new module has to know what we are configured for:
+
+    this->meta_info_sync();
 }
 
 void ModuleParam::conf_mod(BaseModule* mod) {
-- 
2.43.0


From 65777d09304851eca29d7ad6e80a8c44d1959bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 32/82] fix: square, sawtooth and triangle stay valid (and in
 range) with negative phase or frequency

---
 src/fund_oscillator.cpp | 52 +++++++++++++----------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..bc4b96b 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -16,6 +16,13 @@
 
 const double TWO_PI = 2.0 * std::numbers::pi_v<double>;
 
+namespace {
+
+/// Position inside of the current period, also with a negative phase
+double period_pos(double phase) { return phase - std::floor(phase); }
+
+}  // namespace
+
 void SineOscillator::process() {
 
     // Create a new buffer:
@@ -46,10 +53,6 @@ void SquareOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -58,9 +61,8 @@ void SquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf((this->get_frequency() * this->get_phase() /
-                       this->buff.get_samplerate()),
-                      &placeholder) < 0.5)
+        *iter = (period_pos((this->get_frequency() * this->get_phase() /
+                       this->buff.get_samplerate())) < 0.5)
                     ? 1.0
                     : -1.0;
 
@@ -76,10 +78,6 @@ void SawtoothOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -88,10 +86,9 @@ void SawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf(((this->get_frequency() * this->get_phase() /
+        *iter = (2.0 * period_pos(((this->get_frequency() * this->get_phase() /
                               this->buff.get_samplerate()) +
-                             0.5),
-                            &placeholder)) -
+                             0.5))) -
                 1.0;
 
         // Increment the phase:
@@ -106,10 +103,6 @@ void TriangleOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -118,9 +111,8 @@ void TriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf((this->get_frequency() * this->get_phase() /
-                            this->buff.get_samplerate()),
-                           &placeholder);
+        double temp = period_pos((this->get_frequency() * this->get_phase() /
+                            this->buff.get_samplerate()));
 
         if (temp < 0.25) {
             temp *= 4.0;
@@ -190,10 +182,6 @@ void ModSquareOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -202,7 +190,7 @@ void ModSquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf(this->get_phase(), &placeholder) < 0.5) ? 1.0 : -1.0;
+        *iter = (period_pos(this->get_phase()) < 0.5) ? 1.0 : -1.0;
 
         // Get frequency value:
 
@@ -228,10 +216,6 @@ void ModSawtoothOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -240,7 +224,7 @@ void ModSawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf((this->get_phase() + 0.5), &placeholder)) - 1.0;
+        *iter = (2.0 * period_pos((this->get_phase() + 0.5))) - 1.0;
 
         // Get the frequency value:
 
@@ -266,10 +250,6 @@ void ModTriangleOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -278,7 +258,7 @@ void ModTriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf(this->get_phase(), &placeholder);
+        double temp = period_pos(this->get_phase());
 
         if (temp < 0.25) {
             temp *= 4.0;
-- 
2.43.0


From a2bcf79112d37cd4186a843c0316b681671fdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 33/82] fix: oscillators play the same wave at the set
 frequency on all channels (the phase ran on from channel to channel)

---
 src/fund_oscillator.cpp | 56 +++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index bc4b96b..1b34856 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -41,9 +41,12 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -66,9 +69,12 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -91,9 +97,12 @@ void SawtoothOscillator::process() {
                              0.5))) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -128,9 +137,12 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -162,9 +174,12 @@ void ModSineOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once all channels of this frame are done:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -196,9 +211,12 @@ void ModSquareOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once all channels of this frame are done:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -230,9 +248,12 @@ void ModSawtoothOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once all channels of this frame are done:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -278,8 +299,11 @@ void ModTriangleOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once all channels of this frame are done:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() == static_cast<int>(this->buff.channels()) - 1) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 4daeeb94054c6fd9f4dcf085e9deae12b433cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 34/82] fix: moved modulated oscillators and parameters refer
 to themselves (a static chain kept pointers into the temporary)

---
 include/maec/base_oscillator.hpp | 15 +++++++++++++++
 include/maec/module_param.hpp    | 23 +++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/maec/base_oscillator.hpp b/include/maec/base_oscillator.hpp
index a84902f..dd51c9c 100644
--- a/include/maec/base_oscillator.hpp
+++ b/include/maec/base_oscillator.hpp
@@ -132,6 +132,21 @@ public:
     BaseModulatedOscillator(double freqv)
         : ParamSource<1>(&freq), freq(freqv) {}
 
+    /// A moved oscillator works with its own parameter
+    BaseModulatedOscillator(BaseModulatedOscillator&& other) noexcept
+        : ParamSource<1>(&freq),
+          phase(other.phase),
+          freq(std::move(other.freq)) {
+        SourceModule::operator=(std::move(other));
+    }
+
+    BaseModulatedOscillator& operator=(BaseModulatedOscillator&& other) {
+        SourceModule::operator=(std::move(other));
+        this->phase = other.phase;
+        this->freq = std::move(other.freq);
+        return *this;
+    }
+
     /**
      * @brief Gets the frequency parameter
      *
diff --git a/include/maec/module_param.hpp b/include/maec/module_param.hpp
index 2583f28..7b49caa 100644
--- a/include/maec/module_param.hpp
+++ b/include/maec/module_param.hpp
@@ -69,6 +69,13 @@
 class ModuleParam : public SinkModule<> {
 
 private:
+    /// Links our constant module, if any, to us
+    void relink_constant() {
+        if (this->const_mod != nullptr) {
+            this->link(this->const_mod.get());
+        }
+    }
+
     /// A constant value to be returned
     double value = 0;
 
@@ -99,6 +106,22 @@ public:
      */
     ModuleParam(AudioModule<>* imod) { this->link(imod); }
 
+    /// Moving keeps the constant linked to us, not to the moved parameter
+    ModuleParam(ModuleParam&& other) noexcept
+        : SinkModule<>(std::move(other)),
+          value(other.value),
+          const_mod(std::move(other.const_mod)) {
+        this->relink_constant();
+    }
+
+    ModuleParam& operator=(ModuleParam&& other) {
+        SinkModule<>::operator=(std::move(other));
+        this->value = other.value;
+        this->const_mod = std::move(other.const_mod);
+        this->relink_constant();
+        return *this;
+    }
+
     /**
      * @brief Gets the current buffer
      *
-- 
2.43.0


From 0646f55f0164aaf8b7360d2461504b7fb2f4bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 35/82] fix: SetValue keeps returning the stop value after its
 end (it wrote before and past its buffer), also with several channels

---
 src/envelope.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..452713b 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -11,6 +11,7 @@
 
 #include "envelope.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include "audio_buffer.hpp"
@@ -68,10 +69,13 @@ void SetValue::process() {
 
     // Determine the number of values to be initial:
 
-    auto size = this->buff.size();
+    auto size = static_cast<int64_t>(this->buff.size());
+
+    // (remaining samples are per channel, and negative once we are complete)
 
     int64_t initial =
-        std::min(this->remaining_samples(), static_cast<int64_t>(size));
+        std::clamp(this->remaining_samples() * this->get_timer()->get_channels(),
+                   static_cast<int64_t>(0), size);
 
     // Determine the number of values to be final:
 
@@ -85,7 +89,7 @@ void SetValue::process() {
 
     // Set the time:
 
-    this->get_timer()->add_sample(static_cast<int>(size));
+    this->get_timer()->add_sample(size);
 }
 
 void ExponentialRamp::process() {
-- 
2.43.0


From 0ac8c9eb81f5258104d1ae2405e83d323df84f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 36/82] fix: ExponentialRamp starting at zero reaches its stop
 value (it stayed at zero)

---
 src/envelope.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 452713b..c915b80 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -106,7 +106,10 @@ void ExponentialRamp::process() {
 
         // Determine value at current time:
 
-        *iter = this->get_start_value() *
+        // (a start value of zero is replaced with a very low value)
+
+        *iter = (this->get_start_value() != 0 ? this->get_start_value()
+                                              : SMALL) *
                 std::pow<double, double>(
                     this->val_divide(),
                     static_cast<double>(this->get_time_inc() -
-- 
2.43.0


From 037eca8542db831821fed46b9020b8b60feff692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 37/82] fix: ChainEnvelope handles several channels and stop
 times between frames (it looped forever or passed negative sizes)

---
 src/envelope.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index c915b80..b756785 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -263,6 +263,7 @@ void ChainEnvelope::process() {
         AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels,
                     this->get_info()->sample_rate);
 
+    const int channels = this->get_info()->channels;
     int processed = 0;
 
     // Iterate until buffer is full:
@@ -271,17 +272,34 @@ void ChainEnvelope::process() {
 
         int num = this->get_info()->out_buffer - processed;
 
-        // First, determine the number of samples current envelope will output:
+        // First, determine the number of frames current envelope will output:
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            // Determine the frames until the stop time is reached
+            // (a frame that starts before the stop time is still ours):
+
+            const int64_t left =
+                this->current->get_stop_time() - this->get_time();
+
+            if (left <= 0) {
+
+                // Envelope is already complete, get a new envelope:
+
+                this->next_envelope();
+
+                continue;
+            }
+
+            num = static_cast<int>(std::min(
+                static_cast<int64_t>(num),
+                (left - 1) / this->get_timer()->get_npf() + 1));
         }
 
         // Set size of current envelope to num value:
 
         this->current->get_info()->out_buffer = num;
+        this->current->get_info()->channels = channels;
 
         // Grab buffer from current envelope:
 
@@ -291,15 +309,16 @@ void ChainEnvelope::process() {
 
         // First, fill it with contents of first envelope:
 
-        std::copy_n(cbuff.ibegin(), num, tbuff.ibegin() + processed);
+        std::copy_n(cbuff.ibegin(), num * channels,
+                    tbuff.ibegin() + processed * channels);
 
-        // Update the number of samples processed:
+        // Update the number of frames processed:
 
         processed += num;
 
         // Update the timer:
 
-        this->get_timer()->add_sample(num);
+        this->get_timer()->add_sample(num * channels);
 
         if (this->current->get_stop_time() >= 0 &&
             this->get_time() >= this->current->get_stop_time()) {
-- 
2.43.0


From f15f6dd2ebd834f0346b29a789815e3c94fd49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 38/82] fix: ChainEnvelope does not keep using the end envelope
 it freed when another one is added

---
 src/envelope.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index b756785..f9b893a 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -153,6 +153,10 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
         this->inter.pop_back();
     }
 
+    // Determine if we are working with the value we just removed:
+
+    const bool removed = this->env_index >= static_cast<int>(this->envs.size());
+
     // Add the envelope to the collection:
 
     this->envs.push_back(env);
@@ -160,6 +164,15 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     // Optimize?
 
     this->optimize();
+
+    if (removed) {
+
+        // Work with the envelope that took its place:
+
+        --(this->env_index);
+
+        this->next_envelope();
+    }
 }
 
 void ChainEnvelope::optimize() {
-- 
2.43.0


From 8ac5a713f01c9120076317867909dc0587b61e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 39/82] fix: ChainEnvelope returns its start value until the
 first envelope starts, as documented

---
 src/envelope.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index f9b893a..c1aa305 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -177,6 +177,14 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
 void ChainEnvelope::optimize() {
 
+    // Determine if we need to fill in the time before the first envelope:
+
+    if (this->can_optimize && !this->envs.empty() &&
+        this->envs.front()->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Iterate until all modules are optimized:
 
     int size = static_cast<int>(this->envs.size()) - 1;
-- 
2.43.0


From 7a55da77c644aeb2f85d09cc6bd3f5a94c2fd4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 40/82] fix: ChainEnvelope can be started again or without
 envelopes, and stays on its last one (it indexed past its end)

---
 include/maec/envelope.hpp |  4 +++-
 src/envelope.cpp          | 25 +++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..9a71571 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -521,8 +521,10 @@ public:
     /**
      * @brief Start method
      *
+     * We begin at the first envelope in the chain.
+     *
      */
-    void start() override { this->next_envelope(); }
+    void start() override;
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
diff --git a/src/envelope.cpp b/src/envelope.cpp
index c1aa305..9b5b6a7 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -265,11 +265,32 @@ void ChainEnvelope::create_internal(int index) {
     this->inter.push_back(std::move(interp));
 }
 
+void ChainEnvelope::start() {
+
+    // Ensure we have something to return:
+
+    if (this->envs.empty()) {
+
+        this->optimize();
+    }
+
+    // Begin at the first envelope:
+
+    this->env_index = -1;
+
+    this->next_envelope();
+}
+
 void ChainEnvelope::next_envelope() {
 
-    // Grab the next envelope:
+    // Grab the next envelope (the last one is followed by nothing):
+
+    if (this->env_index + 1 < static_cast<int>(this->envs.size())) {
+
+        ++(this->env_index);
+    }
 
-    this->current = this->envs[++(this->env_index)];
+    this->current = this->envs[this->env_index];
 
     // Set their chain timer to ours:
 
-- 
2.43.0


From bbbdc2305264e05ea3bb1395dbf978417a486acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 41/82] fix: ADSREnvelope plays (its start never began an
 envelope, with wrong decay and sustain times; its finish did nothing)

---
 include/maec/envelope.hpp |  24 +++++++++
 src/envelope.cpp          | 108 +++++++++++++++++++++++++++++++-------
 2 files changed, 112 insertions(+), 20 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 9a71571..a1fcaba 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -493,6 +493,15 @@ public:
      */
     void add_envelope(BaseEnvelope* env);
 
+    /**
+     * @brief Removes all envelopes from this collection
+     *
+     * Envelopes must be added and this chain must be started
+     * before it can be processed again.
+     *
+     */
+    void clear();
+
     /**
      * @brief Gets the current envelope
      *
@@ -575,6 +584,12 @@ private:
     /// Collection for keeping envelopes:
     Collection<BaseEnvelope> envs;
 
+    /// Time the key was pressed (we were started)
+    int64_t pressed = 0;
+
+    /// Adds a linear ramp to this envelope, and keeps it
+    void add_ramp(double startv, double stopv, int64_t startt, int64_t stopt);
+
 public:
     ADSREnvelope() = default;
 
@@ -664,4 +679,13 @@ public:
      *
      */
     void finish() override;
+
+    /**
+     * @brief Process this envelope
+     *
+     * We process the current envelope,
+     * and we are done once we finished ramping down to zero.
+     *
+     */
+    void process() override;
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 9b5b6a7..2319670 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -281,6 +281,20 @@ void ChainEnvelope::start() {
     this->next_envelope();
 }
 
+void ChainEnvelope::clear() {
+
+    // Forget all envelopes:
+
+    this->envs.clear();
+    this->inter.clear();
+
+    // Return to our initial state:
+
+    this->env_index = -1;
+    this->optimized = 0;
+    this->current = nullptr;
+}
+
 void ChainEnvelope::next_envelope() {
 
     // Grab the next envelope (the last one is followed by nothing):
@@ -376,48 +390,102 @@ void ChainEnvelope::process() {
     this->set_buffer(std::move(tbuff));
 }
 
+void ADSREnvelope::add_ramp(double startv, double stopv, int64_t startt,
+                            int64_t stopt) {
+
+    // Create the ramp:
+
+    std::unique_ptr<BaseEnvelope> ramp = std::make_unique<LinearRamp>();
+
+    ramp->set_start_value(startv);
+    ramp->set_stop_value(stopv);
+    ramp->set_start_time(startt);
+    ramp->set_stop_time(stopt);
+
+    // Add it, and keep it:
+
+    this->add_envelope(ramp.get());
+    this->envs.add_object(ramp);
+}
+
 void ADSREnvelope::start() {
 
-    // Add linear ramp for attack:
+    // Forget ramps of previous starts:
 
-    std::unique_ptr<BaseEnvelope> att = std::make_unique<LinearRamp>();
+    this->clear();
+    this->envs.clear();
 
-    att->set_start_value(0);
-    att->set_stop_value(1);
-    att->set_start_time(0);
-    att->set_stop_time(this->attack);
+    // The key is pressed now:
 
-    this->add_envelope(att.get());
-    this->envs.add_object(att);
+    this->pressed = this->get_time();
 
-    // Add linear ramp for decay:
+    // Add linear ramp for attack:
 
-    std::unique_ptr<BaseEnvelope> dec = std::make_unique<LinearRamp>();
+    this->add_ramp(0, 1, this->pressed, this->pressed + this->attack);
 
-    dec->set_start_value(1);
-    dec->set_stop_value(this->sustain);
-    dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    // Add linear ramp for decay:
 
-    this->add_envelope(dec.get());
-    this->envs.add_object(dec);
+    this->add_ramp(1, this->sustain, this->pressed + this->attack,
+                   this->pressed + this->attack + this->decay);
 
-    // Add constant ramp for sustain:
+    // Add constant envelope for sustain:
 
     std::unique_ptr<BaseEnvelope> sus = std::make_unique<ConstantEnvelope>();
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(this->pressed + this->attack + this->decay);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Begin at the first envelope:
+
+    ChainEnvelope::start();
 }
 
 void ADSREnvelope::finish() {
 
-    // Ca
+    // Determine the current value:
+
+    const int64_t time = this->get_time();
+    const int64_t passed = time - this->pressed;
+    double value = this->sustain;
+
+    if (passed < this->attack) {
+
+        value = static_cast<double>(passed) / static_cast<double>(this->attack);
+    }
+
+    else if (passed < this->attack + this->decay) {
+
+        value = 1 + (this->sustain - 1) *
+                        (static_cast<double>(passed - this->attack) /
+                         static_cast<double>(this->decay));
+    }
+
+    // Ramp down to zero from there:
+
+    this->clear();
+    this->envs.clear();
+
+    this->add_ramp(value, 0, time, time + this->release);
+
+    ChainEnvelope::start();
+}
+
+void ADSREnvelope::process() {
+
+    // Process the current envelope:
+
+    ChainEnvelope::process();
+
+    // Determine if the release is complete:
+
+    if (this->get_state() == BaseModule::State::Finishing &&
+        this->get_current()->get_stop_time() < 0) {
+
+        this->done();
+    }
 }
-- 
2.43.0


From 9d6323ae315ff440ee0830d9278b592c2d931f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 42/82] fix: ParallelModule::stop cannot be missed by a thread
 about to wait (it hung in join)

---
 include/maec/parallel.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..f745f74 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -197,9 +197,15 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
+        {
+            // We grab the lock so a thread that is about to wait
+            // can't miss our notification.
+            std::lock_guard<std::mutex> lock(qmut);
 
-        done = true;
+            // Set the done value to be true
+
+            done = true;
+        }
 
         // Notify all condition variables
 
-- 
2.43.0


From f21c825adbf60f46c6b19b6639f63fa3a480cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 43/82] fix: ParallelModule fills its queue up to a raised
 limit (the waiting thread was not told)

---
 include/maec/parallel.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index f745f74..1fb5370 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -129,7 +129,18 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+
+            qsize = size;
+        }
+
+        // There may be space for more values now
+
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
-- 
2.43.0


From 9d524c6fd4a81767fa7108415305ccb970b2b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 44/82] fix: ParallelModule can be destroyed or started again
 while it runs (std::terminate)

---
 include/maec/parallel.hpp | 66 +++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 1fb5370..7c2b3d9 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -106,9 +106,45 @@ private:
         }
     }
 
+    /**
+     * @brief Asks the thread to stop, and waits for it
+     *
+     */
+    void stop_thread() {
+
+        {
+            // We grab the lock so a thread that is about to wait
+            // can't miss our notification.
+            std::lock_guard<std::mutex> lock(qmut);
+
+            // Set the done value to be true
+
+            done = true;
+        }
+
+        // Notify all condition variables
+
+        this->cv.notify_all();
+
+        // Join the thread and wait for completion if possible.
+        if (this->thread.joinable()) {
+            // If stop() is being called from the worker thread itself,
+            // attempting to join would cause a resource deadlock. In that
+            // case detach the std::thread object instead to avoid throwing.
+            if (this->thread.get_id() != std::this_thread::get_id()) {
+                this->thread.join();
+            } else {
+                this->thread.detach();
+            }
+        }
+    }
+
 public:
     ParallelModule() = default;
 
+    /// Destructor, stops the thread if it is still running
+    ~ParallelModule() override { this->stop_thread(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -169,6 +205,10 @@ public:
 
         AudioModule<>::start();
 
+        // Ensure a previous thread is done
+
+        this->stop_thread();
+
         {
             // We grab the lock to ensure our next operation
             // on the queue is valid.
@@ -208,31 +248,9 @@ public:
 
         AudioModule<>::stop();
 
-        {
-            // We grab the lock so a thread that is about to wait
-            // can't miss our notification.
-            std::lock_guard<std::mutex> lock(qmut);
-
-            // Set the done value to be true
+        // Stop the thread, and wait for it
 
-            done = true;
-        }
-
-        // Notify all condition variables
-
-        this->cv.notify_all();
-
-        // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
-        }
+        this->stop_thread();
     }
 
     /**
-- 
2.43.0


From 49ed210e88eb10f5c018f967026c905104fe571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 45/82] fix: ParallelModule does not change the state of
 modules its thread is processing (data race on stop, finish and sync)

---
 include/maec/parallel.hpp | 65 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 7c2b3d9..7d07d45 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -57,6 +57,9 @@ private:
     /// Condition variable to determine if we can add to cache
     std::condition_variable cv;
 
+    /// Mutex for mutual exclusion to the backwards modules
+    std::recursive_mutex bmut;
+
     /// Mutex for mutual exclusion to queue
     mutable std::mutex qmut;
 
@@ -93,12 +96,18 @@ private:
             lock.unlock();
 
             // Process the backwards module without holding the queue lock.
+            std::unique_lock<std::recursive_mutex> block(bmut);
+
             this->backward().meta_process();
 
+            AudioBuffer produced(this->backward().get_buffer());
+
+            block.unlock();
+
             // Re-acquire the lock to push the produced buffer.
             lock.lock();
 
-            queue.emplace_back(std::move(this->backward().get_buffer()));
+            queue.emplace_back(std::move(produced));
 
             // Unlock and notify consumers that there's data available.
             lock.unlock();
@@ -253,6 +262,60 @@ public:
         this->stop_thread();
     }
 
+    /**
+     * @brief Custom meta start operation
+     *
+     * We stop our thread BEFORE the backwards modules are started,
+     * as it could be processing them if we are started again.
+     *
+     */
+    void meta_start() override {
+
+        this->stop_thread();
+
+        AudioModule<>::meta_start();
+    }
+
+    /**
+     * @brief Custom meta stop operation
+     *
+     * We stop our thread BEFORE the backwards modules are stopped,
+     * as it could be processing them.
+     *
+     */
+    void meta_stop() override {
+
+        this->stop_thread();
+
+        AudioModule<>::meta_stop();
+    }
+
+    /**
+     * @brief Custom meta finish operation
+     *
+     * We ensure the backwards modules are not being processed.
+     *
+     */
+    void meta_finish() override {
+
+        std::lock_guard<std::recursive_mutex> lock(bmut);
+
+        AudioModule<>::meta_finish();
+    }
+
+    /**
+     * @brief Custom meta info sync operation
+     *
+     * We ensure the backwards modules are not being processed.
+     *
+     */
+    void meta_info_sync() override {
+
+        std::lock_guard<std::recursive_mutex> lock(bmut);
+
+        AudioModule<>::meta_info_sync();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From 7ab42d2d7fc929d113b5f9006f84fab4760cb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 46/82] fix: modules that are done at the same time in parallel
 chains are all counted (unsynchronised increment)

---
 src/base_module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base_module.cpp b/src/base_module.cpp
index dea8c46..0ba51c2 100644
--- a/src/base_module.cpp
+++ b/src/base_module.cpp
@@ -11,6 +11,8 @@
 
 #include "base_module.hpp"
 
+#include <atomic>
+
 #include "audio_buffer.hpp"
 
 void BaseModule::reserve() {
@@ -73,6 +75,8 @@ void BaseModule::done() {
 
     if (this->chain != nullptr) {
 
-        ++(this->chain->module_finish);
+        // (modules may be processed in parallel, none should be missed)
+
+        ++std::atomic_ref<int>(this->chain->module_finish);
     }
 }
-- 
2.43.0


From 1c4ff46067b1734b7c64672ec029d9970d9246ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 47/82] fix: conv_fft compiles, and pads to the size its FFT
 needs (it transformed the signals unpadded)

---
 include/maec/dsp/conv.hpp | 45 ++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index d72b35a..f68360b 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -26,7 +26,13 @@
 
 #pragma once
 
+#include <algorithm>
+#include <complex>
+#include <vector>
+
 #include "audio_buffer.hpp"
+#include "dsp/ft.hpp"
+#include "dsp/util.hpp"
 
 namespace dsp::conv {
 
@@ -293,35 +299,48 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
 
-    std::vector<double> pinput(output_size);
-    std::vector<double> pkernel(output_size);
+    // (the FFT requires a size that is a power of two)
+
+    int fft_size = 2;
+
+    while (fft_size < output_size) {
+
+        fft_size *= 2;
+    }
+
+    std::vector<double> pinput(fft_size);
+    std::vector<double> pkernel(fft_size);
 
     // Fill normal content:
 
     std::copy_n(input, input_size, pinput.begin());
     std::copy_n(kernel, kernel_size, pkernel.begin());
 
-    // Fill in zero components:
-
-    std::fill_n(pinput.begin() + input_size, output_size - input_size, 0.0);
-    std::fill_n(pkernel.begin() + kernel_size, output_size - kernel_size, 0.0);
+    // (zero components are in place already)
 
     // For now, define array for output data:
 
-    std::vector<std::complex<double>> infp(output_size);
-    std::vector<std::complex<double>> kernfp(output_size);
-    std::vector<std::complex<double>> outf(output_size);
+    const int freq_size = static_cast<int>(dsp::ft::length_ft(fft_size));
+
+    std::vector<std::complex<double>> infp(freq_size);
+    std::vector<std::complex<double>> kernfp(freq_size);
+    std::vector<std::complex<double>> outf(freq_size);
 
-    fft_r_radix2(input, input_size, infp.begin());
-    fft_r_radix2(kernel, kernel_size, kernfp.begin());
+    dsp::ft::fft_r_radix2(pinput.begin(), fft_size, infp.begin());
+    dsp::ft::fft_r_radix2(pkernel.begin(), fft_size, kernfp.begin());
 
     // Multiply signals:
 
-    util::multiply_signals(output_size, infp.begin(), kernfp.begin(), outf.begin());
+    dsp::util::multiply_signals(freq_size, infp.begin(), kernfp.begin(),
+                                outf.begin());
 
     // Send inputs back through inverse FFT:
 
-    ifft_r_radix2(outf.begin(), output_size, output);
+    dsp::ft::ifft_r_radix2(outf.begin(), freq_size, pinput.begin());
+
+    // Finally, keep the values we need:
+
+    std::copy_n(pinput.begin(), output_size, output);
 }
 
 }  // namespace dsp::conv
-- 
2.43.0


From 3f5bf3871c17f09ddd6b7102626b67f4b03d21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 48/82] fix: the convolution with an empty signal is empty (its
 length was -1 or more than zero)

---
 src/dsp/conv.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/conv.cpp b/src/dsp/conv.cpp
index 8b735d0..cced369 100644
--- a/src/dsp/conv.cpp
+++ b/src/dsp/conv.cpp
@@ -13,6 +13,13 @@
 
 int dsp::conv::length_conv(int size1, int size2) {
 
+    // Nothing comes out if nothing goes in:
+
+    if (size1 == 0 || size2 == 0) {
+
+        return 0;
+    }
+
     // Calculate and return:
 
     return size1 + size2 - 1;
@@ -22,7 +29,7 @@ int dsp::conv::length_conv(std::size_t size1, std::size_t size2) {
 
     // Calculate and return:
 
-    return static_cast<int>(size1) + static_cast<int>(size2) - 1;
+    return length_conv(static_cast<int>(size1), static_cast<int>(size2));
 }
 
 BufferPointer dsp::conv::input_conv(BufferPointer input, BufferPointer kernel) {
-- 
2.43.0


From b0db0c430ac4f336fbb032a8012cb4214701d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 49/82] fix: convolution of buffers keeps channels apart and
 the sample rate (channels were convolved with each other)

---
 src/dsp/conv.cpp | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/dsp/conv.cpp b/src/dsp/conv.cpp
index cced369..5ca0a14 100644
--- a/src/dsp/conv.cpp
+++ b/src/dsp/conv.cpp
@@ -11,6 +11,9 @@
 
 #include "dsp/conv.hpp"
 
+#include <algorithm>
+#include <utility>
+
 int dsp::conv::length_conv(int size1, int size2) {
 
     // Nothing comes out if nothing goes in:
@@ -34,30 +37,44 @@ int dsp::conv::length_conv(std::size_t size1, std::size_t size2) {
 
 BufferPointer dsp::conv::input_conv(BufferPointer input, BufferPointer kernel) {
 
-    // First, create an output buffer:
+    // Determine the number of frames and channels of each signal:
 
-    BufferPointer buff = std::make_unique<AudioBuffer>(length_conv(static_cast<int>(input->size()), static_cast<int>(kernel->size())));
+    const std::size_t isize = input->channel_capacity();
+    const std::size_t ksize = kernel->channel_capacity();
+    const std::size_t channels = std::max(input->channels(), kernel->channels());
 
-    // Pass the data along to the other function:
+    // First, create an output buffer:
 
-    dsp::conv::input_conv(input->ibegin(), input->size(), kernel->ibegin(), kernel->size(), buff->ibegin());
+    BufferPointer buff = std::make_unique<AudioBuffer>(
+        length_conv(isize, ksize), static_cast<int>(channels),
+        input->get_samplerate());
 
-    // Finally, return the output buffer:
+    // Convolve each channel on its own
+    // (a signal with less channels is used for all of them):
 
-    return buff;
-}
+    for (std::size_t chan = 0; chan < channels; ++chan) {
 
-BufferPointer dsp::conv::output_conv(BufferPointer input, BufferPointer kernel) {
+        auto iiter = input->sbegin();
+        auto kiter = kernel->sbegin();
+        auto oiter = buff->sbegin();
 
-    // First, create an output buffer:
+        iiter.set_channel(static_cast<int>(chan % input->channels()));
+        kiter.set_channel(static_cast<int>(chan % kernel->channels()));
+        oiter.set_channel(static_cast<int>(chan));
 
-    BufferPointer buff = std::make_unique<AudioBuffer>(length_conv(static_cast<int>(input->size()), static_cast<int>(kernel->size())));
+        // Pass the data along to the other function:
 
-    // Pass the data along to other function:
-
-    dsp::conv::input_conv(input->ibegin(), input->size(), kernel->ibegin(), kernel->size(), buff->ibegin());
+        dsp::conv::input_conv(iiter, isize, kiter, ksize, oiter);
+    }
 
     // Finally, return the output buffer:
 
     return buff;
 }
+
+BufferPointer dsp::conv::output_conv(BufferPointer input, BufferPointer kernel) {
+
+    // The result is the same, so work with the other function:
+
+    return dsp::conv::input_conv(std::move(input), std::move(kernel));
+}
-- 
2.43.0


From c8d47ef1968562eef69b21d32897d47de0bcdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 50/82] fix: iir.hpp can be included in several files (freq_map
 was defined in each)

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..c49856a 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -43,7 +43,7 @@ namespace dsp::iir {
  * @param sra Sample rate in hertz
  * @return double Mapped frequency in radians from -pi to pi
  */
-double freq_map(double freq, double sra) {
+inline double freq_map(double freq, double sra) {
 
     return dsp::consts::pi_2 * (freq / sra);
 }
-- 
2.43.0


From 39fbb157035957e0f06c6399695d5308f6d85a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 51/82] fix: freq_response is the response of the filter with
 these coefficients (A and B were swapped, delays and signs wrong)

---
 include/maec/dsp/iir.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index c49856a..5835a76 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -86,18 +86,20 @@ std::complex<double> freq_response(double rad, const A& acoes, const B& bcoes) {
 
     std::complex<double> num = 0;
 
-    for (std::size_t j = 0; j < bcoes.size(); ++j) {
+    for (std::size_t j = 0; j < acoes.size(); ++j) {
 
-        num += bcoes[j] * std::exp(j * rad * 1i);
+        num += acoes[j] * std::exp(static_cast<double>(j) * rad * -1i);
     }
 
     // Next compute the denominator
 
     std::complex<double> denom = 1;
 
-    for (std::size_t j = 0; j < acoes.size(); ++j) {
+    // (the first B coefficient is applied to the previous output)
+
+    for (std::size_t j = 0; j < bcoes.size(); ++j) {
 
-        denom += acoes[j] * std::exp(j * rad * 1i);
+        denom -= bcoes[j] * std::exp(static_cast<double>(j + 1) * rad * -1i);
     }
 
     // The result will be the division between the two
-- 
2.43.0


From 8c75d789af3acbf46528a99bd9137072ac0b0427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 52/82] fix: IIRFilter feeds back the previous outputs in order
 (with several poles it read the slot of the oldest first)

---
 include/maec/dsp/iir.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 5835a76..db20840 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -233,7 +233,9 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            // (the first one belongs to the previous output)
+
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
-- 
2.43.0


From 7b1f7ad2aea0018c617d0e0b1b8e1dd600339d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 53/82] fix: IIRFilter has room for its values after set_asize
 and set_bsize, and without A or B poles (it divided by zero)

---
 include/maec/dsp/iir.hpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index db20840..b36d2f6 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstddef>
@@ -249,7 +250,7 @@ private:
     }
 
 public:
-    IIRFilter() = default;
+    IIRFilter() { this->reserve(); }
 
     IIRFilter(int asize, int bsize) : acoes(asize), bcoes(bsize) {
         this->reserve();
@@ -268,12 +269,26 @@ public:
         // Resize the input and output buffers to the size of the number of
         // poles:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        // (even a filter without A or B poles has a current value)
+
+        const std::size_t isize =
+            std::max(this->acoes.size(), static_cast<std::size_t>(1));
+        const std::size_t osize =
+            std::max(this->bcoes.size(), static_cast<std::size_t>(1));
+
+        if (this->inputs.size() == isize && this->outputs.size() == osize) {
+
+            // Nothing changed, keep the previous values
+
+            return;
+        }
+
+        this->inputs = dsp::buff::RingBuffer<T>(isize);
+        this->outputs = dsp::buff::RingBuffer<T>(osize);
 
         // The index should be the max of the number of A and B poles:
 
-        this->index = std::max(this->acoes.size(), this->bcoes.size());
+        this->index = std::max(isize, osize);
     }
 
     /**
@@ -288,7 +303,10 @@ public:
      *
      * @param size New number of A coefficients
      */
-    void set_asize(int size) { this->acoes.resize(size); }
+    void set_asize(int size) {
+        this->acoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Gets the number of B coefficients
@@ -302,7 +320,10 @@ public:
      *
      * @param size New number of B coefficients
      */
-    void set_bsize(int size) { this->bcoes.resize(size); }
+    void set_bsize(int size) {
+        this->bcoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Retrieves a start iterator for the A coefficient vector
-- 
2.43.0


From adaa348f044621fa9f8b7c6eafb51f266f8b98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 54/82] fix: SinglePole uses its cutoff as a fraction of the
 sample rate, and feeds back the right value as high pass

---
 include/maec/dsp/iir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index b36d2f6..61d0972 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -667,7 +667,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -688,14 +688,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From 9887178ca3618c89831e9da47ad01bdc99c9521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 55/82] fix: IIR filters start as low pass at the default
 sample rate (the type was uninitialised, frequencies were divided by zero)

---
 include/maec/dsp/iir.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 61d0972..983f727 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -475,7 +475,7 @@ class BaseIIRImplementation : public IIRFilter<T> {
 
 private:
     /// Sample rate
-    int sample_rate = 0;
+    int sample_rate = static_cast<int>(dsp::consts::SAMPLE_RATE);
 
     /// Lower frequency cutoff
     double freq_high = 0.;
@@ -484,7 +484,7 @@ private:
     double freq_low = 0.;
 
     /// Filter type
-    dsp::consts::FilterType type;
+    dsp::consts::FilterType type = dsp::consts::FilterType::LowPass;
 
 public:
     /**
-- 
2.43.0


From 0928b1ebdc22a3bb32317d606d605507c7ecd486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 56/82] fix: IIRFilter keeps its position in its history after
 2^31 samples (the index overflowed int)

---
 include/maec/dsp/iir.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 983f727..67569e1 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -244,6 +244,15 @@ private:
 
         outputs[index++] = final_value;
 
+        // Go back by a multiple of both sizes before the index gets large:
+
+        const std::size_t period = inputs.size() * outputs.size();
+
+        if (index >= 2 * period) {
+
+            index -= period;
+        }
+
         // Finally, return final value:
 
         return final_value;
-- 
2.43.0


From 75d57a6e445af85855379c7f4baf3a9485266887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 57/82] fix: windows of one value are one (they divided zero by
 zero)

---
 src/dsp/window.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dsp/window.cpp b/src/dsp/window.cpp
index d793215..bba6c5c 100644
--- a/src/dsp/window.cpp
+++ b/src/dsp/window.cpp
@@ -23,6 +23,13 @@ double dsp::win::window_rectangle(int, int) {  // NOLINT: Parameters not used in
 
 double dsp::win::window_hann(int num, int size, double a0) {
 
+    // A single value is the center of the window:
+
+    if (size <= 1) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return a0 - ((1 - a0) *
@@ -38,6 +45,13 @@ double dsp::win::window_hamming(int num, int size, double a0) {
 
 double dsp::win::window_blackmanc(int num, int size, double alpha) {
 
+    // A single value is the center of the window:
+
+    if (size <= 1) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return ((1 - alpha) / 2) -
-- 
2.43.0


From 980771aba3a3507a52cd7cafe794ac98a71c7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 58/82] fix: sinc_kernel fills kernels of even size (the middle
 was left out), and of frequency zero (they were NaN)

---
 include/maec/dsp/kernel.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/maec/dsp/kernel.hpp b/include/maec/dsp/kernel.hpp
index 6d3f033..95ce0cb 100644
--- a/include/maec/dsp/kernel.hpp
+++ b/include/maec/dsp/kernel.hpp
@@ -109,37 +109,32 @@ void sinc_kernel(double freq, int size, O output,
 
     // Determine some constants:
 
-    const int size2 = (size - 1) / 2;
+    const double center = (size - 1) / 2.;
     const double inner = 2 * std::numbers::pi_v<double> * freq;
 
-    double sum = 1.;
+    double sum = 0.;
 
-    // Iterate over first half:
+    // Iterate over each value:
 
-    for (int i = 0; i < size2; ++i) {
+    for (int i = 0; i < size; ++i) {
 
-        // Determine some constants:
+        // Determine the position in relation to the center:
 
-        const int half = i - size2;
+        const double pos = inner * (i - center);
 
-        // Calculate value:
+        // Calculate value (the sinc function is one at zero):
 
-        const double value = util::sinc(inner * half) * window(i, size);
+        const double value = (pos == 0 ? 1. : util::sinc(pos)) * window(i, size);
 
-        // Set value on each half:
+        // Set value:
 
         *(output + i) = value;
-        *(output + (size - i - 1)) = value;
 
         // Keep a running sum of each value:
 
-        sum += value * 2;
+        sum += value;
     }
 
-    // Calculate center value:
-
-    *(output + size2) = 1. * window(size2, size);
-
     // Normalize all values:
 
     for (int i = 0; i < size; ++i) {
-- 
2.43.0


From 2f1a6348baa4f9b602badac8df8e3b1bf4470636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 59/82] fix: FIR filters keep channels apart and the audio
 format, and cope with empty blocks and changed or missing kernels

---
 include/maec/filter_module.hpp | 80 +++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..e09f7be 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -145,7 +145,8 @@ private:
     /// Overlap-add tail buffer: holds the last (kernel_size - 1) samples
     /// from the previous block's convolution output that must be added
     /// to the beginning of the next block's output.
-    std::vector<double> overlap_tail;
+    /// (one for each channel)
+    std::vector<std::vector<double>> overlap_tail;
 
 public:
     /**
@@ -219,44 +220,73 @@ public:
      */
     void process() override {
 
+        // Determine if we have something to filter with:
+
+        if (this->kernel == nullptr || this->kernel->size() == 0) {
+
+            return;
+        }
+
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        const std::size_t channels = ibuff.channels();
+        const std::size_t input_size = ibuff.channel_capacity();
         const std::size_t kernel_size = this->kernel->size();
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        auto nbuff = AudioBuffer(input_size, static_cast<int>(channels),
+                                 ibuff.get_samplerate());
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+        // Each channel is filtered on its own:
 
-        // Run the convolution:
+        this->overlap_tail.resize(channels);
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        for (std::size_t chan = 0; chan < channels; ++chan) {
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+            auto& tail = this->overlap_tail[chan];
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            // Allocate a full convolution output buffer (N + M - 1 samples)
+            // zero-initialised so the overlap-add accumulation is correct
+            // (the previous tail can be longer if the kernel changed):
+
+            std::vector<double> conv_out(
+                std::max({static_cast<std::size_t>(
+                              dsp::conv::length_conv(input_size, kernel_size)),
+                          input_size, tail.size()}),
+                0.0);
+
+            // Run the convolution:
+
+            auto iiter = ibuff.sbegin();
 
-        // Save new tail for the next block
+            iiter.set_channel(static_cast<int>(chan));
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            dsp::conv::input_conv(iiter, input_size, this->kernel->ibegin(),
+                                  kernel_size, conv_out.begin());
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            // Overlap-add: fold the saved tail from the previous block
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            for (std::size_t i = 0; i < tail.size(); ++i) {
+                conv_out[i] += tail[i];
+            }
+
+            // Save new tail for the next block
+
+            tail.assign(conv_out.begin() + input_size, conv_out.end());
+
+            // Trim output to exactly N samples and set on the buffer
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            auto oiter = nbuff.sbegin();
+
+            oiter.set_channel(static_cast<int>(chan));
+
+            std::copy_n(conv_out.begin(), input_size, oiter);
+        }
 
         this->set_buffer(std::move(nbuff));
     }
-- 
2.43.0


From ac485a29d663e02661a43e626da5130e923dd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 60/82] fix: conv_fft does nothing for an empty signal (it
 copied the other one past its end)

---
 include/maec/dsp/conv.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index f68360b..ba999ab 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -295,6 +295,13 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
 
     int output_size = length_conv(input_size, kernel_size);
 
+    // (nothing to do if one of them is empty)
+
+    if (output_size == 0) {
+
+        return;
+    }
+
     // Next, create new vectors for input and kernel
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
-- 
2.43.0


From d3defd48418f46f4836582d54505628eb1dbc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 61/82] fix: the inverse FFTs compile for complex<float> data

---
 include/maec/dsp/ft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/ft.hpp b/include/maec/dsp/ft.hpp
index c03861d..f04e799 100644
--- a/include/maec/dsp/ft.hpp
+++ b/include/maec/dsp/ft.hpp
@@ -577,7 +577,7 @@ void ifft_c_radix2(I input, int size, O output, int stride = 1) {
 
         // Normalize the output:
 
-        *(output + i) = *(output + i) / static_cast<double>(size);
+        *(output + i) /= static_cast<double>(size);
     }
 }
 
@@ -695,7 +695,7 @@ void ifft_c_radix2(I input, int size) {
 
         // Normalize the output:
 
-        *(input + i) = *(input + i) / static_cast<double>(size);
+        *(input + i) /= static_cast<double>(size);
     }
 }
 
-- 
2.43.0


From b730ccdaac93ec3798b41ef30a7b51a1d6b4b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 62/82] fix: ALSA handles are closed once and not used
 afterwards (one leaked per device, the hardware was freed after closing)

---
 src/io/alsa_module.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..35f06af 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -73,21 +73,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, load info from our device:
 
     this->update();
 }
@@ -177,8 +163,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -305,6 +291,10 @@ void ALSABase::alsa_start() {
 
     // TODO: Implement error checking and correction!
 
+    // Close the device if we are started already:
+
+    this->alsa_stop();
+
     // Create the PCM device:
 
     int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
@@ -371,17 +361,26 @@ void ALSABase::alsa_start() {
 
 void ALSABase::alsa_stop() {
 
+    // Determine if we have something to stop:
+
+    if (this->pcm == nullptr) {
+
+        return;
+    }
+
     // Drain the device:
 
     snd_pcm_drain(this->pcm);
 
+    // Free the hardware:
+
+    snd_pcm_hw_free(this->pcm);
+
     // Close the PCM device:
 
     snd_pcm_close(this->pcm);
 
-    // Free the hardware:
-
-    snd_pcm_hw_free(this->pcm);
+    this->pcm = nullptr;
 }
 
 void ALSASink::process() {
-- 
2.43.0


From c2d19542403e933a5990256385f4590f61a82204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 63/82] fix: ALSASink without a device does not play (it used a
 null handle); the temporary vector has the size of the audio

---
 src/io/alsa_module.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 35f06af..311e875 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -300,6 +300,15 @@ void ALSABase::alsa_start() {
     int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
                            SND_PCM_STREAM_PLAYBACK, 0);
 
+    if (err != 0) {
+
+        // There is nothing to configure or to play on:
+
+        this->pcm = nullptr;
+
+        return;
+    }
+
     // Allocate the hardware parameters:
 
     snd_pcm_hw_params_t* params = nullptr;
@@ -385,9 +394,16 @@ void ALSABase::alsa_stop() {
 
 void ALSASink::process() {
 
+    // Determine if we have a device to play on:
+
+    if (this->pcm == nullptr) {
+
+        return;
+    }
+
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
-- 
2.43.0


From 8c65b29b71c185c1c7152a9dce77415ac069ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 64/82] fix: ALSASink writes frames, all of them (with several
 channels it read past the audio, after an underrun a buffer was lost)

---
 src/io/alsa_module.cpp | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 311e875..2e59c2e 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -16,6 +16,8 @@
 #include <alsa/control.h>
 #include <alsa/pcm.h>
 
+#include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <string>
@@ -419,17 +421,43 @@ void ALSASink::process() {
         snd_pcm_prepare(this->pcm);
     }
 
-    // Finally, send the data along:
+    // Finally, send the data along
+    // (ALSA counts in frames, and may take less than we have):
 
-    this->return_code =
-        snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+    const std::size_t channels =
+        std::max(this->get_device().channels, 1U);
+    const std::size_t frames = temp.size() / channels;
+
+    std::size_t sent = 0;
+    bool underrun = false;
+
+    while (sent < frames) {
+
+        this->return_code = static_cast<int>(snd_pcm_writei(
+            this->pcm, temp.data() + (sent * channels),
+            static_cast<snd_pcm_uframes_t>(frames - sent)));
+
+        if (this->return_code > 0) {
+
+            sent += this->return_code;
+            underrun = false;
+
+            continue;
+        }
+
+        // Only try again after an underrun, and only once in a row:
+
+        if (this->return_code != -EPIPE || underrun) {
+
+            break;
+        }
 
-    if (this->return_code == -EPIPE) {
         // Underrun occurred
 
         std::cout << "ALSA Underrun (After)" << std::endl;
         snd_pcm_prepare(this->pcm);
+
+        underrun = true;
     }
 }
 
-- 
2.43.0


From 591693e831e6f25e24066f532acccdeb962eb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 65/82] fix: ALSA devices without name or description, missing
 devices and failing queries are handled (null strings, reads past the end,
 leaked names)

---
 src/io/alsa_module.cpp | 48 ++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 2e59c2e..9d445ad 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -37,10 +37,10 @@ void DeviceInfo::create_device(void** hint, int id) {
     char* descr = snd_device_name_get_hint(*hint, "DESC");
     char* io = snd_device_name_get_hint(*hint, "IOID");
 
-    // Set name and description:
+    // Set name and description (a device can be without):
 
-    this->name = std::string(n);
-    this->description = std::string(descr);
+    this->name = n == nullptr ? std::string() : std::string(n);
+    this->description = descr == nullptr ? std::string() : std::string(descr);
 
     // Determine the IO type:
 
@@ -182,6 +182,13 @@ int ALSABase::get_device_count() {
 
     n = hints;
 
+    // Without hints there are no devices:
+
+    if (err != 0) {
+
+        return 0;
+    }
+
     // Iterate until we reach the end:
 
     int num = 0;
@@ -207,19 +214,25 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
     void** hints = nullptr;
     void** n = nullptr;
 
-    // Get specific device:
-
-    int err = snd_device_name_hint(-1, "pcm", &hints);
-
     // Ensure the given index is within our count:
     // Note: Using get_device_count() ensures we aren't repeating ourselves.
     // but is it the most efficient? Probably not...
 
-    if (index >= this->get_device_count()) {
-        // TODO: DO SOMETHING!
-        // NOT DOING SOMETHING WILL RESULT IN A SEG FAULT!!!!
+    if (index < 0 || index >= this->get_device_count()) {
+
+        // There is no such device, return one that failed to load:
+
+        DeviceInfo none;
+
+        none.load_fail = true;
+
+        return none;
     }
 
+    // Get specific device:
+
+    int err = snd_device_name_hint(-1, "pcm", &hints);
+
     // Otherwise, seek n to the proper value:
 
     n = hints + index;
@@ -255,11 +268,24 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
     int id = 0;
     DeviceInfo info;
 
+    if (err != 0) {
+
+        // There are no devices, return one that failed to load:
+
+        info.load_fail = true;
+
+        return info;
+    }
+
     for (; *n != nullptr; ++n) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* hint = snd_device_name_get_hint(*n, "NAME");
+
+        std::string const hname(hint == nullptr ? "" : hint);
+
+        free(hint);
 
         // Determine if the name is our target:
 
-- 
2.43.0


From e6b01a02c39e597f0b6cb9d2208cc34ed5db2f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 66/82] fix: ALSASink configures its chain as its device
 (chains played at their own rate and channels, and counted modules twice)

---
 src/io/alsa_module.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 9d445ad..4cc79b3 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -512,8 +512,25 @@ void ALSASink::info_sync() {
 
     auto bsize = this->get_device().period_size / 2;
 
-    this->get_info()->out_buffer = bsize;
-    this->get_info()->in_buffer = bsize;
+    // Configure the chain to match our device:
+
+    auto* chain = this->get_chain_info();
+
+    chain->buffer_size = static_cast<int>(bsize);
+
+    if (this->get_device().channels != 0) {
+
+        chain->channels = static_cast<int>(this->get_device().channels);
+    }
+
+    if (this->get_device().sample_rate != 0) {
+
+        chain->sample_rate = this->get_device().sample_rate;
+    }
+
+    // Finally, configure ourselves:
+
+    PeriodSink::info_sync();
 }
 
 #endif
-- 
2.43.0


From 684917ff140ad5273c83f1e1ac610fa26096f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 67/82] fix: the id of a DeviceInfo is initialised

---
 include/maec/io/alsa_module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/io/alsa_module.hpp b/include/maec/io/alsa_module.hpp
index b9ef444..c66de7d 100644
--- a/include/maec/io/alsa_module.hpp
+++ b/include/maec/io/alsa_module.hpp
@@ -82,7 +82,7 @@
 struct DeviceInfo {
 
     /// The id of this device
-    int id;
+    int id = 0;
 
     /// The name of this device
     std::string name;
-- 
2.43.0


From 9c1f4ca25235d433e1c18f9d3df035f6fe37d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 68/82] fix: ALSABase knows the channels of the started device
 (with more than asked for, the audio was read past its end)

---
 src/io/alsa_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 4cc79b3..0700f9e 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -373,6 +373,10 @@ void ALSABase::alsa_start() {
 
     int commit = snd_pcm_hw_params(pcm, params);
 
+    // (the device can have another number of channels than we asked for)
+
+    snd_pcm_hw_params_get_channels(params, &(this->device.channels));
+
     snd_pcm_hw_params_get_periods(params, &(this->device.period), 0);
 
     int junk = 0;
-- 
2.43.0


From 548eead3fdd10d8db7f9d6ef1faeb19a43382068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 69/82] fix: dot_product accumulates in the type it returns
 (fractions were cut off at each step)

---
 include/maec/dsp/matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..9cd9c59 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -20,6 +20,9 @@
 
 #pragma once
 
+#include <iterator>
+#include <type_traits>
+
 #include "dsp/buffer.hpp"
 
 namespace dsp::mat {
@@ -56,7 +59,7 @@ namespace dsp::mat {
 template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    std::remove_cv_t<T> done = 0;
 
     // Iterate over each value in the provided iterators:
 
-- 
2.43.0


From 5d0cb6db4a7c1f60cfff607e29020543590916ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 70/82] fix: matrix_mult compiles and multiplies matrices that
 are not square (rows and columns of the result were exchanged)

---
 include/maec/dsp/matrix.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index 9cd9c59..8368164 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -132,18 +132,22 @@ T dot_product(const A& aiter, const B& biter, int num) {
 template <typename T, typename U, typename V>
 void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& buf2, dsp::buff::Buffer<V>& out) {
 
-    // Configure the out buffer to match our size:
+    // Configure the out buffer to match our size
+    // (each channel is a row, the samples of a channel are the columns):
 
-    out.set_channels(buf2.channels());
-    out.set_channel_capacity(buf1.channel_capacity());
+    const int rows = static_cast<int>(buf1.channels());
+    const int cols = static_cast<int>(buf2.channel_capacity());
+
+    out.set_channels(rows);
+    out.resize(rows * cols);
 
     // Iterate over the rows:
 
-    for (int row = 0; row < buf1.channel_capacity(); ++row) {
+    for (int row = 0; row < rows; ++row) {
 
         // Iterate over the cols:
 
-        for (int col = 0; col < buf2.channels(); ++col) {
+        for (int col = 0; col < cols; ++col) {
 
             // Grab the iterators:
 
-- 
2.43.0


From b295aa9a9600fd9652c8ce0d99056935d8a8d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 71/82] fix: filt.hpp can be included more than once

---
 include/maec/dsp/filt.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maec/dsp/filt.hpp b/include/maec/dsp/filt.hpp
index aa849c0..e3d07b4 100644
--- a/include/maec/dsp/filt.hpp
+++ b/include/maec/dsp/filt.hpp
@@ -13,6 +13,8 @@
  * IIR filters) which are defined elsewhere in maec.
  */
 
+#pragma once
+
 #include "dsp/const.hpp"
 
 namespace dsp::filt {
-- 
2.43.0


From 526f3c4827a5fa3eaf96eb553f50e81ac3b72059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 72/82] fix: WaveSource follows the buffer size of its chain
 after it started (it kept the old one, mixers cut or padded its audio)

---
 include/maec/io/wav.hpp |  9 +++++++++
 src/io/wav.cpp          | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 6a6170d..8e8de58 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -772,6 +772,15 @@ public:
      */
     void stop() override;
 
+    /**
+     * @brief Preforms an info sync
+     * 
+     * We read as many frames as the chain asks for,
+     * also if this changes after we are started.
+     * 
+     */
+    void info_sync() override;
+
     /**
      * @brief Processes this module
      * 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index b27ef4e..57e5b94 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -663,6 +663,17 @@ void WaveSource::stop() {
     WaveReader::stop();
 }
 
+void WaveSource::info_sync() {
+
+    // Preform the usual info sync:
+
+    SourceModule::info_sync();
+
+    // Use buffer size from AudioInfo:
+
+    WaveReader::set_buffer_size(this->get_info()->out_buffer);
+}
+
 void WaveSource::process() {
 
     // Ask the WaveReader to generate AudioBuffer:
-- 
2.43.0


From 8534646848ec8f6227e3a0a7729b7572a2a4a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 73/82] fix: iterators that are const can be subscripted (the
 const operator[] did not compile)

---
 include/maec/dsp/buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index fe0e8e0..325e3c8 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -455,7 +455,7 @@ public:
      */
     reference operator[](int val) const {
 
-        return *(static_cast<iterator_type*>(this)->resolve_pointer(val));
+        return *(static_cast<const iterator_type*>(this)->resolve_pointer(val));
     }
 
     /**
@@ -1971,7 +1971,7 @@ public:
          * with. This method is called automatically where necessary.
          *
          */
-        T* resolve_pointer(int index) {
+        T* resolve_pointer(int index) const {
             return this->buff->buff.data() + this->buff->normalize_index(index);
         }
 
-- 
2.43.0


From 62885f61616557a236dc7a83a38ae91c42d49266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 74/82] fix: a ParallelModule stopped from its own thread is
 still joined before it restarts or is destroyed

---
 include/maec/parallel.hpp | 53 ++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 7d07d45..fd67e27 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -136,15 +136,13 @@ private:
         this->cv.notify_all();
 
         // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
+        // If stop() is being called from the worker thread itself,
+        // attempting to join would cause a resource deadlock. In that
+        // case the thread ends on its own after this buffer,
+        // and is joined when we are stopped, started or destroyed next.
+        if (this->thread.joinable() &&
+            this->thread.get_id() != std::this_thread::get_id()) {
+            this->thread.join();
         }
     }
 
@@ -210,27 +208,26 @@ public:
      */
     void start() override {
 
+        // Ensure a previous thread is done
+
+        this->stop_thread();
+
         // Call the parent start method
 
         AudioModule<>::start();
 
-        // Ensure a previous thread is done
-
-        this->stop_thread();
+        // We grab the lock to ensure our next operation
+        // on the queue is valid, and that the thread can
+        // only proceed once we know about it.
+        std::lock_guard<std::mutex> lock(qmut);
 
-        {
-            // We grab the lock to ensure our next operation
-            // on the queue is valid.
-            std::lock_guard<std::mutex> lock(qmut);
+        // Clear the queue
 
-            // Clear the queue
+        this->queue.clear();
 
-            this->queue.clear();
+        // Set the done value to be false
 
-            // Set the done value to be false
-            
-            this->done = false;
-        }
+        this->done = false;
 
         // Create the thread that runs the target function
 
@@ -245,21 +242,21 @@ public:
      *
      * We also join the thread to enable a graceful shutdown,
      * so this method may block for some time.
-     * A check is in place to detatch the thread in case
-     * this is called from the running thread.
+     * If this is called from the running thread,
+     * then it ends by itself once it is done with its current buffer.
      *
      * Please note, this will NOT clear the underlying queue!
      * Any values present will presist until this module has been started again.
      */
     void stop() override {
 
-        // Call the parent start method
-
-        AudioModule<>::stop();
-
         // Stop the thread, and wait for it
 
         this->stop_thread();
+
+        // Call the parent stop method
+
+        AudioModule<>::stop();
     }
 
     /**
-- 
2.43.0


From f0339e2adb9398b1421d6b407549594a96836751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 75/82] fix: IIRFilter keeps its previous values when the
 number of A or B poles changes (the output started over)

---
 include/maec/dsp/iir.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 67569e1..35373ea 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -292,12 +292,27 @@ public:
             return;
         }
 
-        this->inputs = dsp::buff::RingBuffer<T>(isize);
-        this->outputs = dsp::buff::RingBuffer<T>(osize);
+        // Keep the previous values,
+        // the latest one ends up at the end of each buffer:
 
-        // The index should be the max of the number of A and B poles:
+        auto keep = [this](dsp::buff::RingBuffer<T>& ring, std::size_t size) {
+            dsp::buff::RingBuffer<T> kept(size);
+            const int num = static_cast<int>(std::min(size, ring.size()));
 
-        this->index = std::max(isize, osize);
+            for (int i = 1; i <= num; ++i) {
+                kept[-i] = ring[static_cast<int>(this->index) - i];
+            }
+
+            ring = kept;
+        };
+
+        keep(this->inputs, isize);
+        keep(this->outputs, osize);
+
+        // The index is a multiple of both sizes,
+        // so the next value goes to the start of each buffer:
+
+        this->index = isize * osize;
     }
 
     /**
-- 
2.43.0


From 0e8d0af91843568f56c72b9112aa85136c8817dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 76/82] fix: WaveReader skips the padding of a format chunk of
 odd size (the next chunk header was read one byte early)

---
 src/io/wav.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 57e5b94..7588b2d 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -249,6 +249,13 @@ void WaveReader::start() {
                    (WavFormat::size() - ChunkHeader::size()));
     }
 
+    // Chunks are padded to an even size, skip the padding:
+
+    if (chead.chunk_size % 2 == 1) {
+
+        this->skip(1);
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
-- 
2.43.0


From 3a3a02ae939607dac92d118455f543e0139b29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 77/82] fix: a moved ModuleParam stays linked to its module (a
 parameter linked over its constant went back to the constant)

---
 include/maec/audio_module.hpp | 14 ++++++++++++++
 include/maec/module_param.hpp | 14 +++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/maec/audio_module.hpp b/include/maec/audio_module.hpp
index 186f6c3..a3c07a2 100644
--- a/include/maec/audio_module.hpp
+++ b/include/maec/audio_module.hpp
@@ -84,6 +84,20 @@ public:
     /// Move assignment operator
     AudioModule& operator=(AudioModule&&) = default;
 
+    /**
+     * @brief Determines if there is a module behind us
+     *
+     * This function is only enabled in dynamic chains
+     * where the backwards module is a pointer.
+     *
+     * @return true if a module is linked to us
+     */
+    bool linked() const
+        requires(std::is_pointer_v<BT>)
+    {
+        return backwardv != nullptr;
+    }
+
     /**
      * @brief Gets a reference to the backward module
      *
diff --git a/include/maec/module_param.hpp b/include/maec/module_param.hpp
index 7b49caa..5a00f99 100644
--- a/include/maec/module_param.hpp
+++ b/include/maec/module_param.hpp
@@ -69,10 +69,10 @@
 class ModuleParam : public SinkModule<> {
 
 private:
-    /// Links our constant module, if any, to us
-    void relink_constant() {
-        if (this->const_mod != nullptr) {
-            this->link(this->const_mod.get());
+    /// Links the module behind us, if any, to us
+    void relink() {
+        if (this->linked()) {
+            this->link(&this->backward());
         }
     }
 
@@ -106,19 +106,19 @@ public:
      */
     ModuleParam(AudioModule<>* imod) { this->link(imod); }
 
-    /// Moving keeps the constant linked to us, not to the moved parameter
+    /// Moving keeps our module linked to us, not to the moved parameter
     ModuleParam(ModuleParam&& other) noexcept
         : SinkModule<>(std::move(other)),
           value(other.value),
           const_mod(std::move(other.const_mod)) {
-        this->relink_constant();
+        this->relink();
     }
 
     ModuleParam& operator=(ModuleParam&& other) {
         SinkModule<>::operator=(std::move(other));
         this->value = other.value;
         this->const_mod = std::move(other.const_mod);
-        this->relink_constant();
+        this->relink();
         return *this;
     }
 
-- 
2.43.0


From 4188782bb299ec1dee1b322cfef062310dbc23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 78/82] fix: a wave file of more than 2 GB gets its sizes (they
 overflowed int and the header was left empty)

---
 include/maec/io/wav.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 8e8de58..a00b0b9 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -409,9 +409,9 @@ public:
      * 
      * This function returns the size of the wave file in bytes.
      * 
-     * @return int Size in bytes
+     * @return uint32_t Size in bytes
      */
-    int get_size() const { return this->size; }
+    uint32_t get_size() const { return this->size; }
 
     /**
      * @brief Sets the size of the wave file
@@ -420,7 +420,7 @@ public:
      * 
      * @param size Size of wave file
      */
-    void set_size(int size) { this->size = size; }
+    void set_size(uint32_t size) { this->size = size; }
 
 private:
 
@@ -458,7 +458,7 @@ private:
     int bytes_per_sample = 0;
 
     /// Size of the wave file
-    int size = 0;
+    uint32_t size = 0;
 };
 
 /**
-- 
2.43.0


From 25b34de46562940f97469173a58d9628e1b8cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 79/82] fix: Counter counts past 2^31 samples (its totals
 overflowed int after some hours)

---
 include/maec/meta_audio.hpp | 12 ++++++------
 src/meta_audio.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index eff2f4c..7f3f60b 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -36,10 +36,10 @@ class Counter : public AudioModule<> {
 
 private:
     /// Number of times we have been processed
-    int m_processed = 0;
+    int64_t m_processed = 0;
 
     /// Number of samples we have encountered
-    int m_samples = 0;
+    int64_t m_samples = 0;
 
 public:
     /**
@@ -57,16 +57,16 @@ public:
     /**
      * @brief Gets the number of times we have been processed
      *
-     * @return int Number of times we have been processed
+     * @return int64_t Number of times we have been processed
      */
-    int processed() const { return this->m_processed; }
+    int64_t processed() const { return this->m_processed; }
 
     /**
      * @brief Gets the number of samples we have encountered
      *
-     * @return int Number of samples encountered
+     * @return int64_t Number of samples encountered
      */
-    int samples() const { return this->m_samples; }
+    int64_t samples() const { return this->m_samples; }
 
     /**
      * @brief Counts how many samples we encounter, and how many times we have
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index c516acd..7dbb6e3 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,7 +19,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples += static_cast<int>(this->buff.size());
+    this->m_samples += static_cast<int64_t>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From cdb04a9d41eb5653cb9c3dcf46649604970332df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 80/82] fix: get_device_by_id trusts only the list it holds (a
 device unplugged between two lists was read past the end)

---
 src/io/alsa_module.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 0700f9e..efe8885 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -214,28 +214,36 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
     void** hints = nullptr;
     void** n = nullptr;
 
-    // Ensure the given index is within our count:
-    // Note: Using get_device_count() ensures we aren't repeating ourselves.
-    // but is it the most efficient? Probably not...
+    // Create list of devices:
 
-    if (index < 0 || index >= this->get_device_count()) {
+    int err = snd_device_name_hint(-1, "pcm", &hints);
 
-        // There is no such device, return one that failed to load:
+    // Seek n to the proper value, as far as there are devices
+    // Note: The devices may change at any time,
+    // so only the list we hold tells how many there are
 
-        DeviceInfo none;
+    n = hints;
 
-        none.load_fail = true;
+    for (int i = 0; err == 0 && i < index && *n != nullptr; ++i) {
 
-        return none;
+        ++n;
     }
 
-    // Get specific device:
+    if (err != 0 || index < 0 || *n == nullptr) {
 
-    int err = snd_device_name_hint(-1, "pcm", &hints);
+        // There is no such device, return one that failed to load:
 
-    // Otherwise, seek n to the proper value:
+        if (err == 0) {
 
-    n = hints + index;
+            snd_device_name_free_hint(hints);
+        }
+
+        DeviceInfo none;
+
+        none.load_fail = true;
+
+        return none;
+    }
 
     // Create struct and initialize it:
 
-- 
2.43.0


From d637116c82d30f734907c76a013a96345694532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 81/82] fix: ADSREnvelope releases from the value it is at
 (releasing again, or new settings for the next note, made it jump)

---
 src/envelope.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 2319670..f4e7ccd 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -447,22 +447,34 @@ void ADSREnvelope::start() {
 
 void ADSREnvelope::finish() {
 
-    // Determine the current value:
+    // Get past the envelopes that are over:
 
     const int64_t time = this->get_time();
-    const int64_t passed = time - this->pressed;
-    double value = this->sustain;
 
-    if (passed < this->attack) {
+    while (this->get_current() != nullptr &&
+           this->get_current()->get_stop_time() >= 0 &&
+           this->get_current()->get_stop_time() <= time) {
 
-        value = static_cast<double>(passed) / static_cast<double>(this->attack);
+        this->next_envelope();
     }
 
-    else if (passed < this->attack + this->decay) {
+    // Determine the current value
+    // (the current envelope knows it, even if our settings changed since):
+
+    auto* env = this->get_current();
+    double value = 0;
+
+    if (env != nullptr) {
 
-        value = 1 + (this->sustain - 1) *
-                        (static_cast<double>(passed - this->attack) /
-                         static_cast<double>(this->decay));
+        value = env->get_start_value();
+
+        if (env->get_stop_time() >= 0) {
+
+            value += (env->get_stop_value() - env->get_start_value()) *
+                     (static_cast<double>(time - env->get_start_time()) /
+                      static_cast<double>(env->get_stop_time() -
+                                          env->get_start_time()));
+        }
     }
 
     // Ramp down to zero from there:
-- 
2.43.0


From b47159c8074d3479cb0dc6c610d326e15ac82510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 82/82] fix: constant iterators can be moved by unsigned and 64
 bit distances

---
 include/maec/dsp/buffer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 325e3c8..b0a50ee 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -281,7 +281,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const unsigned int& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -295,7 +295,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const int64_t& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -310,7 +310,7 @@ public:
      */
     iterator_type operator+(
         const long unsigned int& num) const {  // NOLINT(google-runtime-int)
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -325,7 +325,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const I& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += iter.get_index();
         return tmp;
     }
@@ -359,7 +359,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator-(const iterator_type& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp -= iter.get_index();
         return tmp;
     }
-- 
2.43.0

