From 1a4af4f4192f019fc700bb9ce97921671911a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 01/29] fix: decode negative int16 samples with the scale they
 are encoded with

---
 src/audio_buffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..cb4d28f 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by largest (negative) value:
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From 6b6df73df74ebc1a20b83e4fa8851081a3112ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 02/29] fix: wrap negative ring buffer positions for every size

---
 include/maec/dsp/buffer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..c01ecb7 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1895,7 +1895,15 @@ protected:
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+
+        // Signed arithmetic, so negative indexes wrap too:
+
+        const int length = static_cast<int>(this->size());
+        const int norm = nindex % length;
+
+        return norm < 0 ? norm + length : norm;
+    }
 
 public:
     /**
-- 
2.43.0


From 5c6294f828896cef14d5ffc25c6e1c1e1d1f4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 03/29] fix: IIR filter feedback uses the previous outputs in
 order

---
 include/maec/dsp/iir.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..872cfd9 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstddef>
@@ -231,7 +232,9 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            // (the output at 'index' is not computed yet)
+
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
@@ -264,8 +267,10 @@ public:
         // Resize the input and output buffers to the size of the number of
         // poles:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        // (filters without A or B poles still push their history)
+
+        this->inputs.resize(std::max<std::size_t>(this->acoes.size(), 1));
+        this->outputs.resize(std::max<std::size_t>(this->bcoes.size(), 1));
 
         // The index should be the max of the number of A and B poles:
 
-- 
2.43.0


From 5cbc1204ec79339e3490020238435deba13912f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 04/29] fix: single pole coefficients are computed from the
 frequency fraction

---
 include/maec/dsp/iir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 872cfd9..d1f2583 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -647,7 +647,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -668,14 +668,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From 0b2b3e268bdf5b78be3cc0c1eb6063fcb67fd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 05/29] fix: reading a byte array stream past its end stops the
 stream

---
 src/io/mstream.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..a35c74e 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,27 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine the number of bytes we can provide:
+
+    const std::size_t left = this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t num_read = std::min<std::size_t>(num, left);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + std::min(this->index, this->arr.size()), num_read, byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += num_read;
+
+    // Determine if we were asked to read past the end:
+
+    if (num_read < static_cast<std::size_t>(num)) {
+
+        // Nothing left to read, just stop:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From 73d87a8e3c39d76c03602eccff0a06f739f640a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 06/29] fix: wave reader finds and skips chunks of any valid
 file and stops on unusable ones

---
 include/maec/io/wav.hpp |  11 +++++
 src/io/wav.cpp          | 104 +++++++++++++++++++++++++---------------
 2 files changed, 77 insertions(+), 38 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..c7a608c 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,17 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips data of a chunk
+     *
+     * We skip the given number of bytes,
+     * and the pad byte that follows chunks of an odd size.
+     *
+     * @param num Number of bytes to skip
+     * @param size Size of the chunk
+     */
+    void skip_chunk(uint32_t num, uint32_t size);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..3be4c89 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -11,6 +11,8 @@
 
 #include "io/wav.hpp"
 
+#include <algorithm>
+#include <array>
 #include <vector>
 
 #include "audio_buffer.hpp"
@@ -189,42 +191,31 @@ void WaveReader::start() {
 
     // Ensure we are in a format we expect:
 
-    if (head.chunk_id != "RIFF") {
+    if (head.chunk_id != "RIFF" || head.format != "WAVE") {
 
-        // Invalid header!
-        // We do not support this file
-        // TODO: Do something here
-        int dhd = 0;
-    }
-
-    // Ensure the format is something we expect:
+        // Invalid header or format type!
+        // We do not support this file, there is nothing to read
 
-    if (head.format != "WAVE") {
+        this->stop();
 
-        // Invalid format type!
-        // We do not support this file
-        // TODO: Again, do something here
-        int dhd = 0;
+        return;
     }
 
     // Save the size of the file:
 
     this->set_size(head.chunk_size + 8);
 
-    // Next, read the format chunk
-    // TODO: Is it always guaranteed that format will always be second chunk?
+    // Next, find the format chunk, any chunks before it are skipped:
 
     ChunkHeader chead;
 
     this->read_chunk_header(chead);
 
-    // Determine this chunk is a format chunk:
+    while (chead.chunk_id != "fmt " && !this->done()) {
 
-    if (chead.chunk_id != "fmt ") {
+        this->skip_chunk(chead.chunk_size, chead.chunk_size);
 
-        // This chunk is not format chunk
-        // TODO: Gotta do something here
-        int dhd = 0;
+        this->read_chunk_header(chead);
     }
 
     // Read the wave format chunk
@@ -233,6 +224,26 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // The format chunk may be extended, skip the fields we don't use:
+
+    const uint32_t fsize = WavFormat::size() - ChunkHeader::size();
+
+    if (chead.chunk_size > fsize) {
+
+        this->skip_chunk(chead.chunk_size - fsize, chead.chunk_size);
+    }
+
+    // Determine if we found a format we can work with:
+
+    if (this->stream->bad() || form.channels == 0 || form.bits_per_sample < 8 || form.bits_per_sample > 64) {
+
+        // No usable format, there is nothing to read
+
+        this->stop();
+
+        return;
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
@@ -275,6 +286,29 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip_chunk(uint32_t num, uint32_t size) {
+
+    // Chunks are aligned to 2 bytes, odd ones are followed by a pad byte:
+
+    int64_t left = static_cast<int64_t>(num) + size % 2;
+
+    // Read (and discard) the data in blocks:
+
+    std::array<char, 512> data = {};
+
+    while (left > 0 && !this->done()) {
+
+        const int to_read =
+            static_cast<int>(std::min<int64_t>(left, data.size()));
+
+        this->stream->read(data.data(), to_read);
+
+        this->total_read += to_read;
+
+        left -= to_read;
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
@@ -303,23 +337,10 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, skip over it:
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip_chunk(this->head.chunk_size, this->head.chunk_size);
 
                 continue;
             }
@@ -349,8 +370,8 @@ BufferPointer WaveReader::get_data() {
             (this->buffer_size * this->get_channels() - read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const int64_t chunk_bytes =
+            static_cast<int64_t>(head.chunk_size) - this->chunk_read;
 
         int to_read = 0;
 
@@ -361,7 +382,7 @@ BufferPointer WaveReader::get_data() {
 
             this->needs_chunk = true;
 
-            to_read = chunk_bytes;
+            to_read = static_cast<int>(chunk_bytes);
         }
 
         else {
@@ -383,6 +404,13 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // If this chunk is complete, then get past its pad byte:
+
+        if (this->needs_chunk) {
+
+            this->skip_chunk(0, this->head.chunk_size);
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From 1698f0db1c83d26966211563de51c528a29972f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 07/29] fix: wave writer starts its stream

---
 src/io/wav.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 3be4c89..f1406a3 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -467,7 +467,14 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
-    // First, create the wave header:
+    // First, start the stream (unless this has been done already):
+
+    if (this->stream->get_state() == BaseMOStream::mstate::init) {
+
+        this->stream->start();
+    }
+
+    // Next, create the wave header:
 
     WavHeader whead;
 
-- 
2.43.0


From 224971229bb87df8c3b8c0637d210c766612b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 08/29] fix: wave source can be constructed

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index c7a608c..2cf70ad 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -728,6 +728,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From 5229c353c004975527e98f247cd737ed3caeef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 09/29] fix: sinc of zero is one

---
 src/dsp/util.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dsp/util.cpp b/src/dsp/util.cpp
index c7fce9e..0e779fa 100644
--- a/src/dsp/util.cpp
+++ b/src/dsp/util.cpp
@@ -15,6 +15,13 @@
 
 double dsp::util::sinc(double x) {
 
+    // At zero we use the limit, as the division is not defined:
+
+    if (x == 0) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return std::sin(x) / x;
-- 
2.43.0


From 2a4f15a238ae8f692c7cb703f06d668e4780fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 10/29] fix: dot product keeps the fraction of its terms

---
 include/maec/dsp/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..c472362 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -56,7 +56,7 @@ namespace dsp::mat {
 template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    T done{};
 
     // Iterate over each value in the provided iterators:
 
-- 
2.43.0


From 670a70bfafc7ea6d47501d3fd58c5a27a104d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 11/29] fix: convolution filters process every channel on its
 own and keep the block's shape

---
 include/maec/filter_module.hpp | 79 +++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..9322b3b 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -144,8 +144,8 @@ private:
 
     /// Overlap-add tail buffer: holds the last (kernel_size - 1) samples
     /// from the previous block's convolution output that must be added
-    /// to the beginning of the next block's output.
-    std::vector<double> overlap_tail;
+    /// to the beginning of the next block's output (one for each channel).
+    std::vector<std::vector<double>> overlap_tail;
 
 public:
     /**
@@ -222,41 +222,68 @@ public:
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        const std::size_t channels = ibuff.channels();
+        const std::size_t input_size = ibuff.channel_capacity();
         const std::size_t kernel_size = this->kernel->size();
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        // Create the output buffer, it has the same shape as the input:
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+        auto nbuff = AudioBuffer(static_cast<int>(input_size),
+                                 static_cast<int>(channels),
+                                 ibuff.get_samplerate());
 
-        // Run the convolution:
+        // Each channel has a tail of it's own:
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        this->overlap_tail.resize(channels);
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+        for (std::size_t c = 0; c < channels; ++c) {
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            // Grab the samples of this channel:
+
+            std::vector<double> input(input_size);
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                input[i] = ibuff.at(c, i);
+            }
+
+            // Allocate a full convolution output buffer (N + M - 1 samples)
+            // zero-initialised so the overlap-add accumulation is correct:
+
+            std::vector<double> conv_out(
+                dsp::conv::length_conv(input_size, kernel_size), 0.0);
+
+            // Run the convolution:
 
-        // Save new tail for the next block
+            dsp::conv::input_conv(input.begin(), input_size,
+                                  this->kernel->ibegin(), kernel_size,
+                                  conv_out.begin());
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            // Overlap-add: fold the saved tail from the previous block
+            //
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            const std::size_t prev_tail = this->overlap_tail[c].size();
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            for (std::size_t i = 0; i < prev_tail; ++i) {
+                conv_out[i] += this->overlap_tail[c][i];
+            }
+
+            // Save new tail for the next block
+
+            this->overlap_tail[c].assign(conv_out.begin() + input_size,
+                                         conv_out.end());
+
+            // Trim output to exactly N samples and set on the buffer
+            //
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                nbuff.at(c, i) = conv_out[i];
+            }
+        }
 
         this->set_buffer(std::move(nbuff));
     }
-- 
2.43.0


From e74ab7f196c3a38cb4f2dbff7e3c67e407d839ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 12/29] fix: oscillators advance their phase once per frame

---
 src/fund_oscillator.cpp | 64 ++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..159c199 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -34,9 +34,13 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase after each frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -64,9 +68,13 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase after each frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -94,9 +102,13 @@ void SawtoothOscillator::process() {
                             &placeholder)) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase after each frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -136,9 +148,13 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase after each frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -170,9 +186,13 @@ void ModSineOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase after each frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -208,9 +228,13 @@ void ModSquareOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase after each frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -246,9 +270,13 @@ void ModSawtoothOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase after each frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -298,8 +326,12 @@ void ModTriangleOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase after each frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 ==
+            static_cast<int>(this->buff.channels())) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 98a397c6777f9bba38ddf05a2336458e41f6fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 13/29] fix: up mixer returns whole blocks and takes its info
 from the chain

---
 src/module_mixer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..1553ea9 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -169,18 +169,17 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
-}
 
-AudioBuffer&& ModuleMixUp::get_buffer() {
+    // Set the module in front of us, we get our info from it:
 
-    // Configure the temporary buffer
+    AudioModule<>::forward(mod);
+}
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
+AudioBuffer&& ModuleMixUp::get_buffer() {
 
-    tbuff.resize(this->get_info()->out_buffer);
+    // Copy our buffer, as we may be asked for it again
 
-    std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
+    tbuff = this->buff;
 
     // Finally, return the buffer:
 
-- 
2.43.0


From af0d0d3e70f780b549f72f1dcc84643d3760ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 14/29] fix: sources set their state when their hooks are
 overridden

---
 include/maec/source_module.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..4135a2a 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+        BaseModule::start();
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +62,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+        BaseModule::stop();
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +83,8 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+        BaseModule::finish();
+        this->finish();
+    }
 };
-- 
2.43.0


From fd83390f3f59201eb93183d1a99b60ffde52c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 15/29] fix: repeated info syncs do not count modules again

---
 include/maec/sink_module.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..21042e7 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -84,6 +84,11 @@ public:
      *
      */
     void info_sync() override {
+
+        // We are the first module to be counted:
+
+        this->chain_instance.module_num = 1;
+
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
-- 
2.43.0


From 8f02830f30ead106553afbd351e1b0c095cdfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 16/29] fix: constant parameters keep the chain's configuration

---
 src/module_param.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module_param.cpp b/src/module_param.cpp
index 17000ce..4a7d55b 100644
--- a/src/module_param.cpp
+++ b/src/module_param.cpp
@@ -38,6 +38,11 @@ void ModuleParam::set_constant(double val) {
 
     this->const_mod = std::make_unique<ConstModule>(val);
 
+    // Keep the configuration we may already have:
+
+    this->const_mod->set_info(*(this->get_info()));
+    this->const_mod->set_chain_info(this->get_chain_info());
+
     this->link(this->const_mod.get());
 }
 
-- 
2.43.0


From 7262a9827a31b16ccd3546353104724ceec5c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 17/29] fix: no division by zero for the rate of a reset timer

---
 include/maec/chrono.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..b711e71 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -126,7 +126,9 @@ public:
      * @return double Current approximate samplerate
      */
     int get_samplerate() const {
-        return static_cast<int>(NANO / this->nano_frame);
+        return this->nano_frame == 0
+                   ? 0
+                   : static_cast<int>(NANO / this->nano_frame);
     }
 
     /**
-- 
2.43.0


From d120557476334c78e897e3f24702f5a185db2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 18/29] fix: uniform buffer fills every channel

---
 src/meta_audio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..b92cd10 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -113,7 +113,11 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    // Number of samples to fill, across all channels:
+
+    const int size = static_cast<int>(this->buff.size());
+
+    while (this->index < size) {
 
         // Determine if in buffer is out of values:
 
@@ -138,7 +142,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(size - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From 2e63c9ff3dd6a4a5ea3a49ff05f3a5953b7fab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 19/29] fix: buffer module repeats its buffer whatever the
 chain's settings

---
 include/maec/meta_audio.hpp | 4 +++-
 src/meta_audio.cpp          | 8 ++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..a0ea7c7 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -301,7 +301,9 @@ public:
      */
     void set_rbuffer(AudioBuffer* ibuff) {
         this->gbuff = ibuff;
-        this->get_info()->out_buffer = static_cast<int>(ibuff->size());
+        this->get_info()->out_buffer =
+            static_cast<int>(ibuff->channel_capacity());
+        this->get_info()->channels = static_cast<int>(ibuff->channels());
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index b92cd10..52245f1 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -98,13 +98,9 @@ void LatencyModule::meta_process() {
 
 void BufferModule::process() {
 
-    // First, create a buffer to use:
+    // Copy the contents of the buffer to repeat:
 
-    this->reserve();
-
-    // Next, fill it using the contents of our old buffer:
-
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    this->buff = *(this->gbuff);
 }
 
 void UniformBuffer::process() {
-- 
2.43.0


From 786153410a58460b5565d15f96409c436008ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 20/29] fix: counter and latency count each sample once and
 reset together

---
 include/maec/meta_audio.hpp |  8 ++++++--
 src/meta_audio.cpp          | 11 ++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index a0ea7c7..eebd939 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -228,7 +228,9 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
@@ -240,7 +242,9 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 52245f1..5eee8a7 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,14 +19,15 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
 
     // Clear values:
 
+    Counter::reset();
+
     this->operation_time = 0;
     this->operation_latency = 0;
     this->total_operation_latency = 0;
@@ -65,8 +66,7 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    const int samples = static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -85,7 +85,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->timer.get_channels());
 
     // Add to total latency:
 
-- 
2.43.0


From 0ae47d7dc77957b8fa8ad0f402d40a8706c02fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 21/29] fix: SetValue stays inside its buffer after the stop
 time and counts frames, not samples

---
 src/envelope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..4a2928e 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -11,6 +11,7 @@
 
 #include "envelope.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include "audio_buffer.hpp"
@@ -71,7 +72,8 @@ void SetValue::process() {
     auto size = this->buff.size();
 
     int64_t initial =
-        std::min(this->remaining_samples(), static_cast<int64_t>(size));
+        std::clamp(this->remaining_samples() * this->get_timer()->get_channels(),
+                   static_cast<int64_t>(0), static_cast<int64_t>(size));
 
     // Determine the number of values to be final:
 
-- 
2.43.0


From 867b165338f417da17727a9b14c0dcb731a8f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 22/29] fix: ChainEnvelope plays gaps, leading values, later
 additions, restarts and any number of channels

---
 include/maec/envelope.hpp |  2 +-
 src/envelope.cpp          | 68 +++++++++++++++++++++++++++++++++++----
 2 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..4f94341 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -522,7 +522,7 @@ public:
      * @brief Start method
      *
      */
-    void start() override { this->next_envelope(); }
+    void start() override;
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 4a2928e..9d21257 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -142,16 +142,33 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
     if (!this->inter.empty()) {
 
-        // Remove last value:
+        if (this->current == this->inter.back().get()) {
 
-        this->envs.pop_back();
-        this->inter.pop_back();
+            // Last value is in use, keep it until the new envelope starts:
+
+            this->current->set_stop_time(env->get_start_time());
+        }
+
+        else {
+
+            // Remove last value:
+
+            this->envs.pop_back();
+            this->inter.pop_back();
+        }
     }
 
     // Add the envelope to the collection:
 
     this->envs.push_back(env);
 
+    // Determine if we start later than the chain:
+
+    if (this->envs.size() == 1 && env->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Optimize?
 
     this->optimize();
@@ -239,8 +256,30 @@ void ChainEnvelope::create_internal(int index) {
     this->inter.push_back(std::move(interp));
 }
 
+void ChainEnvelope::start() {
+
+    // Without envelopes we only have a start value:
+
+    if (this->envs.empty()) {
+
+        this->optimize();
+    }
+
+    // Begin with the first envelope:
+
+    this->env_index = -1;
+    this->next_envelope();
+}
+
 void ChainEnvelope::next_envelope() {
 
+    // Stay at the last envelope:
+
+    if (this->env_index + 1 >= static_cast<int>(this->envs.size())) {
+
+        return;
+    }
+
     // Grab the next envelope:
 
     this->current = this->envs[++(this->env_index)];
@@ -260,22 +299,36 @@ void ChainEnvelope::process() {
 
     int processed = 0;
 
+    const int channels = this->get_info()->channels;
+
     // Iterate until buffer is full:
 
     while (processed < this->get_info()->out_buffer) {
 
+        // Move past envelopes that are already complete:
+
+        while (this->current->get_stop_time() >= 0 &&
+               this->get_time() >= this->current->get_stop_time()) {
+
+            this->next_envelope();
+        }
+
         int num = this->get_info()->out_buffer - processed;
 
         // First, determine the number of samples current envelope will output:
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            // (The last frame may only be partially covered)
+
+            num = static_cast<int>(std::clamp(this->current->remaining_samples(),
+                                              static_cast<int64_t>(1),
+                                              static_cast<int64_t>(num)));
         }
 
         // Set size of current envelope to num value:
 
+        this->current->set_info(*(this->get_info()));
         this->current->get_info()->out_buffer = num;
 
         // Grab buffer from current envelope:
@@ -286,7 +339,8 @@ void ChainEnvelope::process() {
 
         // First, fill it with contents of first envelope:
 
-        std::copy_n(cbuff.ibegin(), num, tbuff.ibegin() + processed);
+        std::copy_n(cbuff.ibegin(), num * channels,
+                    tbuff.ibegin() + processed * channels);
 
         // Update the number of samples processed:
 
@@ -294,7 +348,7 @@ void ChainEnvelope::process() {
 
         // Update the timer:
 
-        this->get_timer()->add_sample(num);
+        this->get_timer()->add_sample(num * channels);
 
         if (this->current->get_stop_time() >= 0 &&
             this->get_time() >= this->current->get_stop_time()) {
-- 
2.43.0


From 59af7e8af7d2cfc996e486f3e1f7464956bb0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 23/29] fix: ADSREnvelope plays its stages in order and its
 release when finished

---
 include/maec/envelope.hpp | 12 ++++++
 src/envelope.cpp          | 85 +++++++++++++++++++++++++++++++++++----
 2 files changed, 90 insertions(+), 7 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 4f94341..38b3bba 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -570,6 +570,9 @@ private:
     /// Time it takes to ramp to zero after key is released
     int64_t release = 0;
 
+    /// Time the release is complete, negative if not releasing
+    int64_t release_stop = -1;
+
     /// Collection for keeping envelopes:
     Collection<BaseEnvelope> envs;
 
@@ -652,6 +655,15 @@ public:
      */
     void start() override;
 
+    /**
+     * @brief Process this envelope
+     *
+     * We process the chain, and report that we are done once the release is
+     * complete.
+     *
+     */
+    void process() override;
+
     /**
      * @brief Finishes this envelope
      *
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 9d21257..511e8af 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -366,14 +366,22 @@ void ChainEnvelope::process() {
 
 void ADSREnvelope::start() {
 
+    // All times are relative to the time we are started at:
+
+    const int64_t now = this->get_time();
+
+    this->release_stop = -1;
+
     // Add linear ramp for attack:
 
     std::unique_ptr<BaseEnvelope> att = std::make_unique<LinearRamp>();
 
     att->set_start_value(0);
     att->set_stop_value(1);
-    att->set_start_time(0);
-    att->set_stop_time(this->attack);
+    att->set_start_time(now);
+    att->set_stop_time(now + this->attack);
+
+    auto* first = att.get();
 
     this->add_envelope(att.get());
     this->envs.add_object(att);
@@ -384,8 +392,8 @@ void ADSREnvelope::start() {
 
     dec->set_start_value(1);
     dec->set_stop_value(this->sustain);
-    dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    dec->set_start_time(now + this->attack);
+    dec->set_stop_time(now + this->attack + this->decay);
 
     this->add_envelope(dec.get());
     this->envs.add_object(dec);
@@ -396,16 +404,79 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(now + this->attack + this->decay);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Begin with the attack:
+
+    while (this->get_current() != first) {
+
+        this->next_envelope();
+    }
+}
+
+void ADSREnvelope::process() {
+
+    ChainEnvelope::process();
+
+    // Determine if the release is complete:
+
+    if (this->release_stop >= 0 && this->get_time() >= this->release_stop) {
+
+        this->release_stop = -1;
+
+        this->done();
+    }
 }
 
 void ADSREnvelope::finish() {
 
-    // Ca
+    const int64_t now = this->get_time();
+
+    // Move past envelopes that are already complete:
+
+    while (this->get_current()->get_stop_time() >= 0 &&
+           now >= this->get_current()->get_stop_time()) {
+
+        this->next_envelope();
+    }
+
+    // Determine the value we are currently operating at:
+
+    auto* cur = this->get_current();
+
+    double value = cur->get_start_value();
+
+    if (cur->get_stop_time() >= 0) {
+
+        value += cur->val_diff() *
+                 (static_cast<double>(now - cur->get_start_time()) /
+                  static_cast<double>(cur->time_diff()));
+    }
+
+    // Add linear ramp for release:
+
+    std::unique_ptr<BaseEnvelope> rel = std::make_unique<LinearRamp>();
+
+    rel->set_start_value(value);
+    rel->set_stop_value(0);
+    rel->set_start_time(now);
+    rel->set_stop_time(now + this->release);
+
+    auto* last = rel.get();
+
+    this->add_envelope(rel.get());
+    this->envs.add_object(rel);
+
+    // Move to the release:
+
+    while (this->get_current() != last) {
+
+        this->next_envelope();
+    }
+
+    this->release_stop = now + this->release;
 }
-- 
2.43.0


From 0be2ad6f904692496339d61b293c0903207b4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 24/29] fix: parallel module's thread cannot miss a stop or a
 raised limit, and ends on restart and destruction

---
 include/maec/parallel.hpp | 75 +++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..2723cf9 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -106,9 +106,48 @@ private:
         }
     }
 
+    /**
+     * @brief Ends the thread
+     *
+     * We ask the thread to end, and wait for it if possible.
+     *
+     */
+    void halt() {
+
+        {
+            // Grab the lock, the thread could otherwise
+            // miss our notification between checking the value and waiting
+
+            std::lock_guard<std::mutex> lock(qmut);
+
+            // Set the done value to be true
+
+            done = true;
+        }
+
+        // Notify all condition variables
+
+        this->cv.notify_all();
+
+        // Join the thread and wait for completion if possible.
+        if (this->thread.joinable()) {
+            // If stop() is being called from the worker thread itself,
+            // attempting to join would cause a resource deadlock. In that
+            // case detach the std::thread object instead to avoid throwing.
+            if (this->thread.get_id() != std::this_thread::get_id()) {
+                this->thread.join();
+            } else {
+                this->thread.detach();
+            }
+        }
+    }
+
 public:
     ParallelModule() = default;
 
+    /// A module that is destroyed while running ends its thread
+    ~ParallelModule() override { this->halt(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -129,7 +168,17 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            qsize = size;
+        }
+
+        // The thread may be able to continue:
+
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
@@ -158,6 +207,10 @@ public:
 
         AudioModule<>::start();
 
+        // End the previous run, if it is still going
+
+        this->halt();
+
         {
             // We grab the lock to ensure our next operation
             // on the queue is valid.
@@ -197,25 +250,9 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
-
-        done = true;
-
-        // Notify all condition variables
-
-        this->cv.notify_all();
+        // End the thread
 
-        // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
-        }
+        this->halt();
     }
 
     /**
-- 
2.43.0


From 6aff88dc30b04a990501cd58ba5a86652cb505e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 25/29] fix: state operations of modules behind a parallel
 module wait for their processing

---
 include/maec/parallel.hpp | 64 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 2723cf9..080aed8 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -63,6 +63,9 @@ private:
     /// Boolean determining if threads should be done
     std::atomic<bool> done = false;
 
+    /// Mutex held while the backwards modules are being processed
+    std::mutex pmut;
+
     /**
      * @brief Function ran by the thread
      *
@@ -93,7 +96,10 @@ private:
             lock.unlock();
 
             // Process the backwards module without holding the queue lock.
-            this->backward().meta_process();
+            {
+                std::lock_guard<std::mutex> plock(pmut);
+                this->backward().meta_process();
+            }
 
             // Re-acquire the lock to push the produced buffer.
             lock.lock();
@@ -255,6 +261,62 @@ public:
         this->halt();
     }
 
+    /**
+     * @brief Custom meta start operation
+     *
+     * We end a previous run before the backwards modules are started,
+     * they must not be processing at that time.
+     *
+     */
+    void meta_start() override {
+
+        this->halt();
+
+        AudioModule<>::meta_start();
+    }
+
+    /**
+     * @brief Custom meta stop operation
+     *
+     * We end the thread before the backwards modules are stopped,
+     * they must not be processing at that time.
+     *
+     */
+    void meta_stop() override {
+
+        this->halt();
+
+        AudioModule<>::meta_stop();
+    }
+
+    /**
+     * @brief Custom meta finish operation
+     *
+     * We make sure the backwards modules are not processing
+     * while they are finished.
+     *
+     */
+    void meta_finish() override {
+
+        std::lock_guard<std::mutex> lock(pmut);
+
+        AudioModule<>::meta_finish();
+    }
+
+    /**
+     * @brief Custom meta info sync operation
+     *
+     * We make sure the backwards modules are not processing
+     * while they are synchronised.
+     *
+     */
+    void meta_info_sync() override {
+
+        std::lock_guard<std::mutex> lock(pmut);
+
+        AudioModule<>::meta_info_sync();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From d96d1d6f7f747719d78ee208f10c9446d2887638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 26/29] fix: ALSA device info handles missing devices and
 hints, and closes its devices once

---
 include/maec/io/alsa_module.hpp |  2 +-
 src/io/alsa_module.cpp          | 67 ++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/include/maec/io/alsa_module.hpp b/include/maec/io/alsa_module.hpp
index b9ef444..c66de7d 100644
--- a/include/maec/io/alsa_module.hpp
+++ b/include/maec/io/alsa_module.hpp
@@ -82,7 +82,7 @@
 struct DeviceInfo {
 
     /// The id of this device
-    int id;
+    int id = 0;
 
     /// The name of this device
     std::string name;
diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..adda447 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -35,10 +35,10 @@ void DeviceInfo::create_device(void** hint, int id) {
     char* descr = snd_device_name_get_hint(*hint, "DESC");
     char* io = snd_device_name_get_hint(*hint, "IOID");
 
-    // Set name and description:
+    // Set name and description, devices may lack either:
 
-    this->name = std::string(n);
-    this->description = std::string(descr);
+    this->name = n != nullptr ? std::string(n) : std::string();
+    this->description = descr != nullptr ? std::string(descr) : std::string();
 
     // Determine the IO type:
 
@@ -73,21 +73,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, query our device:
 
     this->update();
 }
@@ -177,8 +163,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -192,6 +178,13 @@ int ALSABase::get_device_count() {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    if (err < 0 || hints == nullptr) {
+
+        // There is nothing to count:
+
+        return 0;
+    }
+
     n = hints;
 
     // Iterate until we reach the end:
@@ -227,9 +220,20 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
     // Note: Using get_device_count() ensures we aren't repeating ourselves.
     // but is it the most efficient? Probably not...
 
-    if (index >= this->get_device_count()) {
-        // TODO: DO SOMETHING!
-        // NOT DOING SOMETHING WILL RESULT IN A SEG FAULT!!!!
+    if (err < 0 || hints == nullptr || index < 0 ||
+        index >= this->get_device_count()) {
+
+        // No such device, report that we could not load it:
+
+        if (hints != nullptr) {
+
+            snd_device_name_free_hint(hints);
+        }
+
+        DeviceInfo missing;
+        missing.load_fail = true;
+
+        return missing;
     }
 
     // Otherwise, seek n to the proper value:
@@ -260,18 +264,29 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
-    n = hints;
-
-    // Iterate over each device:
+    // Iterate over each device,
+    // if we do not find it then we report that we could not load it:
 
     int id = 0;
     DeviceInfo info;
+    info.load_fail = true;
+
+    if (err < 0 || hints == nullptr) {
+
+        return info;
+    }
+
+    n = hints;
 
     for (; *n != nullptr; ++n) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* rname = snd_device_name_get_hint(*n, "NAME");
+
+        std::string const hname(rname != nullptr ? rname : "");
+
+        free(rname);
 
         // Determine if the name is our target:
 
-- 
2.43.0


From 250c717f53dbe1617d44b39f42ac1e865b950ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 27/29] fix: ALSA start and stop survive unavailable devices
 and restarts, and leave unset values to the device

---
 src/io/alsa_module.cpp | 56 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index adda447..a031576 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -318,13 +318,25 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
 void ALSABase::alsa_start() {
 
-    // TODO: Implement error checking and correction!
+    // End a previous run, if it is still going:
+
+    this->alsa_stop();
 
     // Create the PCM device:
 
     int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
                            SND_PCM_STREAM_PLAYBACK, 0);
 
+    if (err < 0) {
+
+        // We have encountered an error, DO NOT CONTINUE!
+
+        this->pcm = nullptr;
+        this->return_code = err;
+
+        return;
+    }
+
     // Allocate the hardware parameters:
 
     snd_pcm_hw_params_t* params = nullptr;
@@ -350,12 +362,29 @@ void ALSABase::alsa_start() {
                                          SND_PCM_ACCESS_RW_INTERLEAVED);
     int b = snd_pcm_hw_params_set_format(
         pcm, params, SND_PCM_FORMAT_S16);  // THIS FAILS, ONLY WITH FLOAT_64
-    int c = snd_pcm_hw_params_set_channels(pcm, params, this->device.channels);
-    int d =
+
+    // Set the values that are constrained:
+
+    if (this->device.channels != 0) {
+
+        snd_pcm_hw_params_set_channels(pcm, params, this->device.channels);
+    }
+
+    if (this->device.sample_rate != 0) {
+
         snd_pcm_hw_params_set_rate(pcm, params, this->device.sample_rate, 0);
-    int eee = snd_pcm_hw_params_set_period_size(pcm, params,
-                                                this->device.period_size, 0);
-    snd_pcm_hw_params_set_periods(pcm, params, this->device.period, 0);
+    }
+
+    if (this->device.period_size != 0) {
+
+        snd_pcm_hw_params_set_period_size(pcm, params,
+                                          this->device.period_size, 0);
+    }
+
+    if (this->device.period != 0) {
+
+        snd_pcm_hw_params_set_periods(pcm, params, this->device.period, 0);
+    }
 
     // Commit the parameters:
 
@@ -386,17 +415,26 @@ void ALSABase::alsa_start() {
 
 void ALSABase::alsa_stop() {
 
+    // Without a device there is nothing to stop:
+
+    if (this->pcm == nullptr) {
+
+        return;
+    }
+
     // Drain the device:
 
     snd_pcm_drain(this->pcm);
 
+    // Free the hardware:
+
+    snd_pcm_hw_free(this->pcm);
+
     // Close the PCM device:
 
     snd_pcm_close(this->pcm);
 
-    // Free the hardware:
-
-    snd_pcm_hw_free(this->pcm);
+    this->pcm = nullptr;
 }
 
 void ALSASink::process() {
-- 
2.43.0


From 2de082785dee148c8c1053d1291594174f8e93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 28/29] fix: ALSASink sends every frame of a block once and
 syncs the device's format

---
 src/io/alsa_module.cpp | 77 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 15 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index a031576..9eb723d 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -439,35 +439,65 @@ void ALSABase::alsa_stop() {
 
 void ALSASink::process() {
 
+    // Without a device there is nowhere to send the data:
+
+    if (this->pcm == nullptr) {
+
+        return;
+    }
+
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
     squish_inter(&this->buff, temp.begin(), &mf_int16);
 
-    // Determine if we need to prepare the device again:
+    // Finally, send the data along, until all frames are accepted:
 
-    if (this->return_code == -EPIPE) {
+    auto* data = temp.data();
+    auto frames =
+        static_cast<snd_pcm_uframes_t>(temp.size() / buff.channels());
+    bool retried = false;
 
-        // Underrun occurred, prepare the device again:
-        std::cout << "ALSA Underrun (Before)" << std::endl;
+    while (frames > 0) {
 
-        snd_pcm_prepare(this->pcm);
-    }
+        this->return_code =
+            static_cast<int>(snd_pcm_writei(this->pcm, data, frames));
+
+        if (this->return_code == -EPIPE) {
 
-    // Finally, send the data along:
+            // Underrun occurred, prepare the device again:
 
-    this->return_code =
-        snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+            std::cout << "ALSA Underrun" << std::endl;
+
+            snd_pcm_prepare(this->pcm);
+
+            // Nothing was accepted, try again once:
+
+            if (retried) {
+
+                break;
+            }
+
+            retried = true;
+
+            continue;
+        }
 
-    if (this->return_code == -EPIPE) {
-        // Underrun occurred
+        if (this->return_code <= 0) {
 
-        std::cout << "ALSA Underrun (After)" << std::endl;
-        snd_pcm_prepare(this->pcm);
+            // We have encountered an error, DO NOT CONTINUE!
+
+            break;
+        }
+
+        // Move past the frames that were accepted:
+
+        data += this->return_code * static_cast<int>(buff.channels());
+        frames -= this->return_code;
+        retried = false;
     }
 }
 
@@ -488,6 +518,23 @@ void ALSASink::start() {
 
 void ALSASink::info_sync() {
 
+    // Preform the usual sync:
+
+    PeriodSink::info_sync();
+
+    // Blocks must have the format of the device:
+
+    if (this->get_device().channels != 0) {
+
+        this->get_info()->channels =
+            static_cast<int>(this->get_device().channels);
+    }
+
+    if (this->get_device().sample_rate != 0) {
+
+        this->get_info()->sample_rate = this->get_device().sample_rate;
+    }
+
     // Set the period number:
 
     this->set_period(this->get_device().period);
-- 
2.43.0


From 661828800035f8fbefd1eb420212ef6bab9dc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 29/29] fix: wave reader accepts a stream that is already
 started

---
 src/io/wav.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index f1406a3..e758a52 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -179,9 +179,12 @@ void UnknownChunk::encode(BaseMOStream& stream) {
 
 void WaveReader::start() {
 
-    // First, start the stream:
+    // First, start the stream (unless this has been done already):
+
+    if (this->stream->get_state() != BaseMIStream::mstate::started) {
 
-    stream->start();
+        this->stream->start();
+    }
 
     // Next, read file header:
 
-- 
2.43.0

