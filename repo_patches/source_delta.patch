From 6c47759ada240b10447ade817285235909268a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:22 +0000
Subject: [PATCH 01/29] fix: bits: Avoid undefined shift when reading an
 exhausted bitstream

When the whole accumulator has been consumed and no byte remains, the
accumulator was shifted right by its full width (32), that is undefined
behaviour. The bits read past the start of the buffer are now 0, as
intended.
---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From 893b4ec7a02edd5b596fa1c2db9a5d3462d0f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:42 +0000
Subject: [PATCH 02/29] fix: Saturate decoded samples before conversion to
 integer

A bitstream can carry values that decode far beyond the range of 32 bits
integers. The conversion of such float values was undefined behaviour, and
output the minimum sample value whatever the sign on usual targets, where
the float output format correctly saturates.
---
 src/lc3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..c9ad6e6 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,7 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32767.f);
+        int32_t s = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
         *pcm = LC3_SAT16(s);
     }
 }
@@ -506,8 +507,9 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32768.f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +531,9 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32768.f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From cb45fab4ae4492bc75dfc0c9bdc1cef28278c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:03 +0000
Subject: [PATCH 03/29] fix: fastmath: Prevent exponent underflow when scaling
 down by power of 2

Scaling down a very small number wrapped its exponent around, and returned
a huge value. Decoding to float samples after a long loss of the stream
(about 500 consecutive frames, when the concealed signal fades below 1e-34)
output full-scale noise instead of silence.
---
 src/fastmath.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..9bbe228 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -40,12 +40,16 @@
  * Fast multiply floating-point number by integral power of 2
  * x               Operand, finite number
  * exp             Exponent such that 2^x is finite
- * return          2^exp
+ * return          x * 2^exp, 0 on underflow
  */
 static inline float lc3_ldexpf(float _x, int exp) {
     union { float f; int32_t s; } x = { .f = _x };
 
-    if (x.s & LC3_IEEE754_EXP_MASK)
+    int e = (x.s & LC3_IEEE754_EXP_MASK) >> LC3_IEEE754_EXP_SHL;
+    if (e + exp <= 0)
+        return 0;
+
+    if (e)
         x.s += exp << LC3_IEEE754_EXP_SHL;
 
     return x.f;
-- 
2.43.0


From e2348a86726ea04f1eec24b9819f0c839768ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:37 +0000
Subject: [PATCH 04/29] fix: Reach the maximum size of frame blocks on high
 bitrates

The bitrate was limited to 8 times the high-resolution maximum (672 kbps),
which is below the rate of 400 bytes frames of 2.5 ms (1280 kbps).
The size of blocks of 5 channels or more, with 2.5 ms frames, was limited to
1680 bytes, even for an 'INT_MAX' bitrate documented to return the maximum.
---
 src/lc3.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index c9ad6e6..2b8b382 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -115,9 +115,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
-
-    return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
+    return LC3_CLIP(((int64_t)bitrate * (int)(1 + dt)) / 3200,
         nchannels * lc3_min_frame_bytes(dt, sr),
         nchannels * lc3_max_frame_bytes(dt, sr) );
 }
-- 
2.43.0


From 03ba8e4f180496b23d932ee19e906b05ba89a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 05/29] fix: C++ Decoder::Decode() to int32_t samples outputs
 24 bits in 32 bits words

The overload selected the packed 24 bits format, while the matching
Encoder::Encode() overload reads the S24 format.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From 229ad1b7ae5159f07964eee11ba4ec1969f998f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 06/29] fix: C++ Decoder::Decode() of a lost block with several
 channels

A null input performs PLC; do not offset it for the next channels.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..2f605a3 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,7 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr) in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 4132f4ba7a82315a13023e85597991f41e9f2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 07/29] fix: C++ classes allocate nothing for a negative PCM
 samplerate

The setup functions fall back to the stream samplerate for any value that
is not positive, the context size has to follow the same rule.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 2f605a3..dc7c3d6 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -53,7 +53,7 @@ class Base {
   Base(int dt_us, int sr_hz, int sr_pcm_hz, size_t nchannels, bool hrmode)
       : dt_us_(dt_us),
         sr_hz_(sr_hz),
-        sr_pcm_hz_(sr_pcm_hz == 0 ? sr_hz : sr_pcm_hz),
+        sr_pcm_hz_(sr_pcm_hz <= 0 ? sr_hz : sr_pcm_hz),
         nchannels_(nchannels),
         hrmode_(hrmode) {
     states.reserve(nchannels_);
-- 
2.43.0


From 28af6ae18f7591dd96b580589cc6fa382921e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 08/29] fix: Python encoder does not pad short floating point
 input

---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..8b46a47 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -345,7 +345,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From dd26c0bf32bc7d62e64f513ae66e92c7ab125573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 09/29] fix: Python encoder refuses in-range input of several
 channels

The sum runs over the samples of all channels.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8b46a47..c76191c 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -342,7 +342,7 @@ class Encoder(_Base):
             pcm_buffer = array.array("f", pcm)
 
             # Invert test to catch NaN
-            if not abs(sum(pcm_buffer)) / frame_samples < 2:
+            if not abs(sum(pcm_buffer[:pcm_len])) / pcm_len < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
             padding = max(pcm_len - len(pcm_buffer), 0)
-- 
2.43.0


From cfa2e3c7443f000417b92d40a660647c18170528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 10/29] fix: Python encoder and decoder contexts are never
 freed

The generator expression was not consumed.
---
 python/lc3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index c76191c..0f75dae 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -300,7 +300,8 @@ class Encoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -466,7 +467,8 @@ class Decoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From 17b030479b0747b2c95aa25ebd5756c91d65acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 11/29] fix: Python classes allocate nothing for a negative PCM
 samplerate

The setup functions fall back to the stream samplerate for any value that
is not positive, the context size has to follow the same rule.
---
 python/lc3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 0f75dae..18fafc9 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -61,7 +61,11 @@ class _Base:
         self.hrmode = hrmode
         self.frame_duration_us = frame_duration_us
         self.sample_rate_hz = sample_rate_hz
-        self.pcm_sample_rate_hz = pcm_sample_rate_hz or self.sample_rate_hz
+        self.pcm_sample_rate_hz = (
+            pcm_sample_rate_hz
+            if pcm_sample_rate_hz and pcm_sample_rate_hz > 0
+            else self.sample_rate_hz
+        )
         self.num_channels = num_channels
 
         if self.frame_duration_us not in [2500, 5000, 7500, 10000]:
-- 
2.43.0


From 61a3997a7bc9bda1f1dab32e6acf80fcd4e1ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:31 +0000
Subject: [PATCH 12/29] fix: Python fallback on libraries without
 high-resolution interface

The context pointers were truncated to int, and the block size computed
for 2 channels only.
---
 python/lc3.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 18fafc9..2e5a3bb 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -111,7 +111,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -268,6 +268,9 @@ class Encoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             setattr(lib, "lc3_hr_encoder_size", lc3_hr_encoder_size)
             setattr(lib, "lc3_hr_setup_encoder", lc3_hr_setup_encoder)
 
@@ -435,6 +438,9 @@ class Decoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             setattr(lib, "lc3_hr_decoder_size", lc3_hr_decoder_size)
             setattr(lib, "lc3_hr_setup_decoder", lc3_hr_setup_decoder)
 
-- 
2.43.0


From 59923d5829b002a3d72747aa2a43604ed1d9f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 13/29] fix: wave files with an extended format chunk

The extension was skipped in the wrong direction.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..8b17be5 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, 8L + format.size - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From fc7397a8b92890c58b97bd59800a04f0a0944233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 14/29] fix: wave files with chunks of odd size

RIFF chunks are padded to an even size.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 8b17be5..1e98920 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -115,7 +115,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
     fseek(fp, 8L + format.size - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+          ; fseek(fp, (long)data.size + (data.size & 1), SEEK_CUR) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From 4d37e04439950b5ffa79b382b74449f4ca4fcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 15/29] fix: elc3 encodes as audio the chunks following the
 samples

Stop reading at the end of the data chunk.
---
 tools/elc3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..1a61b15 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -239,7 +239,9 @@ int main(int argc, char *argv[])
 
     for (int i = 0; i * frame_samples < encode_samples; i++) {
 
-        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
+        int nleft = nsamples - i * frame_samples;
+        int nread = nleft <= 0 ? 0 : wave_read_pcm(fp_in, pcm_sbytes, nchannels,
+            nleft < frame_samples ? nleft : frame_samples, pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
-- 
2.43.0


From 6247fd2f5f4dc977f046db60913211f6fe5c8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 16/29] fix: elc3 bounds the bitrate according to the encoder
 samplerate

---
 tools/elc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index 1a61b15..2bfeaee 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -195,10 +195,10 @@ int main(int argc, char *argv[])
         ((int64_t)nsamples * enc_srate_hz) / srate_hz;
 
     int block_bytes = lc3_hr_frame_block_bytes(
-        p.hrmode, frame_us, srate_hz, nchannels, p.bitrate);
+        p.hrmode, frame_us, enc_srate_hz, nchannels, p.bitrate);
 
     int bitrate = lc3_hr_resolve_bitrate(
-        p.hrmode, frame_us, srate_hz, block_bytes);
+        p.hrmode, frame_us, enc_srate_hz, block_bytes);
 
     if (bitrate != p.bitrate)
         fprintf(stderr, "Bitrate adjusted to %d bps\n", bitrate);
-- 
2.43.0


From fb0dbf58fe8a39303cc8009f5a360014bd1a5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 17/29] fix: dlc3 writes too many samples of streams shorter
 than a frame

---
 tools/dlc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..8e2a17b 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -251,8 +251,8 @@ int main(int argc, char *argv[])
         }
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
-        int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+        int pcm_nwrite = MIN(frame_samples,
+            encode_samples - i*frame_samples) - pcm_offset;
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From a3019569820620121c1a7e0eaba46cf9298e73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 18/29] fix: dlc3 outputs stale or uninitialized samples on
 undersized frames

Conceal the frames refused by the decoder.
---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8e2a17b..c85e32a 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -245,6 +245,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From a03b243fe62ddae1cdfc6fe4e9335aaff0f2f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 19/29] fix: Python encoder tool with 2.5 and 7.5 ms frame
 durations

---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index 3246c4c..ffc2902 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -57,7 +57,7 @@ stream_length = wavfile.getnframes()
 # --- Setup encoder ---
 
 enc = lc3.Encoder(
-    int(args.frame_duration)*1000, samplerate, nchannels, libpath=args.libpath)
+    int(args.frame_duration * 1000), samplerate, nchannels, libpath=args.libpath)
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
-- 
2.43.0


From bfded01a5707205a2d5626bfce5ea429a9b7dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 20/29] fix: Python encoder tool does not flush the codec delay

The decoder tools expect frames up to the end of the delayed stream.
---
 python/tools/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index ffc2902..581457c 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -61,6 +61,7 @@ enc = lc3.Encoder(
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
+encoded_length = stream_length + enc.get_delay_samples()
 
 # --- Setup output ---
 
@@ -72,7 +73,7 @@ f_lc3.write(struct.pack(
 
 # --- Encoding loop ---
 
-for i in range(0, stream_length, frame_length):
+for i in range(0, encoded_length, frame_length):
 
     f_lc3.write(struct.pack('=H', frame_size))
 
-- 
2.43.0


From 8dcba15552feec15f4b64e167b73c750bc3ae8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:25:44 +0000
Subject: [PATCH 21/29] fix: overflow of the cost in the estimation of the
 global gain

With 10 ms frames at 96 KHz in high resolution, the sum over the 240 blocks
exceeds the Q16 range on loud noise; the estimation then selects a gain far
too low, that ends up after adjustment at a gain that quantizes everything
to zero.
---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From 1a68209b3b41081c1fdd271aefa1d9bf13ac4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:57 +0000
Subject: [PATCH 22/29] fix: encode a pair of zeros when no spectral
 coefficient is kept

The side information signals at least 2 coefficients. When the budget leaves
none of them, nothing was coded; the decoder then reads a pair of
coefficients of any value, at the gain selected for the frame.
---
 src/spec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spec.c b/src/spec.c
index 96ec0e3..47eef2a 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -893,6 +893,13 @@ void lc3_spec_encode(lc3_bits_t *bits,
 
     put_noise_factor(bits, estimate_noise(dt, bw, lc3_hr(sr), x, nq));
 
+    /* --- The decoder reads at least one pair of coefficients --- */
+
+    if (nq < 2) {
+        x[0] = x[1] = 0;
+        nq = 2;
+    }
+
     put_quantized(bits, dt, sr, nbytes, x, nq, lsb_mode);
 
     int nbits_left = lc3_get_bits_left(bits);
-- 
2.43.0


From c4e18fb7625df4ce962f4f0d007efba42e077ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:40 +0000
Subject: [PATCH 23/29] fix: TNS data exceeding the capacity of the smallest
 frames

At 20 bytes, the coefficients of 2 filters can use all the bits left by the
other parameters. The spectrum then overwrites the end of the frame, that
the decoder refuses; with a budget of exactly 0 bits, no limit applies.
---
 src/tns.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tns.c b/src/tns.c
index b2b9305..fffa73c 100644
--- a/src/tns.c
+++ b/src/tns.c
@@ -418,6 +418,13 @@ void lc3_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw,
         unquantize_rc(data->rc[f], data->rc_order[f], rc[f]);
     }
 
+    /* In the smallest frames, keep the space for the other parameters
+     * (up to 74 bits), and a pair of null spectral coefficients (6 bits) */
+
+    for (int f = data->nfilters - 1; f >= 0 &&
+            lc3_tns_get_nbits(data) > 8*nbytes - 80; f--)
+        data->rc_order[f] = 0;
+
     forward_filtering(dt, bw, data->rc_order, rc, x);
 }
 
-- 
2.43.0


From 0a77a662932ee4c293e9627626e79a800f506096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:41 +0000
Subject: [PATCH 24/29] fix: misaligned residual in high-resolution on a value
 just under 1/2

The addition of 0.5 rounds 0x1.fffffep-2 up to 1; the coefficient is coded
as 1 while the encoding of the residual skips it, shifting the bits of all
the next coefficients.
---
 src/spec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spec.c b/src/spec.c
index 47eef2a..068022e 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -343,7 +343,7 @@ LC3_HOT static int compute_nbits(
         for ( ; i < LC3_MIN(*n, (ne + 2) >> (1 - h))
                 && nbits <= nbits_budget; i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? 0x1.fffffep-2f : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -432,7 +432,7 @@ LC3_HOT static void put_quantized(lc3_bits_t *bits,
 
         for ( ; i < LC3_MIN(nq, (ne + 2) >> (1 - h)); i += 2) {
 
-            float xq_off = lc3_hr(sr) ? 0.5f : 6.f/16;
+            float xq_off = lc3_hr(sr) ? 0x1.fffffep-2f : 6.f/16;
             uint32_t a = fabsf(x[i+0]) + xq_off;
             uint32_t b = fabsf(x[i+1]) + xq_off;
 
@@ -639,7 +639,7 @@ LC3_HOT static void put_lsb(lc3_bits_t *bits,
 {
     for (int i = 0; i < n && nbits > 0; i += 2) {
 
-        float xq_off = hrmode ? 0.5f : 6.f/16;
+        float xq_off = hrmode ? 0x1.fffffep-2f : 6.f/16;
         uint32_t a = fabsf(x[i+0]) + xq_off;
         uint32_t b = fabsf(x[i+1]) + xq_off;
 
-- 
2.43.0


From e3ebb9343a89ff3304471bea2039ccffdee224f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:04 +0000
Subject: [PATCH 25/29] fix: 2^x approximation rounded to steps of 1/8 when
 compiled by clang

The `-ffast-math` option allows `x - (v.f - C)` to be evaluated as
`(x + C) - v.f`, which is always null; the shaping gains of the spectrum
had an error up to 4%, on any target including WebAssembly.
---
 src/fastmath.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 9bbe228..f9589f2 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -96,13 +96,15 @@ static inline float lc3_exp2f(float x)
      * Such as x = k/8 + y, with k an integer, and |y| < 0.5/8
      *
      * Note that `fast-math` compiler option leads to rounding error,
-     * disable optimisation with `volatile`. */
+     * disable optimisation with `volatile`. The rounded value is also
+     * stored, as the compiler may otherwise reassociate the subtractions. */
 
     volatile union { float f; int32_t s; } v;
 
     v.f = x + 0x1.8p20f;
     int k = v.s;
-    x -= v.f - 0x1.8p20f;
+    v.f -= 0x1.8p20f;
+    x -= v.f;
 
     /* --- Compute 2^x, with |x| < 1 ---
      * Perform polynomial approximation in range -0.5/8 to 0.5/8,
-- 
2.43.0


From 9e007f87bd9fe9a57cd9ae51d570c567ebd332a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:34 +0000
Subject: [PATCH 26/29] fix: pitch signalled at the onset of a sound

The energy of nearly silent past samples rounds to zero, while their
correlation with the current ones does not. The infinite normalized
correlation was then compared to the threshold of presence of a pitch,
with a result that depends on the compiler (`-ffast-math`).
---
 src/ltpf.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index 08cbae6..f88697b 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -570,6 +570,17 @@ LC3_HOT static float interpolate_corr(const float *x, int d)
     return y;
 }
 
+/**
+ * Normalize a correlation
+ * r               Correlation of two signals
+ * e0, e1          Energies of the signals, null when too weak
+ * return          The normalized correlation, 0 when a signal is too weak
+ */
+static float norm_corr(float r, float e0, float e1)
+{
+    return e0 > 0 && e1 > 0 ? r / sqrtf(e0 * e1) : 0;
+}
+
 /**
  * Pitch detection algorithm
  * ltpf            Context of analysis
@@ -598,10 +609,10 @@ static bool detect_pitch(struct lc3_ltpf_analysis *ltpf,
     const int16_t *x2 = x - (r0 + t2);
 
     float nc1 = rm1 <= 0 ? 0 :
-        rm1 / sqrtf(dot(x, x, n) * dot(x1, x1, n));
+        norm_corr(rm1, dot(x, x, n), dot(x1, x1, n));
 
     float nc2 = rm2 <= 0 ? 0 :
-        rm2 / sqrtf(dot(x, x, n) * dot(x2, x2, n));
+        norm_corr(rm2, dot(x, x, n), dot(x2, x2, n));
 
     int t1sel = nc2 <= 0.85f * nc1;
     ltpf->tc = (t1sel ? t1 : t2);
@@ -709,7 +720,8 @@ bool lc3_ltpf_analyse(
         interpolate(x_12k8, n_12k8, 0, u);
         interpolate(x_12k8 - (pitch >> 2), n_12k8, pitch & 3, v);
 
-        nc = dot(u, v, n_12k8) / sqrtf(dot(u, u, n_12k8) * dot(v, v, n_12k8));
+        nc = norm_corr(dot(u, v, n_12k8),
+            dot(u, u, n_12k8), dot(v, v, n_12k8));
     }
 
     /* --- Activation --- */
-- 
2.43.0


From 632c0ae079b08ca7871e2a70e2bbd847cb930e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:05 +0000
Subject: [PATCH 27/29] fix: pitch analysis of full scale transitions wraps
 around

The output of the 50 Hz high-pass filter exceeds the 32 bits on large
transitions, a wrapped value is then fed back to the filter, whose 64 bits
state overflows in turn. Keep the recursive part on 64 bits, and saturate
the returned sample.
---
 src/ltpf.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index f88697b..a60e4de 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -180,20 +180,25 @@ static const int16_t h_96k_12k8_q15[2*120] = {
  * hp50            Biquad filter state
  * xn              Input sample, in fixed Q30
  * return          Filtered sample, in fixed Q30
+ *
+ * The gain of the filter on transitions reaches 2.4 : a full scale input
+ * exceeds the 32 bits, the returned sample is saturated (to the opposites of
+ * the same 16 bits value once rounded), and never the recursive part.
  */
 LC3_HOT static inline int32_t filter_hp50(
     struct lc3_ltpf_hp50_state *hp50, int32_t xn)
 {
-    int32_t yn;
+    int64_t yn;
 
     const int32_t a1 = -2110217691, a2 = 1037111617;
     const int32_t b1 = -2110535566, b2 = 1055267782;
+    const int32_t yn_max = INT32_MAX - (1 << 15);
 
     yn       = (hp50->s1 + (int64_t)xn * b2) >> 30;
-    hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - (int64_t)yn * a1);
-    hp50->s2 = (           (int64_t)xn * b2 - (int64_t)yn * a2);
+    hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - yn * a1);
+    hp50->s2 = (           (int64_t)xn * b2 - yn * a2);
 
-    return yn;
+    return LC3_CLIP(yn, -yn_max, yn_max);
 }
 
 /**
-- 
2.43.0


From 425d69e6afce3f6ef1ffdaa8ef35565b790510a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:05 +0000
Subject: [PATCH 28/29] fix: interpolated pitch samples wrap around on full
 scale transitions

The gain of the interpolation filter slightly exceeds 1.
---
 src/ltpf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index a60e4de..c49a878 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -532,16 +532,16 @@ LC3_HOT static void interpolate(const int16_t *x, int n, int d, int16_t *y)
         int32_t yn;
 
         yn = (x0 = *(x++)) * h[0] + x1 * h[1] + x2 * h[2] + x3 * h[3];
-        *(y++) = yn >> 15;
+        *(y++) = LC3_CLIP(yn >> 15, -INT16_MAX, INT16_MAX);
 
         yn = (x3 = *(x++)) * h[0] + x0 * h[1] + x1 * h[2] + x2 * h[3];
-        *(y++) = yn >> 15;
+        *(y++) = LC3_CLIP(yn >> 15, -INT16_MAX, INT16_MAX);
 
         yn = (x2 = *(x++)) * h[0] + x3 * h[1] + x0 * h[2] + x1 * h[3];
-        *(y++) = yn >> 15;
+        *(y++) = LC3_CLIP(yn >> 15, -INT16_MAX, INT16_MAX);
 
         yn = (x1 = *(x++)) * h[0] + x2 * h[1] + x3 * h[2] + x0 * h[3];
-        *(y++) = yn >> 15;
+        *(y++) = LC3_CLIP(yn >> 15, -INT16_MAX, INT16_MAX);
     }
 }
 
-- 
2.43.0


From b80f2ee73454433373fbe66b30ce7c5b9dfd38de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 29/29] fix: report an output file that could not be written
 (elc3, dlc3)

A full device left a truncated file behind, with a success status.
---
 tools/dlc3.c | 3 +++
 tools/elc3.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index c85e32a..c222e57 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -279,6 +279,9 @@ int main(int argc, char *argv[])
     if (fp_in != stdin)
         fclose(fp_in);
 
+    if (fflush(fp_out) != 0 || ferror(fp_out))
+        error(EIO, "Writing output file");
+
     if (fp_out != stdout)
         fclose(fp_out);
 }
diff --git a/tools/elc3.c b/tools/elc3.c
index 2bfeaee..7d60685 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -286,6 +286,9 @@ int main(int argc, char *argv[])
     if (fp_in != stdin)
         fclose(fp_in);
 
+    if (fflush(fp_out) != 0 || ferror(fp_out))
+        error(EIO, "Writing output file");
+
     if (fp_out != stdout)
         fclose(fp_out);
 }
-- 
2.43.0

