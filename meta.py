#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after an edit)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=("return values and output buffers of the public API",), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=list(state), observe=list(observe), technique=technique, note=note, na=na))

ENC = ["include/lc3.h", "src/lc3.c"]

prop("C01", "Decoding arbitrary data is memory-safe and well-defined",
     "For every supported stream configuration, output format and stride, decoding any sequence of received, corrupted and lost frames, each of any allowed size and any content, stays inside the context, the given input bytes and the output samples it owns. It performs no undefined arithmetic, uses no memory that nobody wrote, terminates, and answers each frame with decoded or concealed.",
     ["inputs", "histories", "configurations"], "all frame contents of 20 bytes up to the maximum, all loss/corruption histories, all configurations, formats and strides",
     "The input space is all byte strings over all decoder histories; fuzz runs in the tests sample one configuration family without semantic structure.",
     ["src/lc3.c", "src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/mdct.c", "src/plc.c"],
     [("bitstream reader bounds and overflow accounting", "src/bits.c accu_load, ac_get, get_bits_left"), ("field validation", "src/spec.c lc3_spec_get_side, src/sns.c lc3_sns_get_data, src/tns.c lc3_tns_get_data"), ("sample conversion with saturation", "src/lc3.c store_s16..store_float")],
     ["decoder context: LTPF history ring, overlap buffer, PLC spectrum"], ["sanitizer reports, return value of lc3_decode"],
     technique="structure-aware random decoder histories under ASan+UBSan (clang, gcc) and MSan", note="Exploration: generated histories only; relies on ASan/UBSan to notice a violation. Left shifts of negative or overflowing signed values are not reported (the code base relies on their two's complement meaning).")

prop("C02", "Encoding any PCM is memory-safe and well-defined",
     "For every supported configuration, PCM format, stride and allowed frame size, encoding any sequence of frames of in-range PCM stays inside the context, the given samples and the output bytes, performs no undefined arithmetic, uses no memory that nobody wrote, terminates and succeeds.",
     ["inputs", "histories", "configurations"], "all in-range PCM contents over all encoder histories, sizes changing from frame to frame, pitch filter disabled at any point",
     "PCM content drives quantiser, rate loop and entropy coder through data-dependent paths; no finite sample of signals covers them.",
     ["src/lc3.c", "src/spec.c", "src/bits.c", "src/ltpf.c", "src/attdet.c", "src/sns.c", "src/tns.c", "src/mdct.c"],
     [("bit budget and writer bounds", "src/bits.c accu_flush, ac_put, ac_terminate"), ("gain estimation and quantisation limits", "src/spec.c estimate_gain, adjust_gain, quantize"), ("PCM loading", "src/lc3.c load_s16..load_float")],
     ["encoder context: overlap, pitch analysis, rate control offset"], ["sanitizer reports, return value of lc3_encode"],
     technique="random encoder histories under ASan+UBSan (clang, gcc) and MSan", note="Exploration; relies on ASan/UBSan, with float PCM limited to the documented range.")

prop("C03", "Each call reads and writes exactly what it is given",
     "Encoding a frame writes every one of the requested bytes, whatever the buffer held before, and nothing else; decoding writes exactly one frame of samples at the given stride, leaving the samples in between and around untouched. Inputs are never modified, and no caller buffer is used once the call has returned.",
     ["inputs", "histories", "configurations"], "all frame sizes, strides, formats, buffer alignments and prior buffer contents, at every point of a history",
     "An under- or over-write depends on the combination of size, stride, content and prior buffer content; tests use zeroed contiguous buffers.",
     ["src/lc3.c", "src/bits.c"], [("bitstream writer fills and terminates the frame", "src/bits.c lc3_flush_bits, ac_terminate"), ("strided sample store", "src/lc3.c store_*")],
     technique="metamorphic and canary checks over random histories", note="Exploration. Reads outside the inputs are left to C01/C02.")

prop("C04", "Results depend only on configuration, parameters and history",
     "Two instances with the same configuration given the same calls produce identical bytes and samples, whatever their memory held before setup, wherever the memory lies, and whatever other instances do in between or did before in the process.",
     ["histories", "schedules", "configurations"], "all histories, all interleavings of several instances, all prior memory contents",
     "Hidden shared or uninitialised state shows only for particular memory contents or interleavings.",
     ["src/lc3.c", "src/ltpf.c", "src/spec.c", "src/plc.c"], [("all state is in the context", "include/lc3_private.h struct lc3_encoder, struct lc3_decoder"), ("context initialisation", "src/lc3.c lc3_hr_setup_encoder, lc3_hr_setup_decoder")],
     ["whole encoder / decoder contexts"], technique="differential runs with painted memory and interleaved instances; MemorySanitizer", note="Exploration; bitwise comparison of the same build, single thread (threads are C27).")

prop("C05", "Setting up a context again gives a fresh instance",
     "After setup, an encoder or decoder behaves exactly as a brand new one, whatever the same memory was used for before, including a disabled pitch filter, losses, or another configuration.",
     ["histories", "configurations"], "all histories before the second setup, all pairs of configurations",
     "A field missed by setup matters only after a history that made it non-default.",
     ["src/lc3.c"], [("context initialisation", "src/lc3.c lc3_hr_setup_encoder, lc3_hr_setup_decoder"), ("PLC reset", "src/plc.c lc3_plc_reset")], ["whole contexts"],
     technique="stateful differential testing against a new instance; MemorySanitizer", note="Exploration; bitwise comparison.")

prop("C06", "The stride selects samples and nothing else",
     "Encoding or decoding a channel inside an interleaved stream gives exactly the result of processing that channel alone from contiguous samples, for any number of channels and every PCM format.",
     ["inputs", "configurations"], "1 to 8 channels, all formats and configurations, with losses on the decoding side",
     "Needs every combination of stride, format, configuration and channel position.",
     ["src/lc3.c"], [("strided load / store", "src/lc3.c load_*, store_*")], technique="differential testing interleaved vs contiguous", note="Exploration; bitwise comparison.")

prop("C07", "The four PCM formats carry the same audio",
     "A 16-bit signal given as 16-bit, 24-bit, packed 24-bit or float samples encodes to identical frames, as does a 24-bit signal in its two packings. Decoded integers are the float samples rounded to nearest and saturated to the range of the format, keeping the sign; 24-bit values are sign extended, and the format used for one frame does not influence another.",
     ["inputs", "histories", "configurations"], "all sample values including full scale, and decoded values beyond it (also from crafted or corrupted frames), all format sequences",
     "Rounding and saturation errors show on particular values only; overload from a hostile stream is outside what tests produce.",
     ["src/lc3.c"], [("sample conversion", "src/lc3.c load_s16, load_s24, load_s24_3le, load_float, store_s16, store_s24, store_s24_3le, store_float")],
     technique="metamorphic comparison of formats over random histories", note="Exploration; encoding compared bitwise, decoded values within rounding of the float output.")

prop("C08", "Sizing queries follow the documented tables and formulas",
     "For every configuration, bit rate, size and channel count, the queries return the documented number of samples, delay (2.5 ms, 4 ms for 7.5 ms frames), floor size for a bit rate limited to the allowed range (per channel for blocks), and ceiled bit rate for a size; size and bit rate are monotonic and mutually inverse on allowed sizes. Undocumented combinations are answered -1 (or 0 for context sizes), and the plain and high-resolution-off functions agree.",
     ["inputs", "configurations"], "all integers for durations, rates, bit rates (0 to INT_MAX), sizes and channel counts",
     "Rounding, limits and overflow fail at isolated integers among 2^31.",
     ["src/lc3.c", "include/lc3.h", "include/lc3_private.h", "src/tables.h", "src/tables.c"], [("size arithmetic", "src/lc3.c lc3_hr_frame_block_bytes, lc3_hr_resolve_bitrate"), ("limits", "src/tables.c lc3_frame_bytes_hr_lim")],
     technique="random queries against independent 64-bit formulas", note="Exploration of the integer space (millions of queries). The high-resolution minimum is accepted at the documented value or at half of it (what the library deliberately allows).")

prop("C09", "Wrong parameters are refused and have no effect",
     "Setup with an unsupported combination (duration, rate, PCM rate below the stream rate, high-resolution mode, null memory) gives no handle and touches no memory. Encoding or decoding with a null handle or a size outside the allowed range answers -1, writes nothing, and leaves the stream as if the call had not been made.",
     ["inputs", "histories", "configurations"], "all parameter values, refused calls at any point of any history",
     "A refusal that changed state shows only in later frames, and depends on when it happens.",
     ["src/lc3.c"], [("parameter checks", "src/lc3.c lc3_hr_setup_encoder, lc3_encode, lc3_hr_setup_decoder, lc3_decode")], technique="stateful differential testing with injected bad calls", note="Exploration; bitwise comparison with the history without the refused calls.")

prop("C10", "The codec uses only the memory given by the caller",
     "A context of exactly the announced size, or a static memory type documented as sufficient, at any pointer-aligned address, is all the memory an instance reads or writes for any history, and the library never calls the allocator nor keeps data of its own between calls, from the first call of a process on. The handle is the address of that memory.",
     ["histories", "configurations"], "all configurations including resampling and high resolution, all histories",
     "Buffer layout errors depend on configuration and history (history ring position, overlap), and a few bytes past the end usually go unnoticed.",
     ["src/lc3.c", "include/lc3_private.h", "src/tables.h"], [("buffer layout", "include/lc3_private.h LC3_ENCODER_BUFFER_COUNT, LC3_DECODER_BUFFER_COUNT"), ("offsets", "src/lc3.c lc3_hr_setup_*, complete")], ["context memory"],
     technique="random histories with guard bytes, guard pages, an interposed allocator, and the writable data of the shared object compared, in used and new processes", note="Exploration.")

prop("C11", "Every encoded frame is a valid frame for the decoder",
     "Whatever the signal, configuration, size (changing at will from frame to frame) and encoder history, each frame the encoder produces is decoded without concealment, also by a decoder that joins late or outputs at a higher PCM rate.",
     ["inputs", "histories", "configurations"], "all signals and size sequences", "An encoder that exceeds its bit budget or emits an invalid field does so on rare signals and sizes.",
     ["src/lc3.c", "src/spec.c", "src/bits.c", "src/sns.c", "src/tns.c", "src/bwdet.c"], [("bit budget", "src/spec.c compute_nbits, adjust_gain; src/bits.c"), ("matching field layout of writer and reader", "lc3_*_put_* / lc3_*_get_*")],
     technique="encode/decode round trip over random encoder histories", note="Exploration. The audio content is judged by C12 to C14.")

prop("C12", "Audio survives the round trip, at the documented delay",
     "Decoding what was encoded gives the input back, delayed by exactly the announced delay, at the same level and for every configuration, PCM format and allowed size, with a signal to error ratio that grows with the bits available by spectral line.",
     ["inputs", "configurations"], "all audible band-limited signals, levels, formats, sizes and configurations",
     "Quality is a statement about every signal and size; the tests compare a few frames with stored results, and a loss of 10 dB on some configuration would still pass them.",
     ["src/lc3.c", "src/mdct.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/tables.c"],
     [("analysis / synthesis transform", "src/mdct.c lc3_mdct_forward, lc3_mdct_inverse"), ("rate control and quantisation", "src/spec.c lc3_spec_analyze, lc3_spec_put_side"), ("delay", "src/lc3.c lc3_hr_delay_samples")],
     technique="random signals known in closed form, delayed-signal oracle with a calibrated signal to error floor", note="Exploration. The floors lie 6 dB or more under the worst measured on 400000 signals, so they detect gross losses only; fine deviations are left to the conformance properties.")

prop("C13", "Decoded audio is what the LC3 specification says",
     "For every valid frame sequence, whoever produced it, each output sample equals that of the specified decoder (arithmetic decoding, residual, noise filling, global gain, TNS, SNS, inverse transform, long term post filter, output conversion) up to single precision rounding, at every output rate and in every mode.",
     ["inputs", "histories", "configurations"], "all valid frames, including those an encoder never makes, in any sequence, over all configurations and output rates",
     "Most field combinations never occur in test vectors; a wrong table entry, a wrong branch or a state error shows on a few frames only.",
     ["src/lc3.c", "src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/ltpf.c", "src/mdct.c", "src/tables.c"],
     [("entropy decoding", "src/bits.c lc3_ac_read_symbol, src/spec.c lc3_spec_decode"), ("synthesis chain", "src/lc3.c synthesize"), ("post filter", "src/ltpf.c lc3_ltpf_synthesize")],
     ["LTPF history and parameters, overlap"], technique="differential testing against an independent double-precision decoder, over encoded, crafted and mutated frames", note="Exploration. The reference decoder (ref/ref.h) was written from the specification with tables frozen from the repository's Python model; it follows the C code on the two points where frames no encoder makes are read differently.")

prop("C14", "The encoder quantises the spectrum as specified",
     "For every signal, configuration and allowed frame size, the encoder selects for each frame the global gain that the specified rate loop selects, codes the shaped spectrum quantised at that gain up to what the bit budget holds, uses the remaining bits for the refinement of the coefficients, and signals the noise level of the part left out. The decoder then reads back exactly these values.",
     ["inputs", "histories", "configurations"], "all in-range PCM over all encoder histories, frame sizes changing from frame to frame, all configurations and PCM rates",
     "The rate loop, the truncation and the refinement depend on the whole spectrum and on the history; the conformance vectors of the tests hold two frames.",
     ["src/spec.c", "src/bits.c", "src/mdct.c", "src/sns.c", "src/tns.c", "src/tables.c", "src/lc3.c"],
     [("gain estimation and adjustment", "src/spec.c estimate_gain, adjust_gain"), ("bit consumption and truncation", "src/spec.c compute_nbits, quantize"), ("coding of values, LSBs, residual and noise level", "src/spec.c put_quantized, put_lsb, put_residual, estimate_noise"), ("transform, shaping and prediction filters applied before", "src/mdct.c lc3_mdct_forward, src/sns.c spectral_shaping, src/tns.c forward_filtering")],
     ["bit reservoir offset (nbits_off, nbits_spare), overlap"], technique="model-based differential testing: reference encoder model stepped with the library, every decision of each frame compared", note="Exploration. The model follows the shaping, pitch and TNS parameters found in the frame (C28 to C31 decide these) and accepts the neighbours of a decision closer to a tie than single precision can tell.")

prop("C15", "Lost and corrupted frames are concealed as specified",
     "A frame reported lost and a frame whose bytes are invalid give the same audio: a continuation of the last good frame that fades along the specified attenuation, never grows and ends in silence however long the loss, and exact silence when no good frame was ever received.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all loss and corruption patterns, up to 70000 consecutive losses, after any good history",
     "Depends on loss patterns and on the history before them; arithmetic limits show after hundreds of losses.",
     ["src/plc.c", "src/lc3.c"], [("attenuation and sign scrambling", "src/plc.c lc3_plc_synthesize"), ("suspension on good frames", "src/plc.c lc3_plc_suspend, src/lc3.c lc3_decode")], ["PLC seed, count, attenuation; saved spectrum"],
     technique="fault injection over random histories against the reference decoder and a twin decoder", note="Exploration.")

prop("C16", "The effect of a loss ends once good frames arrive",
     "A decoder that lost frames, saw wrong ones or joined late gives, from the second common good frame on, exactly the audio of one that saw everything; while the post filter is in use the difference converges to zero instead.",
     ["histories", "fault_sequences", "configurations"], "all pairs of histories followed by the same good frames",
     "Needs pairs of histories; lingering state shows only after particular losses.",
     ["src/lc3.c", "src/plc.c", "src/ltpf.c", "src/mdct.c"], [("overlap and PLC state", "src/lc3.c synthesize"), ("post filter history", "src/ltpf.c lc3_ltpf_synthesize")], ["whole decoder context"],
     technique="metamorphic testing of twin decoders with injected faults", note="Exploration; bitwise once the post filter has been off for its memory, otherwise a decaying bound.")

prop("C17", "Digital silence stays silence",
     "Encoding all-zero PCM gives valid frames carrying no coefficient, which decode to exact zeros in every format, at once on fresh instances, and after any audio as soon as its tail (overlap, post filter ringing) has passed.",
     ["histories", "configurations"], "all configurations, formats, sizes, and audio histories before the silence",
     "Zero energy drives logarithms, divisions and gain searches to their limits, after histories no test plays.",
     ["src/spec.c", "src/sns.c", "src/bwdet.c", "src/ltpf.c", "src/lc3.c"], [("zero spectrum handling", "src/spec.c estimate_gain, lc3_spec_estimate_noise"), ("noise filling", "src/spec.c fill_noise")], technique="random histories followed by silence", note="Exploration.")

prop("C18", "A different PCM rate resamples and changes nothing else",
     "An encoder fed at a higher PCM rate than the stream, or a decoder asked for one, carries the same audio, at the same level and at the documented delay of that rate; what lies above the band of the stream is removed and not folded back into it. So do the losses: they are concealed alike at every output rate.",
     ["inputs", "configurations"], "all pairs of PCM and stream rates on both sides, signals inside and above the band",
     "Tests exercise equal rates mostly; scaling or alignment errors appear for particular rate pairs.",
     ["src/mdct.c", "src/lc3.c", "src/ltpf.c"], [("transform at PCM rate with truncated / extended spectrum", "src/mdct.c lc3_mdct_forward, lc3_mdct_inverse, rescale"), ("rate selection", "src/lc3.c lc3_hr_setup_encoder, lc3_hr_setup_decoder")], technique="random signals known in closed form, resampled-signal oracle; alias rejection", note="Exploration. The floors are calibrated like those of C12; the sample-exact part of decoding at higher rates is C13.")

prop("C19", "A frame is accepted exactly when it is valid",
     "Received bytes are decoded (answer 0) if they are a well-formed frame of the specification for that configuration, and concealed (answer 1) if a field is out of range, the coded data overruns the frame or a reserved value is used, for every byte string of an allowed size.",
     ["inputs", "configurations"], "all byte strings of allowed sizes, in particular valid frames with one field broken",
     "The validity conditions partition an astronomically large space; unit tests contain no invalid frame.",
     ["src/bits.c", "src/spec.c", "src/sns.c", "src/tns.c", "src/lc3.c"], [("field validation", "src/spec.c lc3_spec_get_side, src/sns.c lc3_sns_get_data, src/tns.c lc3_tns_get_data, src/lc3.c decode"), ("overrun detection", "src/bits.c lc3_check_bits")],
     technique="differential testing against an independent frame parser, on crafted, mutated and field-broken frames", note="Exploration. On non-canonical frames in LSB mode the parser follows the library.")

prop("C20", "A disabled pitch filter stays out of the stream",
     "After lc3_encoder_disable_ltpf no frame carries pitch data, frames before it are unaffected, and bandwidth, noise shaping and TNS decisions stay those of an encoder with the filter enabled.",
     ["inputs", "histories", "configurations"], "all signals, disabling at any point of a history", "Needs tonal signals and every point in time; tests never disable it.",
     ["src/lc3.c", "src/ltpf.c"], [("bypass flag", "src/lc3.c lc3_encoder_disable_ltpf, analyze")], ["ltpf bypass flag"], technique="metamorphic twin encoders", note="Exploration.")

prop("C21", "Reduced feature builds do the same on what they keep",
     "A build without LC3plus durations, without high-resolution, or without both, gives for every configuration it keeps the same sizes, the same encoded bytes and the same decoded samples as the full build, and refuses the durations and sampling rates left out.",
     ["configurations", "inputs", "histories"], "the four feature sets, all configurations, all signals, frames, losses and histories",
     "The feature macros size arrays and drop table rows and branches; a configuration that is kept may use a dropped row only on some inputs. The tests build the full set only.",
     ["src/common.h", "src/tables.h", "src/tables.c", "src/lc3.c", "src/tns.c", "src/bwdet.c", "src/sns.c", "Makefile"],
     [("feature macros", "src/common.h LC3_PLUS, LC3_PLUS_HR, LC3_IF_PLUS, LC3_IF_PLUS_HR"), ("array limits", "src/tables.h LC3_MAX_SRATE_HZ, LC3_MAX_NE"), ("parameter resolution", "src/lc3.c resolve_dt, resolve_srate")],
     technique="differential testing of four builds over random configurations and histories", note="Exploration. The builds compared are compiled without fast-math, so that equal code gives equal bits. In a build without high-resolution that mode stands for the standard one at 48 kHz; this is taken as it is.")

prop("C22", "The NEON and ARM code computes what the portable code computes",
     "Compiled for NEON or for the ARM SIMD32 instructions, the library does what the portable code does: the pitch analysis, being integer arithmetic, leads to exactly the same coded frames for every signal, configuration and buffer alignment, and the transforms give the same decoded samples and coded spectra up to floating point rounding.",
     ["inputs", "histories", "configurations"], "all signals, frames, losses and histories in all configurations",
     "The SIMD variants have their own coefficient tables, unrolling, alignment cases and wrap-around; most targets run them and this repository's tests compare single calls on a handful of random vectors.",
     ["src/ltpf_neon.h", "src/mdct_neon.h", "src/ltpf_arm.h", "src/ltpf.c", "src/mdct.c", "src/common.h"],
     [("resampling to 12.8 kHz", "src/ltpf_neon.h neon_resample_*, src/ltpf_arm.h arm_resample_*"), ("correlations", "src/ltpf_neon.h neon_dot, neon_correlate, src/ltpf_arm.h arm_correlate"), ("FFT", "src/mdct_neon.h neon_fft_5, neon_fft_bf3, neon_fft_bf2")],
     technique="differential testing of the SIMD code, run through stand-ins for its intrinsics, against the portable code; model-based testing of the NEON build", note="Exploration. The intrinsics are replaced by portable C after Arm's documentation (simd/), so what the processor or compiler would do with them is trusted.")

prop("C23", "The C++ classes do what the C interface does on every channel",
     "lc3::Encoder and lc3::Decoder give, for every number of channels, format, overload and block size, exactly the bytes, samples and answers of C contexts coding each channel of the interleaved stream. Lost blocks, Reset and DisableLTPF included. Unsupported parameters give an object without channels, and sizing methods answer as the C functions do.",
     ["inputs", "histories", "configurations"], "all configurations, channel counts, block sizes, formats, losses, resets, over all histories",
     "Block splitting, strides and per-channel state depend on the combination of channels, sizes and history; tests never instantiate the classes.",
     ["include/lc3_cpp.h"], [("block splitting and interleaving", "include/lc3_cpp.h Encoder::Encode, Decoder::Decode"), ("typed overloads", "include/lc3_cpp.h Decoder::Decode(…, int32_t*), …")], ["vectors of states, one by channel"], ["return values and buffers of the C++ methods"],
     technique="stateful differential testing of the classes against the C functions", note="Exploration; bitwise comparison.")

prop("C24", "The Python binding does what the C interface does",
     "lc3.Encoder and lc3.Decoder give exactly the frames, samples and sizes of the C library for every channel count, PCM argument type and bit depth. A short block is completed with silence, in-range samples are never refused, unsupported arguments raise the module's errors without effect on the stream, dropped objects release their memory, and a library without high-resolution interface works for everything else.",
     ["inputs", "histories", "configurations"], "all configurations, argument types (lists, arrays, bytes), lengths, bit depths and histories",
     "Argument conversion depends on type, length, depth and channels together; the repository has no test of the binding.",
     ["python/lc3.py"], [("PCM conversion", "python/lc3.py Encoder.encode, Decoder.decode"), ("library discovery and fallback", "python/lc3.py _Base.__init__")], ["C contexts held by the objects"], ["values returned and exceptions raised by the Python methods"],
     technique="property-based testing (hypothesis) against direct calls of the C library", note="Exploration; bitwise comparison; memory release is judged on the allocator's statistics.")

prop("C25", "The command line tools convert files faithfully",
     "elc3 turns any valid wave file into the documented LC3 file header and exactly the frames the library makes of its samples, codec delay flushed; dlc3 turns any LC3 file into a wave file with exactly the announced samples, delay removed, as the library decodes or conceals them. Files or options no stream can be made of, and outputs that cannot be written entirely, end with an error status, never with a crash.",
     ["inputs", "configurations", "fault_sequences"], "all wave header forms, depths, lengths, options and output rates; LC3 files damaged, truncated, or with undersized frames; outputs that fail at any byte",
     "File structure, lengths around frame boundaries and damage combine without limit; the tests never run the tools.",
     ["tools/elc3.c", "tools/dlc3.c", "tools/wave.c", "tools/lc3bin.c"], [("wave parsing and writing", "tools/wave.c"), ("stream header", "tools/lc3bin.c"), ("delay and length handling", "tools/elc3.c main, tools/dlc3.c main")], observe=["output files and exit status of elc3 and dlc3"],
     technique="generated and damaged files through the tools (optimised and ASan+UBSan builds), oracle built on the library and an independent file model", note="Exploration; bitwise comparison of whole files; for damaged files only the absence of crashes and sanitizer reports.")

prop("C26", "The Python tools convert files as the C tools do",
     "encoder.py turns a wave file into the LC3 file that elc3 makes of it, and decoder.py turns an LC3 file into the wave file holding exactly the announced samples, delay removed, as the library decodes or conceals them. An output that cannot be written entirely ends with an error status.",
     ["inputs", "configurations", "fault_sequences"], "all rates, durations, depths, lengths and channel counts, damaged frames, outputs that fail at any byte",
     "Frame duration units, delay and final partial frames are handled case by case; nothing tests the scripts.",
     ["python/tools/encoder.py", "python/tools/decoder.py", "python/lc3.py"], [("header fields and delay flushing", "python/tools/encoder.py"), ("delay removal and final frame", "python/tools/decoder.py")], observe=["output files of encoder.py and decoder.py"],
     technique="property-based testing (hypothesis) of the scripts on generated files", note="Exploration; bitwise comparison. High-resolution files are left out: their header needs what the scripts do not write.")

prop("C27", "Instances may be used from different threads",
     "Independent encoders and decoders running in different threads at the same time give bit for bit the results they give alone, without any data race, from the very first calls of the process on; an instance may be passed from one thread to another.",
     ["schedules", "histories", "configurations"], "all schedules of independent instances, in new and used processes",
     "Hidden shared scratch memory fails only under particular interleavings.",
     ["src/lc3.c", "src/ltpf.c", "src/spec.c", "src/mdct.c", "src/plc.c"], [("no mutable static state", "src/*.c")], ["whole contexts"],
     technique="random concurrent sessions under ThreadSanitizer, differential against sequential runs", note="Exploration of schedules as the system produces them; ThreadSanitizer reports a race whether or not the results differ.")

prop("C28", "The signalled bandwidth is the one of the signal",
     "For every signal, the encoder signals the smallest bandwidth whose quietness criterion the spectrum meets, confirmed by the specified energy drop at the cutoff, and the full bandwidth of the stream otherwise; 8 kHz and high-resolution streams always use their full bandwidth.",
     ["inputs", "configurations"], "all in-range PCM, all configurations and PCM rates, in particular signals limited close to 4, 8, 12 and 16 kHz with any floor above",
     "A wrong region, threshold or comparison changes the audible bandwidth for signals near the limits only.",
     ["src/bwdet.c", "src/lc3.c", "src/energy.c"], [("quietness and cutoff tests", "src/bwdet.c lc3_bwdet_run"), ("band energies", "src/energy.c lc3_energy_compute")],
     technique="model-based differential testing of each frame's bandwidth, on signals limited near the cutoffs", note="Exploration. Near a tie that single precision cannot tell, both values are accepted.")

prop("C29", "The pitch analysis selects the specified lag and activation",
     "For every signal and history, presence of a pitch, its fractional lag and the activation of the long term filter are those of the specified analysis (resampling, autocorrelation, interpolation, hysteresis on the previous frames); the filter is inactive near Nyquist content and in high-resolution streams.",
     ["inputs", "histories", "configurations"], "all in-range PCM over all histories, in particular harmonic signals with moving pitch",
     "The activation depends on three frames of history and close comparisons; the lag on fixed-point correlations over the whole history.",
     ["src/ltpf.c", "src/ltpf_neon.h", "src/ltpf_arm.h", "src/lc3.c", "src/tables.c"], [("resampling to 12.8 and 6.4 kHz", "src/ltpf.c resample_*"), ("lag search and refinement", "src/ltpf.c detect_pitch, refine_pitch"), ("activation", "src/ltpf.c lc3_ltpf_analyse"), ("near Nyquist flag", "src/energy.c lc3_energy_compute")],
     ["resampler and high-pass state, pitch and correlation of the previous frames"], technique="model-based differential testing against an integer-exact model of the analysis that tracks every admissible history", note="Exploration.")

prop("C30", "Noise shaping parameters are the best ones",
     "For every signal, the codebook entries, the shape, the gain and the pulses coded in each frame are those that the specified search selects for the scale factors of that signal, attacks being smoothed as specified.",
     ["inputs", "histories", "configurations"], "all in-range PCM over all histories and frame sizes, attacks included",
     "The search covers 2^38 candidates; a wrong table entry or a missed candidate shows for particular spectra only.",
     ["src/sns.c", "src/attdet.c", "src/energy.c", "src/tables.c"], [("scale factors", "src/sns.c compute_scale_factors"), ("two stage quantisation", "src/sns.c resolve_codebooks, quantize"), ("pulse enumeration", "src/sns.c enum_mvpq"), ("attack detection", "src/attdet.c lc3_attdet_run")],
     ["attack detector energies"], technique="model-based differential testing: reference search over the reference scale factors of each frame", note="Exploration. Accepts what a perturbation of the scale factors within single precision explains.")

prop("C31", "Temporal noise shaping filters are the specified ones",
     "For every signal and frame size, the encoder enables each prediction filter exactly when its prediction gain demands it and the frame has room for it, with the order and quantised reflection coefficients of the specified linear prediction, weighted at low bitrates.",
     ["inputs", "configurations"], "all in-range PCM, frame sizes and configurations, transients in particular",
     "Depends on the gain comparisons and on the correlation of each sub-band; transients of the right shape are not in the test vectors.",
     ["src/tns.c", "src/tables.c"], [("linear prediction", "src/tns.c compute_lpc_coeffs, lpc_weighting, lpc_reflection"), ("quantisation and coding", "src/tns.c quantize_rc, lc3_tns_put_data"), ("limit for small frames", "src/tns.c lc3_tns_analyze")],
     technique="model-based differential testing with error intervals obtained from perturbed spectra", note="Exploration.")

prop("C32", "Every documented build computes the same codec",
     "Built by gcc, by clang, for the host processor, for debugging, or for WebAssembly as the documentation tells, the library answers the same queries and refuses the same parameters, decodes and conceals every frame sequence and codes every signal as specified, and keeps to the memory it is given, be addresses of 32 or 64 bits.",
     ["inputs", "histories", "configurations"], "all signals, frames, losses and histories in all configurations, on each build",
     "Fast-math lets each compiler rewrite the arithmetic in its own way, and WebAssembly has its own mathematical functions, pointer size and stack; the tests run one build.",
     ["src/fastmath.h", "src/common.h", "wasm/math.h", "wasm/string.h", "Makefile", "src/makefile.mk", "include/lc3_private.h", "src/lc3.c", "src/sns.c", "src/spec.c"],
     [("tricks that rely on rounding", "src/fastmath.h lc3_exp2f, src/common.h"), ("standard functions replaced", "wasm/math.h"), ("context layout", "include/lc3_private.h struct lc3_encoder, struct lc3_decoder")], observe=["return values and output buffers of the public API, of native libraries and of liblc3.wasm"],
     technique="model-based and differential testing, by the harnesses of the other properties, of each build; WebAssembly driven in node through a stand-in of the C interface with guarded buffers", note="Exploration, at a lower number of cases by build than the properties of the native build. meson builds are taken to be those of the same compiler.")

prop("C33", "A call takes bounded work and little stack",
     "Whatever the content, the parameters and the past, encoding or decoding a frame ends after an amount of work bounded by its configuration (at most two thousand basic blocks of code per sample), which does not grow with the age of the instance nor with the number of lost frames, and uses less than 16 KB of stack for the encoder and 12 KB for the decoder.",
     ["inputs", "histories", "configurations"], "all in-range PCM, frame contents, losses, sizes and configurations; instances of any age",
     "The rate loop, entropy coder, searches and concealment iterate on data; the slowest input and the oldest instance are not in the test vectors, which do not measure work at all.",
     ["src/lc3.c", "src/spec.c", "src/bits.c", "src/sns.c", "src/ltpf.c", "src/plc.c", "src/tns.c", "src/mdct.c"],
     [("gain search and rate loop", "src/spec.c estimate_gain, adjust_gain, lc3_spec_analyze"), ("entropy coder loops", "src/bits.c, src/spec.c put_quantized, get_quantized"), ("pulse search", "src/sns.c quantize"), ("pitch search", "src/ltpf.c detect_pitch, refine_pitch"), ("attenuation", "src/plc.c lc3_plc_synthesize")],
     ["age of the context: PLC count, rate control offset, history rings"], ["basic blocks counted by compiler instrumentation during the call", "high-water mark of a painted stack"],
     technique="random histories with counters: basic blocks executed (clang coverage callbacks) and painted stack, against limits three (two) times the envelope of the pinned commit; early against late calls of the same history", note="Exploration. Time itself is not measured: calls into the C library count for one block.")


def emit():
    import checks
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "state": [{"name": x, "meaning": "", "where": ""} for x in p["state"]], "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
         "notes": "All checks build /repo's working tree out of tree (under /verif/build, ignored by git) and need no hooks in it."}
    for p in P:
        if p["id"] in checks.CHECKS and not p["na"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

if __name__ == "__main__":
    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    emit()
