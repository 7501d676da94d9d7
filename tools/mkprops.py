#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the lines stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

F = "src/fft.rs"
prop("C01", "Every forward complex FFT route computes the DFT",
 "For every length n >= 1, for f32 and f64, and for every public forward route (trait method, vector helper, each strategy, radix-4, mixed-radix and with-twiddles entry points, plan object, best-implementation factory, parallel entry point, out-of-place and const-generic stack form), the result is sum_j x[j]*exp(-2*pi*i*j*k/n) up to floating-point rounding. Which route, cargo feature set or instruction set is used never changes the result beyond rounding, and with no std feature exactly the lengths that are not powers of two are refused with the documented error.",
 ["inputs", "configurations"], "all lengths (powers of two, powers of four, primes, smooth and rough composites, 1), all input vectors, all routes, builds: default, all features, AVX2/FMA target features, no_std",
 "Tests compare a handful of power-of-two sizes and a few Bluestein sizes on one or two routes; several routes (radix-4, mixed radix, strategy Radix4, length 1 through the factory) are only called, never compared with a DFT.",
 [F, "src/fft_kernels.rs", "src/num.rs", "build.rs"],
 [("length dispatch small kernel / Stockham / Bluestein", f"{F} FftImpl::fft for ScalarFftImpl"), ("Stockham passes over split re/im", f"{F} fft_split_simd"), ("radix-4 digit reversal + butterflies", f"{F} fft_radix4"), ("chirp convolution", f"{F} get_bluestein + fft")],
 observe=["return value and buffer contents of each route"])
prop("C02", "Inverse FFT undoes forward FFT on every route",
 "For every length n >= 1, precision and route that offers an inverse, the inverse transform is (1/n)*sum_k X[k]*exp(+2*pi*i*j*k/n) up to rounding, so applying forward then inverse, or inverse then forward, returns the original vector whichever pair of routes is combined. This includes plans, strided, split, out-of-place, stack, parallel and vector forms.",
 ["inputs", "configurations"], "all lengths, all vectors, all pairs (forward route, inverse route), serial and parallel inverse path",
 "Round-trip tests use one route with itself, so an error made symmetrically in both directions (wrong scaling pair, wrong conjugation) or one that appears only in the parallel inverse branch is invisible.",
 [F], [("conjugate-forward-conjugate-scale", f"{F} FftImpl::ifft"), ("parallel inverse branch", f"{F} should_parallelize_fft branch of ifft"), ("plan inverse", f"{F} FftPlan::ifft")],
 observe=["buffers after each call"])
prop("C03", "A reused FFT object gives the same results as a fresh one",
 "The result of a transform depends only on its own arguments: an FFT implementation, plan, real-FFT planner or DCT planner that has already served any sequence of calls of other lengths, directions, routes or failed calls returns the same values as a newly created one. No call leaks data or sizes from an earlier call.",
 ["histories", "inputs"], "all call sequences over lengths (growing and shrinking), directions, routes and error calls on one object",
 "Tests create a new instance or use one size per instance; the caches and scratch buffers only misbehave for particular orders of lengths.",
 [F, "src/rfft.rs", "src/dct.rs"],
 [("scratch buffers grown and never shrunk", f"{F} FftPlanner::{{scratch,split_re,split_im,split_scratch_*,bluestein_scratch}}"), ("twiddle and Bluestein caches keyed by length", f"{F} get_twiddles/get_bluestein"), ("planner scratch", "src/rfft.rs RfftPlanner::scratch"), ("DCT work buffers", "src/dct.rs DctPlanner::{buf,spectrum}")],
 state=[("scratch lengths", "high-water mark of each reusable buffer", f"{F} FftPlanner")], observe=["results of each call in the history"])
prop("C04", "Invalid arguments are reported as errors, never as panics or corruption",
 "Every fallible FFT, plan, strided, split, real-FFT, N-dimensional, STFT, ISTFT, planner and stack entry point answers an empty transform, a wrong buffer length, a zero or non-dividing stride, a zero hop or an unsupported stack length with the documented error value and does not panic. When the error is detected from the arguments alone the caller's data - input and output buffers alike - is left unchanged, and the object used stays fully usable afterwards.",
 ["inputs", "histories"], "all argument shapes (lengths, strides, hops, scratch sizes) for every fallible entry point, alone and interleaved with valid calls",
 "Tests check a few is_err() cases per function on fresh objects; they neither compare the kind of error nor the untouched data nor later calls.",
 [F, "src/rfft.rs", "src/ndfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs"],
 [("argument validation before work", f"{F} fft_strided, fft_out_of_place_strided, FftPlan::*"), ("length checks", "src/rfft.rs rfft_direct/irfft_direct; src/stft.rs"), ("const-generic size checks", "src/fft.rs fft_inplace_stack; src/dct.rs; src/dst.rs")],
 observe=["Result values", "buffers after an error"])
prop("C05", "Strided transforms read and write exactly the addressed elements",
 "An in-place strided transform of n points with stride s transforms exactly elements 0, s, 2s, ... (n-1)s as the contiguous transform would and leaves every other element bit-identical; an out-of-place strided transform reads exactly the input positions i*in_stride, writes exactly the output positions i*out_stride and changes nothing else. Buffers that address different numbers of points, or too few of them, are refused and nothing is written. Caller-supplied scratch contents never influence the result.",
 ["inputs", "histories"], "all n, strides, slack after the last element, scratch contents, forward and inverse, allocating and scratch forms",
 "Tests use stride 2 on 4 elements and only check a round trip of the whole buffer.",
 [F], [("gather/transform/scatter", f"{F} fft_strided, ifft_strided, *_out_of_place_strided"), ("allocating wrappers", f"{F} fft_strided_alloc")], observe=["whole buffers before and after"])
prop("C06", "Split and SoA layouts are equivalent to interleaved complex data",
 "Transforms on separate real/imaginary slices or on structure-of-arrays vectors give, element by element, the values that the interleaved transform gives, in both directions, for every length and both precisions. Conversions between interleaved, split and structure-of-arrays layouts preserve every element in place and order.",
 ["inputs", "configurations"], "all lengths, vectors, directions, f32/f64, with the SoA feature, SIMD main loops and remainders",
 "Tests cover one or two sizes per layout; remainder loops and the small/non-power-of-two fallbacks are not all reached.",
 [F, "src/num.rs"], [("split Stockham kernels", f"{F} fft_split_simd f32/f64"), ("layout conversions", "src/num.rs copy_from_complex, copy_to_complex, ComplexVec, SplitComplex")], observe=["re/im slices after the call"])
prop("C07", "Real FFT returns the half spectrum and the inverse restores the signal",
 "For every even n the real transform returns exactly bins 0..n/2 of the DFT of the real signal (bins 0 and n/2 purely real), and the inverse real transform of a half spectrum returns the real signal whose spectrum it is; planner, trait, packed, caller-scratch and stack variants agree. Scratch contents never influence the result, and odd lengths, wrong buffer lengths and empty signals are refused.",
 ["inputs", "histories", "configurations"], "all even n (including n/2 not a power of two), all signals, all variants, f32/f64, SIMD and scalar kernels, all scratch contents",
 "Tests round-trip power-of-two sizes; forward and inverse could be wrong together, and n/2 odd or prime is not compared with a DFT.",
 ["src/rfft.rs"], [("even/odd packing and post-processing", "src/rfft.rs rfft_direct, irfft_direct, *_avx, *_packed"), ("twiddle caches", "src/rfft.rs RfftPlanner")], observe=["output bins / samples"])
prop("C08", "N-dimensional FFTs equal the separable transform along every axis",
 "For every shape, including axes of length 1, non-power-of-two axes and different axis lengths, the 2-D and 3-D in-place transforms return the multidimensional DFT of the row-major data. Flattening nested data preserves row-major order and dimensions and refuses ragged input; mismatched dimensions or scratch lengths are refused without touching the data.",
 ["inputs"], "all shapes and data for 2-D and 3-D, all scratch contents, ragged nested inputs",
 "Tests use small square power-of-two shapes where swapped axes or strides are hard to see.",
 ["src/ndfft.rs"], [("row pass + strided column pass", "src/ndfft.rs fft2d_inplace"), ("three axis passes with index strides", "src/ndfft.rs fft3d_inplace"), ("shape checks", "src/ndfft.rs flatten_2d/flatten_3d")], observe=["data after the call"])
prop("C09", "Batch, streaming, per-frame and parallel STFT produce the same frames",
 "Frame f of the short-time transform is the DFT of the windowed samples from f*hop, with zeros beyond the end of the signal, for every signal length, window, hop (also hop larger than the window) and number of frames; the batch, streaming, single-frame and parallel forms return the same frames. The streaming form yields exactly ceil(len/hop) frames and then reports the end for ever, output that is too short is refused, and earlier contents of the frame buffers have no influence.",
 ["inputs", "histories", "schedules", "configurations"], "all (signal, window, hop, frame count), all interleavings of stream calls including failed ones, all thread schedules of the parallel form",
 "Tests use one short signal with Hann windows and even overlap; ragged ends, hop > window, extra frames, failed stream calls are not compared with a definition.",
 ["src/stft.rs"], [("frame loop with zero padding", "src/stft.rs stft, frame, parallel"), ("stream position", "src/stft.rs StftStream::next_frame")], state=[("pos", "start of next frame", "src/stft.rs StftStream")], observe=["frames", "end-of-stream flag"])
prop("C10", "ISTFT is normalised overlap-add and reconstructs the signal",
 "The inverse short-time transform writes, for every output sample, sum_f w[t-f*hop]*y_f[t-f*hop] divided by sum_f w[t-f*hop]^2 where that denominator is positive and 0 elsewhere, whatever the output and scratch buffers contained before; the serial and the parallel form agree. Hence the inverse of the forward transform reproduces every sample covered by a non-zero window value, for any window and hop.",
 ["inputs", "schedules", "configurations"], "all signals, windows (also with zeros), hops, frame counts, output lengths shorter or longer than the frames cover, prior buffer contents, thread schedules",
 "Tests reconstruct with zeroed output, Hann windows and hop dividing the window.",
 ["src/stft.rs"], [("overlap-add and window-energy normalisation", "src/stft.rs istft, inverse_parallel"), ("per-frame accumulation", "src/stft.rs inverse_frame")], observe=["output samples"])
prop("C11", "Streaming ISTFT emits the batch reconstruction, each sample exactly once",
 "For every window length, hop (smaller than, equal to or larger than the window) and number of frames, the concatenation of the slices returned for each pushed frame and by the final flush equals the batch inverse of the same frames over the covered range: every push returns exactly hop samples and flush returns the remaining window-hop samples once, then nothing. Rejected frames change nothing, and a flush before any frame returns nothing.",
 ["histories", "inputs"], "all sequences of pushes (valid and rejected) and flushes, all window/hop sizes and frame data",
 "Tests push a few frames with hop dividing the window; buffer growth, hop > window, many frames and rejected frames are not explored.",
 ["src/stft.rs"], [("growing overlap-add buffer with read and write positions", "src/stft.rs IstftStream::push_frame, flush")], state=[("buf_pos/out_pos", "write and read positions", "src/stft.rs IstftStream"), ("buffer/norm_buf", "pending overlap sums", "src/stft.rs IstftStream")], observe=["returned slices"])
prop("C12", "DCT and DST follow their definitions, inverses and planners",
 "For every length and input, DCT-I..IV and DST-I..IV return their defining cosine/sine sums (unnormalised, DCT-III and DST-III with the half-weighted term), so that type III inverts type II up to the factor n/2 and types I and IV are self-inverse up to their factor. Planned, stack and batch forms return the same values as the plain form, for any history of the planner, and reject lengths they were not planned or defined for.",
 ["inputs", "histories"], "all lengths (including 0 and 1, odd, prime), inputs, planner histories over several lengths, stack sizes",
 "Tests check lengths of outputs, a few round trips of length 4 with very loose tolerances, and DST-III only for not panicking.",
 ["src/dct.rs", "src/dst.rs"], [("direct sums", "src/dct.rs dct1..dct4; src/dst.rs dst1..dst4"), ("FFT-based planned DCT-II", "src/dct.rs dct2_with_table"), ("table caches", "src/dst.rs DstPlanner")], observe=["outputs"])
prop("C13", "Wavelet analysis and synthesis are consistent at every level",
 "One Haar level returns pairwise half-sums and half-differences and is inverted exactly; multi-level Haar reconstruction returns the original samples for every length and level count (odd intermediate lengths are extended by repeating the last sample). Daubechies, symlet and coiflet levels apply their orthonormal filters with whole-sample reflection, the inverse reproduces every sample not affected by the reflected boundary, and batch and stack forms equal the plain form.",
 ["inputs"], "all lengths (odd, even, 1), level counts, data, wavelet families, batch shapes",
 "Tests use power-of-two lengths; db4/sym4/coif1 tests only compare lengths of the result.",
 ["src/wavelet.rs"], [("analysis/synthesis taps", "src/wavelet.rs *_forward, *_inverse"), ("level loop with odd padding", "src/wavelet.rs multi_level_forward, multi_level_inverse")], observe=["coefficients and reconstruction"])
prop("C14", "Song index: name first, then content, never losing an entry",
 "Identification returns the song last stored under the same file name without reading the file; otherwise the song stored for identical content; otherwise it adds the file under its name and content and returns it. Explicit indexing always (re)binds both the name and the content to the given path, and a file that cannot be read yields an error and changes nothing.",
 ["histories", "fault_sequences"], "all sequences of index/identify calls over files that are created, rewritten, copied, renamed, deleted or unreadable between calls",
 "Tests run two or three fixed call sequences; rebinding, stale names, deleted files and large files are not combined.",
 ["src/media/index.rs"], [("name map then hash map lookup", "src/media/index.rs SongIndex::identify"), ("chunked content hash", "src/media/index.rs hash_file"), ("rebinding", "src/media/index.rs index_song")], state=[("by_name", "file name -> song", "src/media/index.rs"), ("by_hash", "content -> song", "src/media/index.rs")], observe=["returned id or error"])
prop("C15", "Parallelism settings and schedules never change any result",
 "For every combination of the parallel tuning environment variables and runtime overrides, also when other threads change the overrides or run transforms on their own objects at the same time, every transform returns the values of the serial build up to rounding, for every length below, at and above the switching threshold. A threshold given by the environment is the one used, unparsable values fall back to the default, and a runtime threshold of 0 restores the default behaviour.",
 ["schedules", "configurations"], "all tuning values (0, 1, huge, unparsable), all orders of setter calls, concurrent setters and transforms, all lengths around the threshold",
 "Tests set single variables and compare decisions, not results; concurrent changes are not exercised.",
 [F, "src/stft.rs"], [("process-wide atomics and once-cells", f"{F} PARALLEL_FFT_*, ENV_*"), ("decision", f"{F} should_parallelize_fft"), ("parallel inverse branch", f"{F} FftImpl::ifft")], observe=["results", "effective threshold test accessor"])
prop("C16", "Window functions have their defining shape for every length",
 "For every length, each window generator returns exactly that many finite values that follow its defining formula: Hann, Hamming and Blackman are periodic (w[i]=w[n-i]); Kaiser, Tukey, Bartlett, Bohman and Nuttall are symmetric (w[i]=w[n-1-i]); all lie in [0,1] up to rounding. Lengths 0 and 1 are valid, parameters are clamped as documented, and stack forms equal heap forms.",
 ["inputs"], "all lengths including 0, 1, 2 and odd ones, all shape parameters",
 "Tests check a few values of one or two lengths; degenerate lengths and symmetry are not tested for most windows.",
 ["src/window.rs", "src/window_more.rs"], [("closed-form generators", "src/window.rs, src/window_more.rs")], observe=["window vectors"])
prop("C17", "Spectrogram pipeline: magnitudes, decibels, colours and bins are in range",
 "Magnitudes are the moduli of the first win/2 bins of every STFT frame and the reported maximum is their maximum; decibel conversion is monotone, 0 at the maximum and clamped at the floor; the normalised scale lies in [0,1] and is monotone. Every colour map is total on [0,1] (and clamps outside), hits its end colours, 16-bit colours are the 8-bit ones times 257, and logarithmic binning keeps every bin inside the picture, in order, averaging exactly the bins mapped to the same pixel.",
 ["inputs", "configurations"], "all signals, windows, hops, magnitudes (0, negative, maximum), floors, t in and out of [0,1], palettes, bin counts",
 "Tests check a few colours and one magnitude matrix.",
 ["src/visual/spectrogram.rs"], [("magnitude loop", "src/visual/spectrogram.rs stft_magnitudes"), ("clamping", "src/visual/spectrogram.rs magnitude_to_db, db_scale"), ("piecewise colour maps", "src/visual/spectrogram.rs map_color_u8"), ("log binning", "src/visual/spectrogram.rs log_scale_bins")], observe=["returned matrices, colours, bins"])
prop("C18", "Goertzel, CZT, Hartley and Hilbert agree with the DFT",
 "For every real signal, the single-bin detector returns the modulus (a number >= 0) of the DFT bin floor(f*n/rate); the chirp-z transform returns sum_j x[j]*a^-j*w^(j*k) for each requested bin; the Hartley transform returns Re-Im of each DFT bin and is self-inverse up to n. The analytic signal has the input as its real part and no negative-frequency content; empty or unsupported input is refused as documented.",
 ["inputs"], "all signals, lengths, bins/frequencies, chirp parameters (on and off the unit circle)",
 "Tests use one or two short signals each and mostly check that a result exists.",
 ["src/goertzel.rs", "src/czt.rs", "src/hartley.rs", "src/hilbert.rs"], [("second-order recurrence", "src/goertzel.rs"), ("power products", "src/czt.rs"), ("one-sided spectrum", "src/hilbert.rs")], observe=["outputs"])
prop("C19", "Build helper derives the configuration from the machine description",
 "For every machine description the build helper selects the architecture feature, exactly the best available instruction-set feature with its matching compiler flags, the parallel feature exactly when more than one processor is present, and appends the extra features in order; the benchmark program is the parallel one exactly when the parallel feature is selected. Every generated command passes the features as one argument when there are any and none otherwise, and sets compiler flags exactly for the commands that are meant to be tuned (benchmark, library benchmarks, readme update). A run of the helper starts exactly the programs of its task in order, analysis stops when formatting fails, and it exits with the status of the last program started (1 when that was killed or nothing could be started).",
 ["inputs", "configurations", "fault_sequences"], "all combinations of architecture strings, CPU flag strings, processor counts, extra feature strings, detection sources present or missing, and statuses of the programs started",
 "Tests check four fixed combinations.",
 ["xtask/src/lib.rs"], [("decision table", "xtask/src/lib.rs compute_config"), ("command builders", "xtask/src/lib.rs *_command"), ("detection", "xtask/src/lib.rs detect_*"), ("task dispatch", "xtask/src/main.rs main")], observe=["BuildConfig", "Command program/args/env", "programs started and exit status"])
prop("C20", "Cepstrum, mel filter bank and MFCC follow their definitions",
 "The real cepstrum is the inverse DFT of the log-modulus of the DFT; each mel energy is the triangular-weighted sum of the bins between its neighbouring centre bins (zero for degenerate triangles), and MFCCs are the first coefficients of the DCT-II of the log energies. Asking for more coefficients than filters, an empty signal or an unsupported length is refused, and the batch form equals the frame-by-frame form and stops at the first error.",
 ["inputs"], "all signals, spectra, sample rates, filter and coefficient counts, batches with failing members",
 "Tests check lengths of results for one spectrum.",
 ["src/cepstrum.rs"], [("log spectrum and inverse", "src/cepstrum.rs real_cepstrum"), ("triangles between bins", "src/cepstrum.rs mel_filterbank"), ("dct of logs", "src/cepstrum.rs mfcc")], observe=["outputs"])
prop("C21", "Batch and multi-channel forms equal one call per member",
 "Every batch or multi-channel transform (FFT, inverse FFT, DCT, DST, Hartley, wavelet, MFCC) returns for each member, in order, exactly what the single transform returns for it, also when members differ in length or the batch is empty. For the fallible ones an invalid member makes the whole call return its error, members before it are transformed and members after it are untouched.",
 ["inputs", "histories"], "all batch sizes, ragged member lengths, position of an invalid member, reused implementation object",
 "Tests use two equal-length members and mostly only check the count.",
 [F, "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/wavelet.rs"], [("loop with early return", f"{F} batch, batch_inverse, multi_channel*"), ("map over members", "src/dct.rs, src/dst.rs, src/hartley.rs, src/wavelet.rs batch functions")], observe=["members after the call", "Result"])
prop("C22", "Planner tables are correct and stable for every length and order",
 "Every twiddle, real-FFT, Bluestein, cosine/sine and standalone twiddle table a planner hands out for length n has the documented number of entries with the documented values, whatever other tables were requested before, and asking again returns the same values. Precomputed tables equal computed ones, and the planned strategy is the power-of-two one exactly for powers of two above 1.",
 ["histories", "inputs", "configurations"], "all lengths and request orders, with and without precomputed tables, f32/f64",
 "Tests compare a few lengths requested once from a fresh planner.",
 [F, "src/rfft.rs", "src/dst.rs", "build.rs"], [("length-keyed caches", f"{F} get_twiddles, get_bluestein; src/rfft.rs get_twiddles, get_pack_twiddles; src/dst.rs plan_dst*"), ("generated tables", "build.rs")], observe=["returned tables"])
prop("C23", "Recordings are read, mixed and drawn faithfully by the picture programs",
 "For every 16-bit WAV file and every FLAC file, reading returns the file's sampling rate and one sample per frame in order: the value over full scale (32767 for WAV, 2^(bits-1) otherwise), the average of the channels when there are several, and never more frames than the file declares. A file that is missing, not audio or a WAV file cut short is refused with an error, never a panic. Each picture program then draws one column per STFT frame and half a window of rows, the lowest bin at the bottom, where every pixel has the palette colour of its own magnitude (or log-rebinned magnitude) relative to the overall maximum for the chosen dynamic range; windows too short for a hop are refused. Saving writes exactly the given picture: 16-bit values unchanged, 8-bit values their upper byte, and one SVG rectangle per pixel in its place with its colour.",
 ["inputs", "configurations", "fault_sequences"], "all recordings (frames, channels, rates, packet sizes, declared lengths, truncations), window lengths, scale modes, palettes, ranges, bit depths, pictures",
 "Tests check sample counts of two fixture files, one mono WAV, the colour type of two tiny PNGs and that two programs agree on one sine wave.",
 ["sanity-check/src/lib.rs", "sanity-check/src/main.rs", "examples/spectrogram.rs"], [("decode loop with mix-down and truncation", "sanity-check/src/lib.rs read_audio"), ("WAV reader", "sanity-check/src/lib.rs read_wav"), ("bit-depth conversion", "sanity-check/src/lib.rs save_png"), ("rectangle list", "sanity-check/src/lib.rs save_svg"), ("pixel placement", "sanity-check/src/main.rs main, examples/spectrogram.rs main")], observe=["samples, rate and errors returned", "pixels of the files written", "exit status"])
prop("C24", "Benchmark records and the published table are faithful",
 "Every benchmark run writes one record per measured library, transform, size and mode, sorted by transform, size and time, with exactly the fastest entries of each transform and size marked best, and with the previous time and the relative change exactly for the entries the previous record file also has; that file is kept under its other name, and an unreadable one is ignored. The readme update replaces exactly the text between the markers by a line about the environment and one row per record in the file's order, changes nothing else, does nothing without both markers, and refuses record files it cannot read without touching the readme; every file a benchmark run writes is accepted, also when the build helper starts the update in the repository.",
 ["histories", "inputs", "fault_sequences"], "all orders of runs, updates and edits of the three shared files; record files valid, damaged or missing; readme with and without markers; sizes and times",
 "No test covers the benchmark crate.",
 ["kofft-bench/benches/bench_fft.rs", "kofft-bench/examples/update_bench_readme.rs"], [("record file, previous times, best flags, order", "kofft-bench/benches/bench_fft.rs save_results"), ("table between markers", "kofft-bench/examples/update_bench_readme.rs main, update_readme")], observe=["latest.json, previous.json, README.md after every run", "exit status"])
prop("C25", "Browser spectrogram: streamed rows, pictures and served files",
 "Since the last reset, the r-th streamed row holds the colours of Hann-windowed frame r (1024 samples, one frame every 512) of all samples pushed, lowest bin first and opaque, over the 80 dB below the largest magnitude met so far, however the samples were split over calls; a call returns one row exactly when the next frame is complete and nothing otherwise; a new colour map applies from the next row on and changes nothing else; a reset forgets samples, map and maximum. The exported wrappers return the core library's values, magnitudes flattened frame by frame, and refuse what the core refuses. A picture on the canvas shows bin y of frame x in column x and row y in the colour of its magnitude. The server answers every address with the file of that name below its folder, a folder with its index page, anything else with the main page, readable from any origin, and never with a file from outside; the service worker answers from its cache what the cache holds and everything else from the network.",
 ["histories", "inputs"], "all sequences of pushes of any size, colour-map changes and resets; all matrices of magnitudes; all folder trees and request paths; all cache contents",
 "Two unit tests push a constant signal, one draws a single column with one constant colour, three requests are served.",
 ["web-spectrogram/src/lib.rs", "web-spectrogram/src/main.rs", "web-spectrogram/app.mjs", "web-spectrogram/sw.js"], [("row stream", "web-spectrogram/src/lib.rs State::compute_frame"), ("wrappers", "web-spectrogram/src/lib.rs stft_magnitudes, fft_split, dct2, haar_forward"), ("canvas picture", "web-spectrogram/app.mjs drawSpectrogramCanvas"), ("static files and fallback", "web-spectrogram/src/main.rs app"), ("cache first", "web-spectrogram/sw.js")], observe=["bytes of every row", "pixels put on the canvas", "status, body and headers of every answer"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
