SEEDS = []
def S(id, property, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, **k))

ST = "src/stft.rs"
STFTREF = r'''
fn frames_ref(sig: &[f32], win: &[f32], hop: usize, nf: usize) -> Vec<Vec<(f64, f64)>> {
    (0..nf).map(|f| {
        let x: Vec<(f64, f64)> = (0..win.len()).map(|i| {
            let p = f * hop + i;
            (if p < sig.len() { sig[p] as f64 * win[i] as f64 } else { 0.0 }, 0.0)
        }).collect();
        dft(&x, false)
    }).collect()
}
fn reals(n: usize, seed: u64) -> Vec<f32> { signal(n, seed).iter().map(|v| v.0 as f32).collect() }
fn istft_ref(frames: &[Vec<(f64, f64)>], win: &[f32], hop: usize, len: usize) -> Vec<f64> {
    let mut o = vec![0.0; len];
    let mut d = vec![0.0; len];
    for (f, y) in frames.iter().enumerate() {
        let t = dft(y, true);
        for i in 0..win.len() {
            if f * hop + i < len {
                o[f * hop + i] += t[i].0 * win[i] as f64;
                d[f * hop + i] += (win[i] as f64).powi(2);
            }
        }
    }
    (0..len).map(|i| if d[i] > 1e-7 { o[i] / d[i] } else { 0.0 }).collect()
}
'''

S("c09-stream-gap", "C09",
  [(ST, "        self.pos += self.hop_size;\n        Ok(true)", "        self.pos += self.hop_size.min(win_len.max(1));\n        Ok(true)")],
  "the streaming transform with a hop larger than the window",
  "the stream skips less than the hop, so later frames start too early and there are too many of them",
  STFTREF + r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let (s, w) = (reals(20, 1), vec![1.0f32, 2.0, 1.0]);
    let want = frames_ref(&s, &w, 5, 4);
    let mut st = kofft::stft::StftStream::new(&s, &w, 5, &f).unwrap();
    let mut b = vec![kofft::Complex32::new(0.0, 0.0); 3];
    let mut k = 0;
    while st.next_frame(&mut b).unwrap() {
        assert!(k < 4, "too many frames");
        same("stream frame", &p32(&b), &want[k], 1e-2);
        k += 1;
    }
    assert_eq!(k, 4);
}
''', features="std")

S("c09-parallel-stale", "C09",
  [(ST, """            frame.clear();
            for i in 0..win_len {
                let x = if start.saturating_add(i) < signal.len() {
                    signal[start + i] * window[i]
                } else {
                    0.0
                };
                frame.push(Complex32::new(x, 0.0));
            }""", """            frame.resize(win_len, Complex32::new(0.0, 0.0));
            for (i, slot) in frame.iter_mut().enumerate() {
                if start.saturating_add(i) < signal.len() {
                    *slot = Complex32::new(signal[start + i] * window[i], 0.0);
                }
            }""")],
  "the parallel transform writing into frame buffers that were used before, for frames that run past the end of the signal",
  "the positions beyond the end of the signal keep what an earlier call left there instead of zeros",
  STFTREF + r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let (s, w) = (reals(10, 1), vec![1.0f32, 2.0, 3.0, 1.0]);
    let want = frames_ref(&s, &w, 3, 4);
    let mut out = vec![c32(&signal(4, 8)); 4];
    kofft::stft::parallel(&s, &w, 3, &mut out, &f).unwrap();
    for k in 0..4 { same("frame", &p32(&out[k]), &want[k], 1e-2); }
}
''', features="std parallel")

S("c10-parallel-epsilon", "C10",
  [(ST, "        if norm[i] > 1e-8 {\n            output[i] /= norm[i];\n        } else {", "        if norm[i] > 1e-4 {\n            output[i] /= norm[i];\n        } else {")],
  "the parallel inverse at samples that only small window values cover (edges of a Hann window)",
  "samples with a small but positive denominator are set to 0 by the parallel form only",
  STFTREF + r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![0.00390625f32, 1.0, 1.0, 0.00390625];
    let s = reals(8, 2);
    let fr = frames_ref(&s, &w, 4, 2);
    let want = istft_ref(&fr, &w, 4, 8);
    let frames: Vec<_> = fr.iter().map(|x| c32(x)).collect();
    let mut out = vec![0.0f32; 8];
    kofft::stft::inverse_parallel(&frames, &w, 4, &mut out, &f).unwrap();
    close("inverse_parallel", &out, &want, 0.5);
}
''', features="std parallel")

S("c11-count-before-check", "C11",
  [(ST, """        if frame.len() != self.win_len {
            return Err(FftError::MismatchedLengths);
        }
        self.time_buf.copy_from_slice(frame);""", """        self.frame_count += 1;
        if frame.len() != self.win_len {
            return Err(FftError::MismatchedLengths);
        }
        self.time_buf.copy_from_slice(frame);"""),
   (ST, "        self.frame_count += 1;\n        // Output is available", "        // Output is available")],
  "a flush after nothing but rejected frames",
  "a rejected frame is counted, so the flush panics or returns samples that were never produced",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let mut st = kofft::stft::IstftStream::new(4, 2, vec![1.0; 4], &f).unwrap();
    assert!(st.push_frame(&c32(&signal(3, 1))).is_err());
    assert_eq!(st.flush().len(), 0);
}
''', features="std")

S("c12-planner-key", "C12",
  [("src/dct.rs", "        if !self.cache.contains_key(&n) {\n            let mut table = Vec::with_capacity(n);", "        if self.cache.keys().all(|&len| len < n) {\n            let mut table = Vec::with_capacity(n);"),
   ("src/dct.rs", "        Arc::clone(self.cache.get(&n).unwrap())", "        Arc::clone(self.cache.iter().filter(|(&len, _)| len >= n).min_by_key(|(&len, _)| len).unwrap().1)")],
  "one DCT planner that plans a long transform before a shorter one",
  "the shorter plan reuses the cosine table of the longer one",
  r'''
fn main() {
    let mut p = kofft::dct::DctPlanner::new();
    for n in [12usize, 8, 5] {
        let mut x: Vec<f32> = signal(n, 3).iter().map(|v| v.0 as f32).collect();
        let want: Vec<f64> = (0..n).map(|k| (0..n).map(|i| x[i] as f64 * (PI64 / n as f64 * (i as f64 + 0.5) * k as f64).cos()).sum()).collect();
        let mut y = vec![0.0f32; n];
        p.plan_dct2(n)(&mut x, &mut y).unwrap();
        close("planned dct2", &y, &want, 1e-2);
    }
}
''', features="std")

S("c12-dst4-stack", "C12",
  [("src/dst.rs", "            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();\n        }\n        *out = sum;\n    }\n    Ok(())", "            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();\n        }\n        *out = if N > 8 { sum - x0 } else { sum };\n    }\n    Ok(())"),
   ("src/dst.rs", "    let factor = core::f32::consts::PI / N as f32;\n    for (k, out) in output.iter_mut().enumerate().take(N) {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate().take(N) {\n            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();",
    "    let factor = core::f32::consts::PI / N as f32;\n    let x0 = input[0] * 1e-3;\n    for (k, out) in output.iter_mut().enumerate().take(N) {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate().take(N) {\n            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();")],
  "the stack DST-IV of 16 points or more with a non-zero first sample",
  "a correction term that does not belong there shifts every coefficient slightly",
  r'''
fn main() {
    let s = signal(16, 3);
    let mut x = [0.0f32; 16];
    for i in 0..16 { x[i] = s[i].0 as f32 + 70.0; }
    let mut y = [0.0f32; 16];
    kofft::dst::dst4_inplace_stack(&x, &mut y).unwrap();
    let want: Vec<f64> = (0..16).map(|k| (0..16).map(|i| x[i] as f64 * (PI64 / 16.0 * (i as f64 + 0.5) * (k as f64 + 0.5)).sin()).sum()).collect();
    close("stack dst4", &y, &want, 1e-2);
}
''', features="std")

S("c12-dct1-sign", "C12",
  [("src/dct.rs", """            + if k.is_multiple_of(2) {
                input[n - 1]
            } else {
                -input[n - 1]
            };""", """            + if (k * (n - 1)).is_multiple_of(2) {
                input[n - 1]
            } else {
                -input[n - 1]
            };""")],
  "a DCT-I of odd length with a non-zero last sample",
  "the sign of the last term no longer alternates for odd lengths",
  r'''
fn main() {
    let x: Vec<f32> = signal(5, 3).iter().map(|v| v.0 as f32).collect();
    let n = 5;
    let want: Vec<f64> = (0..n).map(|k| x[0] as f64 + if k % 2 == 0 { 1.0 } else { -1.0 } * x[n - 1] as f64
        + (1..n - 1).map(|i| 2.0 * x[i] as f64 * (PI64 * (i * k) as f64 / (n - 1) as f64).cos()).sum::<f64>()).collect();
    close("dct1", &kofft::dct::dct1(&x), &want, 1e-2);
}
''', features="std")

S("c13-pad-zero", "C13",
  [("src/wavelet.rs", "            if let Some(&last) = current.last() {\n                current.push(last);\n            }", "            if !current.is_empty() {\n                current.push(0.0);\n            }")],
  "a multi-level decomposition that meets an odd length",
  "odd lengths are padded with zero, so the averages and details at the end change (the samples still come back)",
  r'''
fn main() {
    let x = [4.0f32, 2.0, 6.0];
    let (a, d) = kofft::wavelet::haar_forward_multi(&x, 1);
    assert_eq!(a, vec![3.0, 6.0]);
    assert_eq!(d, vec![vec![1.0, 0.0]]);
}
''', features="std")

S("c13-reflect", "C13",
  [("src/wavelet.rs", """    let len = input.len();
    let reflect = |mut idx: isize| -> f32 {
        let n = len as isize;
        while idx < 0 || idx >= n {
            if idx < 0 {
                idx = -idx;
            } else {
                idx = 2 * (n - 1) - idx;
            }
        }
        input[idx as usize]
    };
    for i in 0..n {
        let j = 2 * i as isize;
        for k in 0..6 {""", """    let len = input.len();
    let reflect = |mut idx: isize| -> f32 {
        let n = len as isize;
        while idx < 0 || idx >= n {
            if idx < 0 {
                idx = -idx;
            } else {
                idx = 2 * n - 1 - idx;
            }
        }
        input[idx as usize]
    };
    for i in 0..n {
        let j = 2 * i as isize;
        for k in 0..6 {""")],
  "a coif1 analysis, at the end of the signal",
  "half-sample instead of whole-sample reflection at the right boundary",
  r'''
fn main() {
    let x: Vec<f64> = vec![3.0, -5.0, 8.0, 1.0, 2.0, 7.0];
    let h = [-0.015655728135791993, -0.07273261951252645, 0.3848648468648578, 0.8525720202116004, 0.3378976624574818, -0.07273261951252645];
    let r = |i: usize| x[if i > 5 { 10 - i } else { i }];
    let want: Vec<f64> = (0..3).map(|i| (0..6).map(|k| h[k] * r(2 * i + k)).sum()).collect();
    let f: Vec<f32> = x.iter().map(|v| *v as f32).collect();
    close("coif1", &kofft::wavelet::coif1_forward(&f).0, &want, 1e-3);
}
''', features="std")

S("c13-batch-levels", "C13",
  [("src/wavelet.rs", "        let (avg, diff_levels) = multi_level_forward(input, levels, &forward);", "        let levels = levels.min(input.len().checked_ilog2().unwrap_or(0) as usize);\n        let (avg, diff_levels) = multi_level_forward(input, levels, &forward);")],
  "a batch decomposition with more levels than the binary logarithm of a member's length",
  "the batch form stops early where the single form goes on",
  r'''
fn main() {
    let x = vec![1.0f32, 5.0, 2.0, 8.0, 3.0];
    let one = kofft::wavelet::haar_forward_multi(&x, 3);
    let (a, d) = kofft::wavelet::multi_level_forward_batch(&[x], 3, kofft::wavelet::haar_forward);
    assert_eq!(a[0], one.0);
    assert_eq!(d[0], one.1);
}
''', features="std")

VS = "src/visual/spectrogram.rs"
IDX = "src/media/index.rs"
SONG = r'''
use kofft::media::index::SongIndex;
use std::path::PathBuf;
fn dir() -> PathBuf { PathBuf::from(std::env::args().nth(1).unwrap()).join("songs") }
fn put(name: &str, data: &[u8]) -> PathBuf {
    let p = dir().join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, data).unwrap();
    p
}
'''
S("c14-entry-or-insert", "C14",
  [(IDX, "        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify", "        self.by_hash.entry(hash).or_insert_with(|| id.clone());\n        Ok(id)\n    }\n\n    /// Identify")],
  "two files with the same content indexed explicitly one after the other, then a third copy identified by content",
  "the content stays bound to the first path instead of the last indexed one",
  SONG + r'''
fn main() {
    let (a, b, c) = (put("a", b"x"), put("b", b"x"), put("c", b"x"));
    let mut i = SongIndex::new();
    i.index_song(&a).unwrap();
    let want = i.index_song(&b).unwrap();
    assert_eq!(i.identify(&c).unwrap(), want);
}
''', features="std")

S("c14-short-read", "C14",
  [(IDX, "            if n == 0 {\n                break;\n            }\n            hasher.update(&buf[..n]);", "            hasher.update(&buf[..n]);\n            if n < buf.len() {\n                break;\n            }\n            if buf == [0u8; 8192] {\n                break;\n            }")],
  "two different files that agree up to and including an 8 KiB block of zeros (for instance long digital silence) ",
  "hashing stops at a block of silence, so different songs are taken for the same one",
  SONG + r'''
fn main() {
    let mut x = vec![0u8; 20000];
    let a = put("a", &x);
    x[19999] = 1;
    let b = put("b", &x);
    let mut i = SongIndex::new();
    let ia = i.index_song(&a).unwrap();
    assert_ne!(i.identify(&b).unwrap(), ia);
}
''', features="std")

S("c14-bind-before-read", "C14",
  [(IDX, """        let hash = Self::hash_file(path)?;
        let id = SongId(path.to_path_buf());
        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {
            self.by_name.insert(name.to_string(), id.clone());
        }
        self.by_hash.insert(hash, id.clone());
        Ok(id)
    }

    /// Identify""", """        let id = SongId(path.to_path_buf());
        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {
            self.by_name.insert(name.to_string(), id.clone());
        }
        let hash = Self::hash_file(path)?;
        self.by_hash.insert(hash, id.clone());
        Ok(id)
    }

    /// Identify""")],
  "explicit indexing of a file that cannot be read, followed by an identification under the same name",
  "the failed call has already bound the name",
  SONG + r'''
fn main() {
    let a = put("d1/a", b"x");
    let missing = dir().join("d2/a");
    let mut i = SongIndex::new();
    let want = i.index_song(&a).unwrap();
    assert!(i.index_song(&missing).is_err());
    assert_eq!(i.identify(&missing).unwrap(), want);
}
''', features="std")

S("c16-kaiser-symmetry", "C16",
  [("src/window.rs", """            let r = (i as f32 - m) / m;
            bessel0(beta * sqrtf(1.0 - r * r)) / denom""", """            let r = (i as f32 - m) / (m + 0.5);
            bessel0(beta * sqrtf(1.0 - r * r)) / denom""", 0)],
  "a Kaiser window away from its centre",
  "the edges are computed at the wrong abscissa: symmetric and peaked at 1, but not the Kaiser shape",
  r'''
fn i0(x: f64) -> f64 { let mut s = 1.0; let mut t = 1.0; for n in 1..200 { t *= x * x / 4.0 / (n * n) as f64; s += t; } s }
fn main() {
    let w = kofft::window::kaiser(9, 5.0);
    let want: Vec<f64> = (0..9).map(|i| { let r = (i as f64 - 4.0) / 4.0; i0(5.0 * (1.0 - r * r).sqrt()) / i0(5.0) }).collect();
    close("kaiser", &w, &want, 1e-4);
}
''', features="std")

S("c16-tukey-edge", "C16",
  [("src/window_more.rs", "        } else if n < len - edge {", "        } else if n <= len - edge {")],
  "a Tukey window with a taper of at least one sample",
  "the first sample of the right taper is 1, so the window is not symmetric",
  r'''
fn main() {
    let w = kofft::window_more::tukey(16, 0.5);
    for i in 0..16 { assert!((w[i] - w[15 - i]).abs() < 1e-5, "{i}"); }
}
''', features="std")

S("c17-max-frame", "C17",
  [(VS, "    let height = win_len / 2;\n    let width = frames.len();", "    let height = win_len / 2;\n    frames.truncate((samples.len() / hop).max(1));\n    let width = frames.len();")],
  "a signal whose length is not a multiple of the hop",
  "the last, partly filled frame is missing",
  r'''
fn main() {
    let s = vec![1.0f32; 11];
    let (m, _) = kofft::visual::spectrogram::stft_magnitudes(&s, 4, 3).unwrap();
    assert_eq!(m.len(), 4);
}
''', features="std")

S("c17-db-floor", "C17",
  [(VS, "    if max_mag <= 0.0 || mag <= 0.0 {\n        return floor_db;\n    }\n    let db = 20.0 * (mag / max_mag).log10();\n    db.max(floor_db)", "    if max_mag <= 0.0 || mag <= 0.0 {\n        return floor_db;\n    }\n    let db = 20.0 * (mag / max_mag).log10();\n    if db.is_finite() {\n        db\n    } else {\n        floor_db\n    }")],
  "a magnitude below the floor but above zero",
  "values under the floor are no longer clamped to it",
  r'''
fn main() {
    use kofft::visual::spectrogram::*;
    assert_eq!(magnitude_to_db(1e-6, 1.0, -60.0), -60.0);
}
''', features="std")

S("c17-log-count", "C17",
  [(VS, "        if *c > 0 {\n            *a /= *c as f32;\n        }", "        if *c > 1 {\n            *a /= (*c).next_power_of_two() as f32;\n        }")],
  "logarithmic binning where a pixel collects three (or five, six, seven ...) bins",
  "the average is taken over the next power of two",
  r'''
fn main() {
    use kofft::visual::spectrogram::*;
    let v: Vec<f32> = (1..=64).map(|x| x as f32).collect();
    let got = log_scale_bins(&v, 63);
    let mut acc = vec![(0.0f64, 0u32); 64];
    for (b, x) in v.iter().enumerate() { let p = map_bin_to_pixel(b, 63); acc[p].0 += *x as f64; acc[p].1 += 1; }
    let want: Vec<f64> = acc.iter().map(|a| if a.1 > 0 { a.0 / a.1 as f64 } else { 0.0 }).collect();
    close("log bins", &got, &want, 1e-3);
}
''', features="std")

S("c18-hilbert-nyquist", "C18",
  [("src/hilbert.rs", "        for f in freq.iter_mut().take(n / 2).skip(1) {", "        for f in freq.iter_mut().take(n / 2 + 1).skip(1) {")],
  "a signal with energy at half the sampling rate",
  "the Nyquist bin is doubled, so the real part is no longer the input",
  r'''
fn main() {
    let x = [1.0f32, -2.0, 3.0, -1.0, 5.0, -3.0, 2.0, -7.0];
    let a = kofft::hilbert::hilbert_analytic(&x).unwrap();
    for i in 0..8 { assert!((a[i].re - x[i]).abs() < 1e-3, "{i}"); }
}
''', features="std")

S("c18-czt-zero-a", "C18",
  [("src/czt.rs", "    let a_inv_i = if denom == 0.0 { 0.0 } else { -ai / denom };", "    let a_inv_i = if denom == 0.0 { 0.0 } else { ai / denom };")],
  "a chirp-z transform whose starting point a is not real",
  "powers of the conjugate of 1/a are used",
  r'''
fn main() {
    let x = [1.0f32, 2.0, -3.0];
    let y = kofft::czt::czt_f32(&x, 2, (0.0, 1.0), (0.0, 1.0));
    // a^-1 = -i, w = i: Y_k = 1 + 2*(-i)*i^k - 3*(-1)*(-1)^k
    assert!((y[0].0 - 4.0).abs() < 1e-4 && (y[0].1 + 2.0).abs() < 1e-4, "{:?}", y[0]);
    assert!((y[1].0 - 0.0).abs() < 1e-4 && (y[1].1 - 0.0).abs() < 1e-4, "{:?}", y[1]);
}
''', features="std")

S("c18-goertzel-round", "C18",
  [("src/goertzel.rs", "    let k = floorf(target_freq * n / sample_rate);", "    let k = floorf(target_freq / sample_rate * n + 0.5);", 0)],
  "a target frequency in the upper half of a bin",
  "the nearest bin instead of the bin below is evaluated",
  r'''
fn main() {
    let x: Vec<f32> = signal(8, 3).iter().map(|v| v.0 as f32).collect();
    let d = dft(&x.iter().map(|v| (*v as f64, 0.0)).collect::<Vec<_>>(), false);
    let g = kofft::goertzel::goertzel_f32(&x, 8.0, 2.75).unwrap() as f64;
    assert!((g - d[2].0.hypot(d[2].1)).abs() < 1e-2);
}
''', features="std")

CE = "src/cepstrum.rs"
S("c20-mel-degenerate", "C20",
  [(CE, "        if bins[m] == bins[m - 1] || bins[m + 1] == bins[m] {\n            continue;\n        }", "        if bins[m + 1] == bins[m - 1] {\n            continue;\n        }")],
  "more mel filters than the low bins can separate, so that a triangle has only one degenerate side",
  "half-degenerate triangles are no longer zero",
  r'''
fn main() {
    let mags: Vec<f32> = (1..=16).map(|x| x as f32).collect();
    let e = kofft::cepstrum::mel_filterbank(&mags, 8000.0, 20);
    let mel = |i: usize| { let top = 2595.0 * (1.0f64 + 4000.0 / 700.0).log10(); 700.0 * (10f64.powf(top * i as f64 / 21.0 / 2595.0) - 1.0) };
    let b: Vec<usize> = (0..22).map(|i| (mel(i) * 17.0 / 8000.0).floor() as usize).collect();
    for m in 1..=20 {
        if b[m] == b[m - 1] || b[m + 1] == b[m] { assert_eq!(e[m - 1], 0.0, "filter {m}"); }
    }
}
''', features="std")

S("c20-cepstrum-floor", "C20",
  [(CE, "        c.re = logf(mag + 1e-12); // avoid log(0)", "        c.re = logf(mag.max(1.0)); // avoid log(0)")],
  "a signal with a spectral magnitude below 1",
  "small magnitudes are clipped to 1 before the logarithm",
  r'''
fn main() {
    let x = [0.25f32, 0.0, 0.125, 0.0];
    let d = dft(&x.iter().map(|v| (*v as f64, 0.0)).collect::<Vec<_>>(), false);
    let l: Vec<(f64, f64)> = d.iter().map(|v| (v.0.hypot(v.1).ln(), 0.0)).collect();
    let want: Vec<f64> = dft(&l, true).iter().map(|v| v.0).collect();
    close("cepstrum", &kofft::cepstrum::real_cepstrum(&x).unwrap(), &want, 1e-3);
}
''', features="std")

S("c21-dst-batch", "C21",
  [("src/dst.rs", """pub fn batch_iii(batches: &mut [Vec<f32>]) {
    for batch in batches.iter_mut() {
        let out = dst3(batch);
        batch.copy_from_slice(&out);""", """pub fn batch_iii(batches: &mut [Vec<f32>]) {
    for batch in batches.iter_mut() {
        let out = dst2(batch);
        batch.copy_from_slice(&out);""")],
  "the batch form of the DST-III",
  "the batch form applies the DST-II",
  r'''
fn main() {
    let x = vec![1.0f32, 2.0, 5.0, -4.0];
    let want: Vec<f64> = kofft::dst::dst3(&x).iter().map(|v| *v as f64).collect();
    let mut b = vec![x];
    kofft::dst::batch_iii(&mut b);
    close("batch", &b[0], &want, 1e-4);
}
''', features="std")

S("c21-haar-batch-lengths", "C21",
  [("src/wavelet.rs", """    for input in inputs {
        let (avg, diff) = db2_forward(input);
        avgs.push(avg);""", """    let len = inputs.iter().map(|v| v.len()).min().unwrap_or(0);
    for input in inputs {
        let (avg, diff) = db2_forward(&input[..len]);
        avgs.push(avg);""")],
  "a db2 batch whose members differ in length",
  "every member is cut to the shortest one",
  r'''
fn main() {
    let (a, b) = (vec![1.0f32, 2.0, 5.0, -4.0], vec![3.0f32, 4.0, 9.0, 1.0, 2.0, 6.0]);
    let one = kofft::wavelet::db2_forward(&b);
    let (av, dv) = kofft::wavelet::db2_forward_batch(&[a, b]);
    assert_eq!(av[1], one.0);
    assert_eq!(dv[1], one.1);
}
''', features="std")

XT = "xtask/src/lib.rs"
XTDEP = 'xtask = { path = "$REPO/xtask" }'
S("c19-sse-flags", "C19",
  [(XT, "        } else if cpu_flags.contains(\"avx2\") {", "        } else if cpu_flags.contains(\"avx\") {")],
  "a processor with AVX but without AVX2 (for instance Sandy Bridge)",
  "AVX2 code is selected for a machine that cannot run it",
  r'''
fn main() {
    let c = xtask::compute_config("x86_64", "flags: sse4_1 sse4_2 avx", 1, "");
    assert_eq!(c.features, vec!["x86_64".to_string(), "sse".to_string()]);
    assert_eq!(c.rustflags, None);
}
''', features="std", deps=XTDEP)

S("c19-empty-features", "C19",
  [(XT, """    cmd.arg("test");
    if let Some(f) = cfg.features_arg() {
        cmd.arg("--features").arg(f);
    }""", """    cmd.arg("test");
    cmd.arg("--features").args(&cfg.features);""")],
  "a configuration with no feature, or with several",
  "the features become separate arguments, and the flag is passed even without any",
  r'''
fn main() {
    let c = xtask::compute_config("riscv64", "", 1, "a b");
    let args: Vec<String> = xtask::test_command(&c).get_args().map(|a| a.to_str().unwrap().to_string()).collect();
    assert_eq!(args, ["test", "--features", "a b"]);
    let c = xtask::compute_config("riscv64", "", 1, "");
    let args: Vec<String> = xtask::test_command(&c).get_args().map(|a| a.to_str().unwrap().to_string()).collect();
    assert_eq!(args, ["test"]);
}
''', features="std", deps=XTDEP)

S("c19-parallel-extra", "C19",
  [(XT, "    let example = if features.iter().any(|f| f == \"parallel\") {", "    let example = if nproc > 1 {")],
  "a single-processor machine where the parallel feature is requested as an extra feature",
  "the serial benchmark program is run although the parallel feature is selected",
  r'''
fn main() {
    let c = xtask::compute_config("aarch64", "", 1, "simd parallel");
    assert_eq!(c.example, "parallel_benchmark");
}
''', features="std", deps=XTDEP)
