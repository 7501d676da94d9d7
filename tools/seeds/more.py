SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
ST = "src/stft.rs"
CE = "src/cepstrum.rs"
WM = "src/window_more.rs"
VS = "src/visual/spectrogram.rs"
WV = "src/wavelet.rs"
SC = "sanity-check/src/lib.rs"
SCD = 'sanity-check = { path = "$REPO/sanity-check" }\nhound = "*"\nimage = { version = "*", default-features = false, features = ["png"] }'

S("c01-f64-angle", "C01",
  [(F, "            let angle = -T::from_f32(2.0) * T::pi() / T::from_f32(n as f32);\n            let (sin_step, cos_step) = angle.sin_cos();\n\n            let mut table",
    "            let angle = T::from_f32(-2.0 * core::f32::consts::PI / n as f32);\n            let (sin_step, cos_step) = angle.sin_cos();\n\n            let mut table")],
  "a double-precision transform of 32 or more points, judged at double precision",
  "the twiddle angle is rounded to single precision, so f64 results are only accurate to about 1e-7",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let x = signal(64, 5);
    let mut d = c64(&x);
    f.fft(&mut d).unwrap();
    same("f64 fft", &p64(&d), &dft(&x, false), 1e-9);
}
''', features="std")

S("c02-plan-scale-strategy", "C02",
  [(F, "        self.fft(input)?;\n        let scale = T::one() / T::from_f32(self.n as f32);\n        for c in input.iter_mut() {\n            c.im = -c.im;\n            c.re = c.re * scale;\n            c.im = c.im * scale;\n        }\n        Ok(())\n    }\n    /// Out-of-place FFT using the plan",
    "        self.fft(input)?;\n        let scale = T::one() / T::from_f32(self.n as f32);\n        let points = self.n & !1;\n        for c in input[..points.max(1)].iter_mut() {\n            c.im = -c.im;\n            c.re = c.re * scale;\n            c.im = c.im * scale;\n        }\n        Ok(())\n    }\n    /// Out-of-place FFT using the plan")],
  "a plan inverse of odd length above 1",
  "the last point is neither conjugated nor scaled",
  r'''
fn main() {
    let plan = kofft::fft::FftPlan::<f64>::new(9, kofft::fft::FftStrategy::Auto);
    let x = signal(9, 5);
    let mut d = c64(&x);
    plan.ifft(&mut d).unwrap();
    same("plan inverse", &p64(&d), &dft(&x, true), 1e-4);
}
''', features="std")

S("c06-default-split", "C06",
  [(F, "        self.ifft(&mut buf)?;\n        for i in 0..re.len() {\n            re[i] = buf[i].re;\n            im[i] = buf[i].im;\n        }\n        Ok(())\n    }\n}\n\n/// FFT implementation backed",
    "        for c in buf.iter_mut() {\n            *c = Complex::new(c.im, c.re);\n        }\n        self.fft(&mut buf)?;\n        let scale = T::one() / T::from_f32(re.len().next_power_of_two() as f32);\n        for i in 0..re.len() {\n            re[i] = buf[i].im * scale;\n            im[i] = buf[i].re * scale;\n        }\n        Ok(())\n    }\n}\n\n/// FFT implementation backed")],
  "a split inverse through the default trait method (the factory's object) with a length that is not a power of two",
  "the scale is that of the next power of two",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::new_fft_impl();
    let x = signal(6, 5);
    let (mut re, mut im): (Vec<f32>, Vec<f32>) = x.iter().map(|v| (v.0 as f32, v.1 as f32)).unzip();
    f.ifft_split(&mut re, &mut im).unwrap();
    let got: Vec<_> = re.iter().zip(&im).map(|(a, b)| (*a as f64, *b as f64)).collect();
    same("split inverse", &got, &dft(&x, true), 1e-2);
}
''', features="std")

S("c09-parallel-required", "C09",
  [(ST, "    let required = signal.len().div_ceil(hop_size);\n    if output.len() < required {\n        return Err(FftError::MismatchedLengths);\n    }\n    let win_len = window.len();\n    output\n        .par_iter_mut()",
    "    let required = signal.len().saturating_sub(window.len()).div_ceil(hop_size) + 1;\n    if output.len() < required {\n        return Err(FftError::MismatchedLengths);\n    }\n    let win_len = window.len();\n    output\n        .par_iter_mut()")],
  "the parallel form with fewer frames than the serial form insists on, but enough to reach the end of the signal",
  "a frame buffer that the other forms refuse is accepted, and the last frames are missing",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x: Vec<f32> = (0..16).map(|i| i as f32).collect();
    let w = vec![1.0f32; 8];
    let mut a = vec![vec![]; 6];
    let mut b = vec![vec![]; 6];
    let p = kofft::stft::parallel(&x, &w, 2, &mut a, &f);
    let s = kofft::stft::stft(&x, &w, 2, &mut b, &f);
    assert_eq!(p, s);
}
''', features="std parallel")

S("c09-frame-wrap", "C09",
  [(ST, "    for i in 0..win_len {\n        let x = if start.saturating_add(i) < signal.len() {\n            signal[start + i] * window[i]\n        } else {\n            0.0\n        };\n        frame_out[i] = Complex32::new(x, 0.0);\n    }",
    "    for (out, (x, w)) in frame_out\n        .iter_mut()\n        .zip(signal.iter().skip(start).zip(window))\n    {\n        *out = Complex32::new(x * w, 0.0);\n    }")],
  "the single-frame form at the end of the signal with a frame buffer that holds older data",
  "samples past the end of the signal keep what the frame buffer held before",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x: Vec<f32> = (0..6).map(|i| i as f32 + 1.0).collect();
    let w = vec![1.0f32, 2.0, 1.0, 1.0];
    let mut want = vec![kofft::Complex32::new(0.0, 0.0); 4];
    kofft::stft::frame(&x, &w, 4, &mut want, &f).unwrap();
    let mut got = vec![kofft::Complex32::new(9.0, 3.0); 4];
    kofft::stft::frame(&x, &w, 4, &mut got, &f).unwrap();
    same("frame", &p32(&got), &p32(&want), 1e-6);
}
''', features="std")

S("c10-norm-count", "C10",
  [(ST, "    // Normalize by window sum\n    for i in 0..output.len() {\n        if scratch[i] > 1e-8 {",
    "    // Normalize by window sum\n    let covered = (frames.len() * hop_size).min(output.len());\n    for i in 0..covered {\n        if scratch[i] > 1e-8 {")],
  "an output longer than frames times hop, whose last samples are still covered by the last window",
  "the tail of the reconstruction is not normalised",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![2.0f32, 3.0, 2.0, 3.0];
    let x: Vec<f32> = vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0];
    let mut fr = vec![vec![]; 3];
    kofft::stft::stft(&x, &w, 2, &mut fr, &f).unwrap();
    let (mut out, mut sc) = (vec![0.0f32; 8], vec![0.0f32; 8]);
    let mut fr2 = fr[..2].to_vec();
    kofft::stft::istft(&mut fr2, &w, 2, &mut out, &mut sc, &f).unwrap();
    close("istft", &out[..6], &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], 1e-3);
}
''', features="std")

S("c11-flush-epsilon", "C11",
  [(ST, "        for i in out_start..out_end {\n            if self.norm_buf[i] > 1e-8 {\n                self.buffer[i] /= self.norm_buf[i];\n            }\n            self.norm_buf[i] = 0.0;\n        }\n        self.out_pos = out_end;",
    "        for i in out_start..out_end {\n            if self.norm_buf[i] > 1e-2 {\n                self.buffer[i] /= self.norm_buf[i];\n            }\n            self.norm_buf[i] = 0.0;\n        }\n        self.out_pos = out_end;")],
  "a window that falls to small values at its end (as every smooth window does)",
  "the last samples returned by flush are left unnormalised, unlike in the batch form",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![0.5f32, 1.0, 0.5, 0.0625];
    let fr: Vec<_> = (0..2).map(|k| c32(&signal(4, k + 20))).collect();
    let mut b = fr.clone();
    let (mut out, mut sc) = (vec![0.0f32; 6], vec![0.0f32; 6]);
    kofft::stft::istft(&mut b, &w, 2, &mut out, &mut sc, &f).unwrap();
    let mut st = kofft::stft::IstftStream::new(4, 2, w.clone(), &f).unwrap();
    let mut got = vec![];
    for x in &fr { got.extend_from_slice(st.push_frame(x).unwrap()); }
    got.extend_from_slice(st.flush());
    let want: Vec<f64> = out.iter().map(|v| *v as f64).collect();
    close("stream", &got, &want, 1e-3);
}
''', features="std")

S("c12-dct-buffer-len", "C12",
  [("src/dct.rs", "            buf[m - 1 - i] = input[i];\n        }\n        if self.spectrum.len() < n + 1 {\n            self.spectrum.resize(n + 1, Complex32::zero());\n        }",
    "            buf[m - 1 - i] = input[i];\n        }\n        if self.spectrum.len() != n + 1 {\n            self.spectrum.resize((n + 1).next_power_of_two(), Complex32::zero());\n        }"),
   ("src/dct.rs", "            self.cache.insert(n, Arc::from(table));", "            self.cache.clear();\n            self.cache.insert(n.next_power_of_two(), Arc::from(table.as_slice()));\n            self.cache.insert(n, Arc::from(table));")],
  "a planner asked for two lengths that share the next power of two, the second a power of two",
  "the second length receives the cosine table of the first",
  r'''
fn main() {
    let mut p = kofft::dct::DctPlanner::new();
    let run = |p: &mut kofft::dct::DctPlanner, n: usize| {
        let mut x: Vec<f32> = (0..n).map(|i| i as f32 + 1.0).collect();
        let want: Vec<f64> = kofft::dct::dct2(&x).iter().map(|v| *v as f64).collect();
        let mut out = vec![0.0f32; n];
        (p.plan_dct2(n))(&mut x, &mut out).unwrap();
        close("planned dct2", &out, &want, 1e-3);
    };
    run(&mut p, 3);
    run(&mut p, 4);
}
''', features="std")

S("c14-name-overwrites", "C14",
  [("src/media/index.rs", "        if let Some(id) = self.by_hash.get(&hash) {\n            return Ok(id.clone());\n        }",
    "        if let Some(id) = self.by_hash.get(&hash) {\n            let id = id.clone();\n            if let Some(name) = id.0.file_name().and_then(|s| s.to_str()) {\n                self.by_name.insert(name.to_string(), id.clone());\n            }\n            return Ok(id);\n        }")],
  "two songs with the same file name in different directories and a copy of the first under another name: index a/x, index b/x, identify copy of a/x, identify some x",
  "identification by content rebinds the name of the stored song, so the later song of that name is lost",
  r'''
use std::fs;
fn main() {
    let w = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let (a, b, c) = (w.join("a"), w.join("b"), w.join("c"));
    for d in [&a, &b, &c] { fs::create_dir_all(d).unwrap(); }
    fs::write(a.join("x"), b"one").unwrap();
    fs::write(b.join("x"), b"two").unwrap();
    fs::write(c.join("y"), b"one").unwrap();
    let mut ix = kofft::media::index::SongIndex::new();
    ix.index_song(&a.join("x")).unwrap();
    let ib = ix.index_song(&b.join("x")).unwrap();
    ix.identify(&c.join("y")).unwrap();
    assert_eq!(ix.identify(&w.join("x")).unwrap(), ib);
}
''', features="std")

S("c14-dir-key", "C14",
  [("src/media/index.rs", "        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());",
    "        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(old) = self.by_hash.insert(hash, id.clone()) {\n            self.by_name.retain(|_, v| *v != old);\n        }\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }")],
  "indexing identical content under a second name, then looking for the first name",
  "the first name is forgotten when its content is indexed again elsewhere",
  r'''
use std::fs;
fn main() {
    let w = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("d");
    fs::create_dir_all(&w).unwrap();
    fs::write(w.join("x"), b"one").unwrap();
    fs::write(w.join("y"), b"one").unwrap();
    let mut ix = kofft::media::index::SongIndex::new();
    let a = ix.index_song(&w.join("x")).unwrap();
    ix.index_song(&w.join("y")).unwrap();
    assert_eq!(ix.identify(&w.join("x")).unwrap(), a);
}
''', features="std")

S("c16-nuttall-periodic", "C16",
  [(WM, "        let x = 2.0 * PI * n as f32 / (len as f32 - 1.0);\n        *w_n = a0", "        let x = 2.0 * PI * n as f32 / (len - len % 2) as f32;\n        *w_n = a0")],
  "a Nuttall window of even length", "even lengths use the periodic denominator, so the window is not symmetric",
  r'''
fn main() {
    for n in [2usize, 5, 6, 16] {
        let w = kofft::window_more::nuttall(n);
        for i in 0..n { assert!((w[i] - w[n - 1 - i]).abs() < 1e-4, "n={n} i={i}"); }
    }
}
''', features="std")

S("c16-bessel-stop", "C16",
  [("src/window.rs", "    while t > sum * 1e-9 {", "    while t > sum * 1e-9 && n < 32.0 {")],
  "a Kaiser window with a large shape parameter (about 40 and more)",
  "the Bessel series is cut off early for the large arguments only, so the shape is wrong",
  r'''
fn i0(x: f64) -> f64 { let (mut s, mut t, mut n) = (1.0, 1.0, 1.0); while t > s * 1e-17 { t *= x * x / 4.0 / (n * n); s += t; n += 1.0; } s }
fn main() {
    let n = 33;
    let w = kofft::window::kaiser(n, 60.0);
    let want: Vec<f64> = (0..n).map(|i| { let r = (i as f64 - 16.0) / 16.0; i0(60.0 * (1.0 - r * r).sqrt()) / i0(60.0) }).collect();
    close("kaiser", &w, &want, 1e-3);
}
''', features="std")

S("c17-parallel-mags", "C17",
  [(VS, "    let mut frames = vec![vec![]; samples.len().div_ceil(hop)];", "    let mut frames = vec![vec![]; (samples.len() / hop).max(1)];\n    if frames.len() * hop < samples.len() {\n        frames.push(vec![]);\n    }")],
  "an empty recording", "an empty recording yields one silent column instead of none",
  r'''
fn main() {
    let (m, x) = kofft::visual::spectrogram::stft_magnitudes(&[], 8, 4).unwrap();
    assert!(m.is_empty() && x == 0.0);
}
''', features="std")

S("c18-czt-long", "C18",
  [("src/czt.rs", "        for _ in 0..k {\n            let tr = w_k_r * wr", "        for _ in 0..k % 64 {\n            let tr = w_k_r * wr")],
  "more than 64 requested bins with a step that is not a 64th root of unity", "bins past the 64th repeat the first ones",
  r'''
fn main() {
    let x = [1.0f32, 2.0, -1.0, 3.0];
    let m = 100usize;
    let w = (-2.0 * PI64 / m as f64).cos();
    let wi = (-2.0 * PI64 / m as f64).sin();
    let y = kofft::czt::czt_f32(&x, m, (w as f32, wi as f32), (1.0, 0.0));
    for k in 0..m {
        let (mut r, mut s) = (0.0, 0.0);
        for j in 0..4 { let a = -2.0 * PI64 * (j * k) as f64 / m as f64; r += x[j] as f64 * a.cos(); s += x[j] as f64 * a.sin(); }
        assert!((y[k].0 as f64 - r).abs() < 1e-2 && (y[k].1 as f64 - s).abs() < 1e-2, "bin {k}");
    }
}
''', features="std")

S("c20-mel-upper", "C20",
  [(CE, "        for k in bins[m]..bins[m + 1] {", "        for k in bins[m]..bins[m + 1].min(n_fft / 2) {")],
  "a filter bank whose highest triangle reaches the upper half of the spectrum", "the falling slope of the highest filters is cut off at the middle of the given bins",
  r'''
fn main() {
    // a filter bank over as many bins as were handed in: the last centre is at (n+1)/2
    let mags = vec![1.0f32; 9];
    let e = kofft::cepstrum::mel_filterbank(&mags, 8000.0, 1);
    // centre bins recomputed here
    let mel = |f: f64| 2595.0 * (1.0 + f / 700.0).log10();
    let hz = |m: f64| 700.0 * (10f64.powf(m / 2595.0) - 1.0);
    let b: Vec<usize> = (0..3).map(|i| (hz(mel(4000.0) * i as f64 / 2.0) * 10.0 / 8000.0 + 1e-6).floor() as usize).collect();
    let mut want = 0.0;
    for k in b[0]..b[1] { want += (k - b[0]) as f64 / (b[1] - b[0]) as f64; }
    for k in b[1]..b[2] { want += (b[2] - k) as f64 / (b[2] - b[1]) as f64; }
    assert!((e[0] as f64 - want).abs() < 1e-3, "{e:?} {b:?} {want}");
}
''', features="std")

S("c20-mfcc-batch-rate", "C20",
  [(CE, "    batch\n        .iter()\n        .map(|frame| mfcc(frame, sample_rate, num_mel, num_coeffs))\n        .collect()",
    "    let points = batch.iter().map(Vec::len).max().unwrap_or(0);\n    batch\n        .iter()\n        .map(|frame| {\n            let mut padded = frame.clone();\n            padded.resize(points, 0.0);\n            mfcc(&padded, sample_rate, num_mel, num_coeffs)\n        })\n        .collect()")],
  "an MFCC batch whose frames differ in length", "shorter frames are padded to the longest one, which moves every filter",
  r'''
fn main() {
    let b = vec![(0..20).map(|i| i as f32 + 1.0).collect::<Vec<_>>(), (0..33).map(|i| i as f32 + 1.0).collect()];
    let got = kofft::cepstrum::mfcc_batch(&b, 8000.0, 5, 4).unwrap();
    for (f, g) in b.iter().zip(&got) {
        let want: Vec<f64> = kofft::cepstrum::mfcc(f, 8000.0, 5, 4).unwrap().iter().map(|v| *v as f64).collect();
        close("mfcc", g, &want, 1e-3);
    }
}
''', features="std")

S("c21-wavelet-batch-order", "C21",
  [(WV, "    for input in inputs {\n        let (avg, diff) = db2_forward(input);\n        avgs.push(avg);\n        diffs.push(diff);\n    }",
    "    for input in inputs.iter().filter(|x| !x.is_empty()) {\n        let (avg, diff) = db2_forward(input);\n        avgs.push(avg);\n        diffs.push(diff);\n    }")],
  "a batch with an empty member", "empty members vanish, so later members move up",
  r'''
fn main() {
    let b = vec![vec![1.0f32, 2.0, 3.0, 4.0], vec![], vec![5.0, 6.0]];
    let (a, d) = kofft::wavelet::db2_forward_batch(&b);
    assert_eq!(a.len(), 3);
    assert_eq!(d.len(), 3);
    assert!(a[1].is_empty());
}
''', features="std")

S("c22-bluestein-late", "C22",
  [(F, "                let angle = T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);\n                chirp.push(Complex::expi(-angle));\n                b.push(Complex::expi(angle));",
    "                let angle = T::pi() * T::from_f32(k as f32) / T::from_f32(n as f32);\n                chirp.push(Complex::expi(-angle));\n                b.push(Complex::expi(angle));\n                if i * i >= 1 << 16 {\n                    b[i] = b[i - 1];\n                }")],
  "a Bluestein table of more than 256 points", "later entries repeat their predecessor",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let x = signal(300, 5);
    let mut d = c64(&x);
    f.fft(&mut d).unwrap();
    same("fft", &p64(&d), &dft(&x, false), 1e-3);
}
''', features="std")

S("c22-dct-table-f", "C22",
  [("src/rfft.rs", "            let vec = build_twiddle_table::<T>(m);\n            self.pack_cache.insert(m, Arc::from(vec));",
    "            let vec = match self.cache.get(&m) {\n                Some(t) => t.to_vec(),\n                None => build_twiddle_table::<T>(m.next_power_of_two())[..m].to_vec(),\n            };\n            self.pack_cache.insert(m, Arc::from(vec));")],
  "the packing table requested on its own for a length that is not a power of two, before the post-processing table of that length",
  "the table for the next power of two is handed out, cut to length",
  r'''
fn main() {
    let mut p = kofft::rfft::RfftPlanner::<f64>::new();
    let t = p.get_pack_twiddles(6);
    for (k, w) in t.iter().enumerate() {
        let a = -PI64 * k as f64 / 6.0;
        assert!((w.re - a.cos()).abs() < 1e-6 && (w.im - a.sin()).abs() < 1e-6, "entry {k}");
    }
}
''', features="std")


SCH = r'''
fn wav(path: &str, ch: u16, data: &[i16]) {
    let spec = hound::WavSpec { channels: ch, sample_rate: 8000, bits_per_sample: 16, sample_format: hound::SampleFormat::Int };
    let mut w = hound::WavWriter::create(path, spec).unwrap();
    for s in data { w.write_sample(*s).unwrap(); }
    w.finalize().unwrap();
}
'''

S("c23-mix-pairs", "C23",
  [(SC, "        .map(|frame| frame.iter().sum::<f32>() / channels as f32)",
    "        .map(|frame| (frame[0] + frame[channels - 1]) / channels.min(2) as f32)")],
  "a WAV file of three or more channels whose middle channels are not silent",
  "only the first and last channel of a frame are mixed",
  SCH + r'''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{dir}/a.wav");
    wav(&p, 3, &[300, 9000, -300, 0, 0, 900]);
    let (s, _) = sanity_check::read_audio(std::path::Path::new(&p)).unwrap();
    close("mix", &s, &[3000.0 / 32767.0, 300.0 / 32767.0], 1e-6);
}
''', features="std", deps=SCD)

S("c23-svg-hex", "C23",
  [(SC, '            "#{:02x}{:02x}{:02x}",', '            "#{:02x}{:x}{:02x}",')],
  "an SVG picture with a pixel whose green upper byte is below 16",
  "the colour has only five digits",
  r'''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{dir}/a.svg");
    let img = image::ImageBuffer::from_pixel(1, 1, image::Rgb([0xff00u16, 0x0800, 0x0200]));
    sanity_check::save_svg(&img, std::path::Path::new(&p)).unwrap();
    let t = std::fs::read_to_string(&p).unwrap();
    assert!(t.contains("#ff0802"), "{t}");
}
''', features="std", deps=SCD)

S("c23-svg-clip", "C23",
  [(SC, '            .set("x", x)\n            .set("y", y)', '            .set("x", x)\n            .set("y", y.min(w - 1))')],
  "an SVG picture that is higher than it is wide",
  "rows past the width are drawn on top of one another",
  r'''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{dir}/a.svg");
    let img = image::ImageBuffer::from_fn(2, 4, |x, y| image::Rgb([(x * 5000) as u16, (y * 9000) as u16, 7000u16]));
    sanity_check::save_svg(&img, std::path::Path::new(&p)).unwrap();
    let t = std::fs::read_to_string(&p).unwrap();
    assert!(t.contains("y=\"3\""), "{t}");
}
''', features="std", deps=SCD)

S("c23-log-last-bin", "C23",
  [("sanity-check/src/main.rs", "            ScaleMode::Log => log_scale_bins(&frame[..height], height - 1),",
    "            ScaleMode::Log => log_scale_bins(&frame[..height], height.saturating_sub(2).max(1)),")],
  "a picture drawn with logarithmic frequency scale",
  "the top row stays black and the highest bin is left out",
  SCH + r'''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let repo = std::env::args().nth(2).unwrap();
    let p = format!("{dir}/a.wav");
    let mut g = Lcg(3);
    let v: Vec<i16> = (0..256).map(|_| (g.next() * 20000.0) as i16).collect();
    wav(&p, 1, &v);
    let out = format!("{dir}/a.png");
    let st = std::process::Command::new("cargo").args(["run", "-q", "--offline", "--manifest-path",
        &format!("{repo}/sanity-check/Cargo.toml"), "--", &p, &out, "--win-len", "32", "--scale-mode", "log", "--colormap", "gray"])
        .status().unwrap();
    assert!(st.success());
    let im = {
        use image::ImageDecoder;
        let d = image::codecs::png::PngDecoder::new(std::fs::File::open(&out).unwrap()).unwrap();
        let (w, _) = d.dimensions();
        let mut b = vec![0u8; d.total_bytes() as usize];
        d.read_image(&mut b).unwrap();
        b[..w as usize * 3].to_vec()
    };
    assert!(im.iter().any(|v| *v != 0), "top row is empty");
}
''', features="std", deps=SCD)

S("c19-example-substring", "C19",
  [("xtask/src/lib.rs", 'features.iter().any(|f| f == "parallel")', 'features.iter().any(|f: &String| f.contains("parallel"))')],
  "one processor and an extra feature whose name merely contains the word parallel",
  "the parallel benchmark is selected without the parallel feature",
  r'''
fn main() {
    let c = xtask::compute_config("x86_64", "flags: avx2", 1, "non-parallel");
    assert_eq!(c.example, "benchmark");
}
''', features="std", deps='xtask = { path = "$REPO/xtask" }')

S("c19-killed-ok", "C19",
  [("xtask/src/main.rs", "std::process::exit(status.code().unwrap_or(1));", "std::process::exit(status.code().unwrap_or_default());")],
  "a started program that is killed by a signal",
  "the helper reports success",
  r'''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let repo = std::env::args().nth(2).unwrap();
    let td = format!("{dir}/xt");
    let st = std::process::Command::new("cargo").args(["build", "-q", "--offline", "--manifest-path",
        &format!("{repo}/xtask/Cargo.toml"), "--target-dir", &td]).status().unwrap();
    assert!(st.success());
    let bin = format!("{dir}/bin");
    std::fs::create_dir(&bin).unwrap();
    let f = format!("{bin}/cargo");
    std::fs::write(&f, "#!/bin/sh\nkill -9 $$\n").unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    let st = std::process::Command::new(format!("{td}/debug/xtask")).arg("build")
        .env("PATH", format!("{bin}:/usr/bin:/bin")).status().unwrap();
    assert_eq!(st.code(), Some(1));
}
''', features="std")

S("c15-threshold-twice", "C15",
  [(F, "            if should_parallelize_fft(n, threshold)\n                && core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>()\n            {\n                let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };\n                input32.par_iter_mut().for_each(|c| c.im = -c.im);\n                self.fft(input)?;\n                let scale = 1.0 / n as f32;\n                input32.par_iter_mut().for_each(|c| {\n                    c.im = -c.im;\n                    c.re *= scale;\n                    c.im *= scale;\n                });\n                return Ok(());\n            }",
    "            if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {\n                let input32 = unsafe { &mut *(input as *mut [Complex<T>] as *mut [Complex32]) };\n                if should_parallelize_fft(n, threshold) {\n                    input32.par_iter_mut().for_each(|c| core::mem::swap(&mut c.re, &mut c.im));\n                } else {\n                    input32.iter_mut().for_each(|c| c.im = -c.im);\n                }\n                self.fft(input)?;\n                let scale = 1.0 / n as f32;\n                if should_parallelize_fft(n, threshold) {\n                    input32.par_iter_mut().for_each(|c| {\n                        *c = Complex32::new(c.im * scale, c.re * scale);\n                    });\n                } else {\n                    input32.iter_mut().for_each(|c| {\n                        *c = Complex32::new(c.re * scale, -c.im * scale);\n                    });\n                }\n                return Ok(());\n            }")],
  "another thread moves the threshold across the length while an f32 inverse is running",
  "the two halves of the inverse disagree about how the conjugation is done",
  r'''
use kofft::fft::FftImpl;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let stop = std::sync::Arc::new(AtomicBool::new(false));
    let s2 = stop.clone();
    let h = std::thread::spawn(move || while !s2.load(Ordering::Relaxed) {
        kofft::fft::set_parallel_fft_threshold(1);
        std::thread::yield_now();
        kofft::fft::set_parallel_fft_threshold(1 << 30);
        std::thread::yield_now();
    });
    let x = signal(1000, 5);
    let e = dft(&x, true);
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let mut bad = false;
    for _ in 0..20000 {
        let mut d = c32(&x);
        f.ifft(&mut d).unwrap();
        if p32(&d).iter().zip(&e).any(|(a, b)| (a.0 - b.0).abs() > 0.05 || (a.1 - b.1).abs() > 0.05) { bad = true; break; }
    }
    stop.store(true, Ordering::Relaxed);
    h.join().unwrap();
    assert!(!bad, "an inverse was wrong");
}
''', features="std parallel")

RF = "src/rfft.rs"
S("c07-packed-nyquist", "C07",
  [(RF, "    let m = n / 2;\n    if output.len() != m + 1 || scratch.len() < m {\n        return Err(FftError::MismatchedLengths);\n    }\n    for i in 0..m {\n        scratch[i] = Complex::new(input[2 * i], input[2 * i + 1]);\n    }\n    fft.fft(&mut scratch[..m])?;\n    let y0 = scratch[0];\n    output[0] = Complex::new(y0.re + y0.im, T::zero());\n    output[m] = Complex::new(y0.re - y0.im, T::zero());\n    let half = T::from_f32(0.5);\n    let twiddles = planner.get_twiddles(m);",
    "    let m = n / 2;\n    if output.len() != m + 1 || scratch.len() < m {\n        return Err(FftError::MismatchedLengths);\n    }\n    for i in 0..m {\n        scratch[i] = Complex::new(input[2 * i], input[2 * i + 1]);\n    }\n    fft.fft(scratch)?;\n    let y0 = scratch[0];\n    output[0] = Complex::new(y0.re + y0.im, T::zero());\n    output[m] = Complex::new(y0.re - y0.im, T::zero());\n    let half = T::from_f32(0.5);\n    let twiddles = planner.get_twiddles(m);")],
  "the packed real transform with a scratch buffer longer than half the signal",
  "the stale tail of the scratch is transformed along and the spectrum is wrong",
  r'''
use kofft::fft::Complex64;
fn main() {
    let mut p = kofft::rfft::RfftPlanner::<f64>::new();
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let x: Vec<f64> = signal(16, 5).iter().map(|v| v.0).collect();
    let mut inp = x.clone();
    let mut out = vec![Complex64::new(0.0, 0.0); 9];
    let mut scr = vec![Complex64::new(7.0, -3.0); 11];
    kofft::rfft::rfft_packed(&mut p, &f, &mut inp, &mut out, &mut scr).unwrap();
    let e = dft(&x.iter().map(|v| (*v, 0.0)).collect::<Vec<_>>(), false);
    same("rfft", &p64(&out), &e[..9], 1e-6);
}
''', features="std")
