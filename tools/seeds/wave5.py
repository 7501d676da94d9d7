SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
R = "src/rfft.rs"
ST = "src/stft.rs"
ND = "src/ndfft.rs"
MI = "src/media/index.rs"
SP = "src/visual/spectrogram.rs"
WL = "web-spectrogram/src/lib.rs"
WDEP = 'web-spectrogram = { path = "$REPO/web-spectrogram" }'
XTDEP = 'xtask = { path = "$REPO/xtask" }'

S("c03-chirp-byte-key", "C03",
  [(F, "self.bluestein_cache.entry(n).or_insert_with", "self.bluestein_cache.entry(n as u8 as usize).or_insert_with")],
  "one FFT object used for two non-power-of-two lengths that differ by 256",
  "the chirp tables of the first length are used for the second",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let run = |f: &ScalarFftImpl<f32>, n: usize| {
        let mut x: Vec<Complex32> = (0..n).map(|i| Complex32::new(((i * 7) % 11) as f32, ((i * 5) % 7) as f32)).collect();
        f.fft(&mut x).unwrap();
        p32(&x)
    };
    run(&fft, 261);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&fft, 5))).expect("panicked");
    assert_eq!(got, run(&ScalarFftImpl::<f32>::default(), 5));
}
''', features="std")

S("c05-stride-one", "C05",
  [(F, "        let n = scratch.len();\n        if n == 0 {\n            return Ok(());\n        }\n        if (n - 1)\n            .checked_mul(stride)\n            .is_none_or(|last| last >= input.len())\n        {\n            return Err(FftError::MismatchedLengths);\n        }\n        for i in 0..n {\n            scratch[i] = input[i * stride];\n        }\n        self.fft(&mut scratch[..n])?;",
    "        let n = scratch.len();\n        if n == 0 {\n            return Ok(());\n        }\n        if (n - 1)\n            .checked_mul(stride)\n            .is_none_or(|last| last >= input.len())\n        {\n            return Err(FftError::MismatchedLengths);\n        }\n        if stride == 1 {\n            // contiguous data needs no gathering\n            return self.fft(input);\n        }\n        for i in 0..n {\n            scratch[i] = input[i * stride];\n        }\n        self.fft(&mut scratch[..n])?;")],
  "a strided transform with stride one of fewer points than the buffer holds",
  "the whole buffer is transformed",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let mut x: Vec<Complex32> = (0..8).map(|i| Complex32::new(i as f32, 1.0)).collect();
    let y = x.clone();
    let mut s = vec![Complex32::new(0.0, 0.0); 4];
    fft.fft_strided(&mut x, 1, &mut s).unwrap();
    assert_eq!(p32(&x[4..]), p32(&y[4..]));
}
''', features="std")

S("c05-equal-stride-copy", "C05",
  [(F, "        let n = input.len() / in_stride;\n        if output.len() / out_stride != n {\n            return Err(FftError::MismatchedLengths);\n        }\n        let mut scratch = {\n            let planner = unsafe { self.planner_mut() };\n            let mut scratch = core::mem::take(&mut planner.scratch);\n            if scratch.len() < n {\n                scratch.resize(n, Complex::zero());\n            }\n            for i in 0..n {\n                scratch[i] = input[i * in_stride];\n            }\n            scratch\n        };\n        self.ifft(&mut scratch[..n])?;",
    "        let n = input.len() / in_stride;\n        if output.len() / out_stride != n {\n            return Err(FftError::MismatchedLengths);\n        }\n        if in_stride == out_stride {\n            // same layout: work on a copy\n            output.copy_from_slice(input);\n            return self.ifft_strided_alloc(output, out_stride);\n        }\n        let mut scratch = {\n            let planner = unsafe { self.planner_mut() };\n            let mut scratch = core::mem::take(&mut planner.scratch);\n            if scratch.len() < n {\n                scratch.resize(n, Complex::zero());\n            }\n            for i in 0..n {\n                scratch[i] = input[i * in_stride];\n            }\n            scratch\n        };\n        self.ifft(&mut scratch[..n])?;")],
  "an out-of-place strided inverse with equal strides above one",
  "the elements between the strides of the output are overwritten",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let x: Vec<Complex32> = (0..8).map(|i| Complex32::new(i as f32, 1.0)).collect();
    let mut y = vec![Complex32::new(99.0, -99.0); 8];
    fft.ifft_out_of_place_strided(&x, 2, &mut y, 2).unwrap();
    for i in (1..8).step_by(2) { assert_eq!((y[i].re, y[i].im), (99.0, -99.0)); }
}
''', features="std")

S("c08-depth-two", "C08",
  [(ND, "    // FFT on depth (z axis)\n    for r in 0..rows {\n        for c in 0..cols {\n            let start = r * cols + c;\n            fft.fft_strided(&mut data[start..], rows * cols, scratch.tube)?;\n        }\n    }",
    "    // FFT on depth (z axis)\n    if depth == 2 {\n        // a pair of planes needs one butterfly per element\n        let (front, back) = data.split_at_mut(rows * cols);\n        for r in 0..rows {\n            let line = r * cols..r * cols + cols.min(4 * rows);\n            for (a, b) in front[line.clone()].iter_mut().zip(&mut back[line]) {\n                let sum = a.add(*b);\n                *b = a.sub(*b);\n                *a = sum;\n            }\n        }\n    } else {\n        for r in 0..rows {\n            for c in 0..cols {\n                let start = r * cols + c;\n                fft.fft_strided(&mut data[start..], rows * cols, scratch.tube)?;\n            }\n        }\n    }")],
  "a volume of two planes more than four times as wide as high",
  "the elements beyond never get the depth butterfly",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
use kofft::ndfft::{fft3d_inplace, Fft3dScratch};
fn main() {
    let (d, r, c) = (2usize, 1usize, 8usize);
    let x: Vec<(f64, f64)> = (0..d * r * c).map(|i| (((i * 5) % 7) as f64, ((i * 3) % 5) as f64)).collect();
    let mut y: Vec<Complex32> = x.iter().map(|v| Complex32::new(v.0 as f32, v.1 as f32)).collect();
    let z = Complex32::new(0.0, 0.0);
    let (mut a, mut b, mut e) = (vec![z; d], vec![z; r], vec![z; c]);
    fft3d_inplace(&mut y, d, r, c, &ScalarFftImpl::<f32>::default(), &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut e }).unwrap();
    for k in 0..d * r * c {
        let (kd, kr, kc) = (k / (r * c), (k / c) % r, k % c);
        let (mut sr, mut si) = (0.0, 0.0);
        for i in 0..d * r * c {
            let (id, ir, ic) = (i / (r * c), (i / c) % r, i % c);
            let p = -2.0 * PI64 * ((kd * id) as f64 / d as f64 + (kr * ir) as f64 / r as f64 + (kc * ic) as f64 / c as f64);
            sr += x[i].0 * p.cos() - x[i].1 * p.sin();
            si += x[i].0 * p.sin() + x[i].1 * p.cos();
        }
        assert!((sr - y[k].re as f64).abs() < 1e-3 && (si - y[k].im as f64).abs() < 1e-3, "bin {k}");
    }
}
''', features="std")

S("c10-silent-frame", "C10",
  [(ST, "    for (frame_idx, frame) in frames.iter_mut().enumerate() {\n        let start = frame_idx.saturating_mul(hop_size);\n        fft.ifft(frame)?;",
    "    for (frame_idx, frame) in frames.iter_mut().enumerate() {\n        let start = frame_idx.saturating_mul(hop_size);\n        if frame.iter().all(|c| c.re == 0.0 && c.im == 0.0) {\n            continue; // silence adds nothing\n        }\n        fft.ifft(frame)?;")],
  "a frame of exact zeros overlapping frames that are not silent, with frames not made from one signal",
  "the window energy of the silent frame is missing from the normalisation",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let w = vec![1.0f32; 4];
    let mut a: Vec<Complex32> = (0..4).map(|_| Complex32::new(2.0, 0.0)).collect();
    fft.fft(&mut a).unwrap();
    let mut frames = vec![a, vec![Complex32::new(0.0, 0.0); 4]];
    let (mut out, mut s) = (vec![0.0f32; 6], vec![0.0f32; 6]);
    kofft::stft::istft(&mut frames, &w, 2, &mut out, &mut s, &fft).unwrap();
    assert!((out[2] - 1.0).abs() < 1e-5, "{out:?}");
}
''', features="std")

S("c11-silent-push", "C11",
  [(ST, "        self.time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut self.time_buf)?;\n        // Window and overlap-add\n        for i in 0..self.win_len {",
    "        self.time_buf.copy_from_slice(frame);\n        let silent = frame.iter().all(|c| c.re == 0.0 && c.im == 0.0);\n        if !silent {\n            self.fft.ifft(&mut self.time_buf)?;\n        }\n        // Window and overlap-add\n        for i in 0..if silent { 0 } else { self.win_len } {")],
  "a silent frame pushed among frames that are not silent",
  "the overlap of the silent frame is not counted in the normalisation",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let mut a: Vec<Complex32> = (0..4).map(|_| Complex32::new(2.0, 0.0)).collect();
    fft.fft(&mut a).unwrap();
    let zero = vec![Complex32::new(0.0, 0.0); 4];
    let mut s = kofft::stft::IstftStream::new(4, 2, vec![1.0; 4], &fft).unwrap();
    s.push_frame(&a).unwrap();
    let out = s.push_frame(&zero).unwrap();
    assert!((out[0] - 1.0).abs() < 1e-5, "{out:?}");
}
''', features="std")

S("c15-block-exact", "C15",
  [(F, "                input32.par_iter_mut().for_each(|c| c.im = -c.im);\n                self.fft(input)?;\n                let scale = 1.0 / n as f32;\n                input32.par_iter_mut().for_each(|c| {\n                    c.im = -c.im;\n                    c.re *= scale;\n                    c.im *= scale;\n                });",
    "                input32.par_iter_mut().for_each(|c| c.im = -c.im);\n                self.fft(input)?;\n                let scale = 1.0 / n as f32;\n                let block = (n / rayon::current_num_threads()).max(1);\n                input32.par_chunks_exact_mut(block).for_each(|chunk| {\n                    for c in chunk {\n                        c.im = -c.im;\n                        c.re *= scale;\n                        c.im *= scale;\n                    }\n                });")],
  "a parallel inverse whose length is not a multiple of the number of worker threads",
  "the last few points are left unscaled",
  r'''
use kofft::fft::{FftImpl, ScalarFftImpl, Complex32};
fn main() {
    kofft::fft::set_parallel_fft_threshold(1);
    kofft::fft::set_parallel_fft_threads(3);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
    pool.install(|| {
        let fft = ScalarFftImpl::<f32>::default();
        let x: Vec<Complex32> = (0..64).map(|i| Complex32::new(i as f32, 1.0)).collect();
        let mut y = x.clone();
        fft.fft(&mut y).unwrap();
        fft.ifft(&mut y).unwrap();
        for i in 0..64 { assert!((x[i].re - y[i].re).abs() < 1e-2, "element {i}: {}", y[i].re); }
    });
}
''', features="std parallel", deps='rayon = "*"')

S("c14-reindex-skip", "C14",
  [(MI, "    pub fn index_song(&mut self, path: &Path) -> io::Result<SongId> {\n        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());",
    "    pub fn index_song(&mut self, path: &Path) -> io::Result<SongId> {\n        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(known) = path.file_name().and_then(|s| s.to_str()).and_then(|s| self.by_name.get(s)) {\n            if *known == id {\n                return Ok(id); // indexed before\n            }\n        }")],
  "a file indexed again after its contents changed, and a differently named file with the new contents",
  "the new contents are not bound to the song",
  r'''
use std::path::Path;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let d = Path::new(&d);
    let mut x = kofft::media::index::SongIndex::new();
    std::fs::write(d.join("a"), b"one").unwrap();
    x.index_song(&d.join("a")).unwrap();
    std::fs::write(d.join("a"), b"two").unwrap();
    let id = x.index_song(&d.join("a")).unwrap();
    std::fs::write(d.join("b"), b"two").unwrap();
    assert_eq!(x.identify(&d.join("b")).unwrap(), id);
}
''', features="std")

S("c14-first-mebibyte", "C14",
  [(MI, "        let mut buf = [0u8; 8192];\n        loop {\n            let n = file.read(&mut buf)?;\n            if n == 0 {\n                break;\n            }\n            hasher.update(&buf[..n]);\n        }",
    "        let mut buf = [0u8; 8192];\n        // a mebibyte identifies a recording\n        for _ in 0..128 {\n            let n = file.read(&mut buf)?;\n            if n == 0 {\n                break;\n            }\n            hasher.update(&buf[..n]);\n        }")],
  "two files above one mebibyte that differ only after it",
  "they are taken for the same song",
  r'''
use std::path::Path;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let d = Path::new(&d);
    let mut x = kofft::media::index::SongIndex::new();
    let mut a = vec![7u8; (1 << 20) + 5];
    std::fs::write(d.join("a"), &a).unwrap();
    *a.last_mut().unwrap() = 9;
    std::fs::write(d.join("b"), &a).unwrap();
    let p = x.index_song(&d.join("a")).unwrap();
    assert_ne!(x.identify(&d.join("b")).unwrap(), p);
}
''', features="std")

S("c16-hann-mirror", "C16",
  [("src/window.rs", "pub fn hann(len: usize) -> alloc::vec::Vec<f32> {\n    (0..len)\n        .map(|i| 0.5 - 0.5 * (2.0 * PI * i as f32 / len as f32).cos())\n        .collect()\n}",
    "pub fn hann(len: usize) -> alloc::vec::Vec<f32> {\n    let mut w = alloc::vec![0.0; len];\n    // the second half mirrors the first\n    for i in 1..len.div_ceil(2) {\n        w[i] = 0.5 - 0.5 * (2.0 * PI * i as f32 / len as f32).cos();\n        w[len - 1 - (i - 1) % len.max(1)] = w[i];\n    }\n    if len > 1 {\n        w[len / 2] = 1.0;\n    }\n    w\n}")],
  "a Hann window of odd length",
  "the middle is one although no sample lies on the centre of an odd periodic window",
  r'''
fn main() {
    for n in [5usize, 7, 9] {
        let w = kofft::window::hann(n);
        for i in 0..n {
            let e = 0.5 - 0.5 * (2.0 * PI64 * i as f64 / n as f64).cos();
            assert!((w[i] as f64 - e).abs() < 1e-5, "n={n} i={i}: {} vs {e}", w[i]);
        }
    }
}
''', features="std")

S("c17-parse-prefix", "C17",
  [(SP, '        match s.to_ascii_lowercase().as_str() {\n            "legacy" => Colormap::Legacy,\n            "gray" => Colormap::Gray,',
        '        match s.to_ascii_lowercase().as_str() {\n            "legacy" => Colormap::Legacy,\n            s if s.starts_with("gr") => Colormap::Gray,')],
  "the palette name green or grey",
  "an unknown name no longer selects the default palette",
  r'''
fn main() {
    use kofft::visual::spectrogram::Colormap;
    assert_eq!(Colormap::parse("green"), Colormap::Fire);
    assert_eq!(Colormap::parse("Gray"), Colormap::Gray);
}
''', features="std")

S("c17-db-guard", "C17",
  [(SP, "    let db = 20.0 * (mag / max_mag).log10();\n    db.max(floor_db)", "    if mag - max_mag * 1e-4 <= 0.0 {\n        return floor_db; // nothing to see\n    }\n    let db = 20.0 * (mag / max_mag).log10();\n    db.max(floor_db)")],
  "a floor below -80 dB and a magnitude more than 80 dB below the maximum",
  "values between -80 dB and the floor drop to the floor",
  r'''
fn main() {
    let db = kofft::visual::spectrogram::magnitude_to_db(1e-5, 1.0, -120.0);
    assert!((db + 100.0).abs() < 1e-2, "{db}");
}
''', features="std")

S("c18-goertzel-nyquist", "C18",
  [("src/goertzel.rs", "    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * omega.cos();",
    "    if k > 0.0 && k as usize == input.len() / 2 {\n        // the Nyquist bin is an alternating sum\n        let mut sum = 0.0f32;\n        for (i, &x) in input.iter().enumerate() {\n            sum += if i % 2 == 0 { x } else { -x };\n        }\n        return Ok(sum.abs());\n    }\n    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * omega.cos();")],
  "an odd number of samples and a frequency in the bin just below half the rate",
  "the alternating sum is not that bin",
  r'''
fn main() {
    let n = 7usize;
    let x: Vec<f32> = (0..n).map(|i| ((i * 3) % 5) as f32).collect();
    let g = kofft::goertzel::goertzel_f32(&x, 7.0, 3.4).unwrap() as f64;
    let (mut a, mut b) = (0.0f64, 0.0f64);
    for i in 0..n {
        let p = 2.0 * PI64 * 3.0 * i as f64 / n as f64;
        a += x[i] as f64 * p.cos();
        b += x[i] as f64 * p.sin();
    }
    let e = (a * a + b * b).sqrt();
    assert!((g - e).abs() < 1e-3, "{g} vs {e}");
}
''', features="std")

S("c18-czt-near-unit", "C18",
  [("src/czt.rs", "    let a_inv_r = if denom == 0.0 { 0.0 } else { ar / denom };", "    // points of the unit circle: no rounding from the quotient\n    let denom = if (denom - 1.0).abs() < 1e-2 { 1.0 } else { denom };\n    let a_inv_r = if denom == 0.0 { 0.0 } else { ar / denom };")],
  "a chirp-z start point just off the unit circle and a long input",
  "the spiral starts at the wrong radius",
  r'''
fn main() {
    let n = 200usize;
    let x = vec![1.0f32; n];
    let a = 1.004f64;
    let y = kofft::czt::czt_f32(&x, 1, (1.0, 0.0), (a as f32, 0.0));
    let a = (a as f32) as f64;
    let e: f64 = (0..n).map(|i| a.powi(-(i as i32))).sum();
    assert!((y[0].0 as f64 - e).abs() < 1e-3 * e, "{} vs {e}", y[0].0);
}
''', features="std")

S("c19-arch-exact", "C19",
  [("xtask/src/lib.rs", '    if arch.contains("x86_64") {', '    if arch == "x86_64" {')],
  "an architecture given as a target triple or with spaces around it",
  "the architecture feature is missing",
  r'''
fn main() {
    let c = xtask::compute_config("x86_64-unknown-linux-gnu", "avx2", 1, "");
    assert_eq!(c.features, ["x86_64", "avx2"]);
}
''', features="std", deps=XTDEP)

S("c21-skip-empty", "C21",
  [(F, "    for batch in batches.iter_mut() {\n        fft.ifft(batch)?;\n    }", "    for batch in batches.iter_mut() {\n        if batch.is_empty() {\n            continue;\n        }\n        fft.ifft(batch)?;\n    }")],
  "a batch of inverse transforms with an empty member",
  "the empty member is no longer reported",
  r'''
use kofft::fft::{batch_inverse, ScalarFftImpl, Complex32, FftError};
fn main() {
    let z = Complex32::new(1.0, 0.0);
    let mut b = vec![vec![z; 4], vec![], vec![z; 2]];
    assert_eq!(batch_inverse(&ScalarFftImpl::<f32>::default(), &mut b).unwrap_err(), FftError::EmptyInput);
    assert_eq!(p32(&b[2]), [(1.0, 0.0); 2]);
}
''', features="std")

S("c07-packed-half", "C07",
  [(R, "    for k in 1..m {\n        let a = scratch[k];\n        let b = Complex::new(scratch[m - k].re, -scratch[m - k].im);\n        let sum = a.add(b);\n        let diff = a.sub(b);\n        let w = twiddles[k];\n        let t = w.mul(diff);\n        let temp = sum.add(Complex::new(t.im, -t.re));\n        output[k] = Complex::new(temp.re * half, temp.im * half);\n    }\n    Ok(())\n}\n\n/// Packed inverse",
    "    // bins k and m - k share their sum and difference\n    for k in 1..m / 2 {\n        let a = scratch[k];\n        let b = Complex::new(scratch[m - k].re, -scratch[m - k].im);\n        let sum = a.add(b);\n        let diff = a.sub(b);\n        let w = twiddles[k];\n        let t = w.mul(diff);\n        let low = sum.add(Complex::new(t.im, -t.re));\n        let high = sum.sub(Complex::new(t.im, -t.re));\n        output[k] = Complex::new(low.re * half, low.im * half);\n        output[m - k] = Complex::new(high.re * half, -high.im * half);\n    }\n    if m > 1 {\n        output[m / 2] = Complex::new(scratch[m / 2].re, -scratch[m / 2].im);\n    }\n    Ok(())\n}\n\n/// Packed inverse")],
  "the packed real transform of a length that is twice an odd number",
  "the two middle bins are wrong",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
fn main() {
    let n = 10usize;
    let x: Vec<f32> = (0..n).map(|i| ((i * 5) % 7) as f32).collect();
    let mut p = kofft::rfft::RfftPlanner::<f32>::new();
    let z = Complex32::new(0.0, 0.0);
    let (mut o, mut s) = (vec![z; n / 2 + 1], vec![z; n / 2]);
    kofft::rfft::rfft_packed(&mut p, &ScalarFftImpl::<f32>::default(), &mut x.clone(), &mut o, &mut s).unwrap();
    for k in 0..=n / 2 {
        let (mut a, mut b) = (0.0f64, 0.0f64);
        for i in 0..n {
            let t = -2.0 * PI64 * (i * k) as f64 / n as f64;
            a += x[i] as f64 * t.cos();
            b += x[i] as f64 * t.sin();
        }
        assert!((o[k].re as f64 - a).abs() < 1e-3 && (o[k].im as f64 - b).abs() < 1e-3, "bin {k}");
    }
}
''', features="std")

S("c09-surplus-frames", "C09",
  [(ST, "    let win_len = window.len();\n    for (frame_idx, frame) in output.iter_mut().enumerate() {", "    let win_len = window.len();\n    // frames beyond the signal need no transform\n    for (frame_idx, frame) in output.iter_mut().enumerate().take(required) {")],
  "more frame buffers than the signal has frames, with earlier contents",
  "the surplus frames keep what they held before",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let mut f = vec![vec![Complex32::new(5.0, 5.0); 4]; 4];
    kofft::stft::stft(&[1.0, 2.0, 3.0, 4.0], &[1.0; 4], 2, &mut f, &fft).unwrap();
    assert_eq!(p32(&f[3]), [(0.0, 0.0); 4]);
}
''', features="std")

S("c25-catch-up", "C25",
  [(WL, "        self.buf.drain(0..HOP);", "        self.buf.drain(0..HOP.max(self.buf.len().saturating_sub(2 * WIN_LEN)));")],
  "a call that delivers much more than one window, and calls after it",
  "rows that were never delivered are skipped",
  r'''
fn main() {
    let x: Vec<f32> = (0..6000).map(|i| ((i * i) % 97) as f32 / 97.0).collect();
    web_spectrogram::reset_state();
    let mut a = vec![];
    for c in x.chunks(512) { let r = web_spectrogram::compute_frame(c); if !r.is_empty() { a.push(r); } }
    web_spectrogram::reset_state();
    let mut b = vec![web_spectrogram::compute_frame(&x)];
    loop { let r = web_spectrogram::compute_frame(&[]); if r.is_empty() { break; } b.push(r); }
    assert_eq!(a.len(), b.len());
    assert_eq!(a, b);
}
''', features="std", deps=WDEP)

S("c25-empty-call", "C25",
  [(WL, "        self.buf.extend_from_slice(samples);\n        if self.buf.len() < WIN_LEN {", "        self.buf.extend_from_slice(samples);\n        if samples.is_empty() || self.buf.len() < WIN_LEN {")],
  "an empty call while a complete frame is waiting",
  "the row that is complete is not returned",
  r'''
fn main() {
    web_spectrogram::reset_state();
    let x: Vec<f32> = (0..2048).map(|i| (i % 50) as f32).collect();
    assert!(!web_spectrogram::compute_frame(&x).is_empty());
    assert!(!web_spectrogram::compute_frame(&[]).is_empty());
}
''', features="std", deps=WDEP)

S("c25-map-restarts", "C25",
  [(WL, "        s.borrow_mut().cmap = KColormap::parse(name);", "        let mut s = s.borrow_mut();\n        s.cmap = KColormap::parse(name);\n        // colours of the new map start from their own maximum\n        s.max_mag = 1e-12;")],
  "the colour map changed in the middle of a stream that has become quieter",
  "the maximum met before the change is forgotten",
  r'''
fn main() {
    let run = |first: &str, second: Option<&str>| {
        web_spectrogram::reset_state();
        web_spectrogram::set_colormap(first);
        let loud: Vec<f32> = (0..1024).map(|i| ((i * 7) % 13) as f32).collect();
        web_spectrogram::compute_frame(&loud);
        if let Some(s) = second { web_spectrogram::set_colormap(s); }
        let quiet: Vec<f32> = (0..512).map(|i| ((i * 7) % 13) as f32 * 1e-3).collect();
        web_spectrogram::compute_frame(&quiet);
        web_spectrogram::compute_frame(&quiet)
    };
    assert_eq!(run("gray", None), run("fire", Some("gray")));
}
''', features="std", deps=WDEP)

S("c25-row-maximum", "C25",
  [(WL, "        for c in &frame[..half] {\n            let mag = (c.re * c.re + c.im * c.im).sqrt();\n            if mag > self.max_mag {\n                self.max_mag = mag;\n            }\n",
        "        let peak = frame[1..half]\n            .iter()\n            .map(|c| (c.re * c.re + c.im * c.im).sqrt())\n            .fold(0.0f32, f32::max);\n        self.max_mag = self.max_mag.max(peak);\n        for c in &frame[..half] {\n            let mag = (c.re * c.re + c.im * c.im).sqrt();\n")],
  "a stream whose largest magnitude is in the lowest bin, or whose maximum lies in a higher bin of the same row",
  "the colours of a row depend on bins after them, and the lowest bin is left out of the maximum",
  r'''
fn main() {
    web_spectrogram::reset_state();
    web_spectrogram::set_colormap("gray");
    // a constant: the lowest bin is twice its neighbour and all the rest is nothing
    let r = web_spectrogram::compute_frame(&vec![1.0f32; 1024]);
    assert_eq!(r[0], 255);
    assert!(r[4] < 255, "the neighbour is 6 dB below the maximum, shown as {}", r[4]);
}
''', features="std", deps=WDEP)

S("c25-width-floor", "C25",
  [(WL, "    let width = mags.len();\n    let mut flat", "    let width = samples.len() / hop;\n    let mut flat"),
   (WL, "    for frame in mags.iter() {", "    for frame in mags.iter().take(width) {")],
  "a signal whose length is not a multiple of the hop",
  "the last frame is dropped",
  r'''
fn main() {
    let x: Vec<f32> = (0..10).map(|i| i as f32).collect();
    let r = web_spectrogram::stft_magnitudes(&x, 4, 4).ok().unwrap();
    assert_eq!(r.width(), 3);
}
''', features="std", deps=WDEP)

S("c25-folder-page", "C25",
  [("web-spectrogram/src/main.rs", "            .append_index_html_on_directories(true)", "            .append_index_html_on_directories(false)")],
  "the address of a folder below the served one (or the root)",
  "a folder is answered with the main page of the server instead of its own index page",
  "", sh=r'''#!/bin/bash
# Demonstration: exit 0 when the property holds, 1 when it is broken.
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -r "$W"' EXIT
S=$W/s; mkdir -p "$S/static/sub"
echo main > "$S/static/index.html"; echo sub > "$S/static/sub/index.html"
cd "$REPO" || exit 2
CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true cargo build --offline -q -p web-spectrogram --bin web-spectrogram 2> "$W/log" || { cat "$W/log"; exit 2; }
cat > "$W/go.sh" <<'G'
ip link set lo up 2>/dev/null
cd "$1" || exit 2
"$2" > /dev/null 2>&1 & P=$!
for i in $(seq 100); do
  r=$(python3 - <<'P'
import http.client
try:
    c = http.client.HTTPConnection("127.0.0.1", 3000, timeout=5)
    c.request("GET", "/sub/"); print(c.getresponse().read().decode().strip())
except OSError: pass
P
)
  [ -n "$r" ] && break
  sleep 0.1
done
kill $P
echo "$r"
[ "$r" = sub ]
G
unshare -Urn bash "$W/go.sh" "$S" "$W/target/debug/web-spectrogram"
[ $? -eq 0 ] && exit 0
exit 1
''')
