SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
ST = "src/stft.rs"
ND = "src/ndfft.rs"
DS = "src/dst.rs"
DC = "src/dct.rs"
HI = "src/hilbert.rs"
GO = "src/goertzel.rs"
CE = "src/cepstrum.rs"
RF = "src/rfft.rs"
WL = "web-spectrogram/src/lib.rs"

S("c22-dst-mirror", "C22",
  [(DS, "        for i in 0..n {\n            let angle = factor * (T::from_f32(i as f32) + off);\n            table.push(angle.sin());\n        }\n        table",
    "        // The sines of a long table repeat backwards after the middle.\n        let direct = if n > 512 { n.div_ceil(2) } else { n };\n        for i in 0..direct {\n            let angle = factor * (T::from_f32(i as f32) + off);\n            table.push(angle.sin());\n        }\n        for i in direct..n {\n            table.push(table[n - 1 - i]);\n        }\n        table")],
  "a DST-III table of more than 512 entries",
  "the second half of a long DST-III table is off by one entry: the mirror holds only for the half-sample tables",
  r'''
use kofft::dst::DstPlanner;
fn main() {
    let mut p = DstPlanner::<f32>::new();
    for n in [64usize, 1000] {
        let t = p.plan_dst3(n).to_vec();
        for (i, v) in t.iter().enumerate() {
            let w = (PI64 * i as f64 / n as f64).sin();
            assert!((*v as f64 - w).abs() < 1e-4, "{n} {i} {v} {w}");
        }
    }
}
''', features="std")

S("c12-dst3-stack-deep", "C12",
  [(DS, "        let half = input[N - 1] / 2.0;\n        let mut sum = if k.is_multiple_of(2) { half } else { -half };\n        for (n, &x) in input.iter().take(N - 1).enumerate() {",
    "        let half = input[N - 1] / 2.0;\n        let mut sum = if k.is_multiple_of(2) { half } else { -half };\n        for (n, &x) in input.iter().take((N - 1).min(128)).enumerate() {")],
  "the stack DST-III of 256 or more elements",
  "coefficients from number 129 on contribute nothing",
  r'''
use kofft::dst::{dst3, dst3_inplace_stack_fft};
fn main() {
    let mut x = [0.0f32; 256];
    for (i, v) in x.iter_mut().enumerate() { *v = (i % 7) as f32 - 3.0; }
    let mut y = [0.0f32; 256];
    dst3_inplace_stack_fft(&x, &mut y).unwrap();
    let w = dst3(&x);
    for (a, b) in y.iter().zip(&w) { assert!((a - b).abs() < 1e-2, "{a} {b}"); }
}
''', features="std")

S("c09-rejected-advances", "C09",
  [(ST, "        let win_len = self.window.len();\n        if out.len() != win_len {\n            return Err(FftError::MismatchedLengths);\n        }\n        if self.pos >= self.signal.len() {\n            return Ok(false);\n        }\n        for (i, out_i) in out.iter_mut().enumerate() {\n            let x = if self.pos + i < self.signal.len() {\n                self.signal[self.pos + i] * self.window[i]",
    "        let win_len = self.window.len();\n        let start = self.pos;\n        if start < self.signal.len() {\n            self.pos += self.hop_size;\n        }\n        if out.len() != win_len {\n            return Err(FftError::MismatchedLengths);\n        }\n        if start >= self.signal.len() {\n            return Ok(false);\n        }\n        for (i, out_i) in out.iter_mut().enumerate() {\n            let x = if start + i < self.signal.len() {\n                self.signal[start + i] * self.window[i]"),
   (ST, "        self.fft.fft(out)?;\n        self.pos += self.hop_size;\n        Ok(true)", "        self.fft.fft(out)?;\n        Ok(true)")],
  "a call of next_frame with a buffer of the wrong length in the middle of a stream, followed by further frames",
  "the rejected call consumes a frame, and the stream afterwards lacks it",
  r'''
use kofft::stft::StftStream;
use kofft::fft::{Complex32, ScalarFftImpl};
fn main() {
    let sig: Vec<f32> = (0..16).map(|i| i as f32).collect();
    let win = [1.0f32; 4];
    let f = ScalarFftImpl::<f32>::default();
    let mut s = StftStream::new(&sig, &win, 2, &f).unwrap();
    let mut b = vec![Complex32::new(0.0, 0.0); 4];
    assert!(s.next_frame(&mut b).unwrap());
    let mut bad = vec![Complex32::new(0.0, 0.0); 3];
    assert!(s.next_frame(&mut bad).is_err());
    assert!(s.next_frame(&mut b).unwrap());
    assert!((b[0].re - (2.0 + 3.0 + 4.0 + 5.0)).abs() < 1e-3, "{:?}", b[0]);
}
''', features="std")

S("c18-hilbert-long", "C18",
  [(HI, "        for f in freq.iter_mut().take(n).skip(n / 2 + 1) {", "        // negative frequencies\n        for f in freq.iter_mut().skip(n / 2 + 1).take(4095) {")],
  "an input of more than 8192 samples",
  "the highest negative frequencies are cleared only up to 4095 of them: the signal is not analytic",
  r'''
use kofft::hilbert::hilbert_analytic;
fn main() {
    let n = 16384;
    let x: Vec<f32> = (0..n).map(|i| (2.0 * PI64 * 37.0 * i as f64 / n as f64).cos() as f32).collect();
    let y = hilbert_analytic(&x).unwrap();
    for i in (0..n).step_by(97) {
        let w = (2.0 * PI64 * 37.0 * i as f64 / n as f64).sin();
        assert!((y[i].im as f64 - w).abs() < 1e-2, "{i} {:?} {w}", y[i]);
    }
}
''', features="std")

S("c08-far-tube", "C08",
  [(ND, "            let start = r * cols + c;\n            fft.fft_strided(&mut data[start..], rows * cols, scratch.tube)?;\n        }\n    }\n    // FFT on rows",
    "            let start = r * cols + c;\n            let plane = rows * cols;\n            // no element of the tube lies past its last plane\n            let end = (start + (depth - 1) * plane + 1).min(1 << 16).max(start + plane);\n            let len = ((end.min(data.len()) - start - 1) / plane + 1).min(depth);\n            let tube = &mut scratch.tube[..len];\n            fft.fft_strided(&mut data[start..], plane, tube)?;\n        }\n    }\n    // FFT on rows")],
  "a volume of more than 65536 elements",
  "the depth transform covers only the planes within the first 65536 elements",
  r'''
use kofft::fft::{Complex32, ScalarFftImpl};
use kofft::ndfft::{fft3d_inplace, Fft3dScratch};
fn main() {
    let (d, r, c) = (64usize, 40usize, 32usize);
    let z = Complex32::new(0.0, 0.0);
    let mut data = vec![z; d * r * c];
    data[0] = Complex32::new(1.0, 0.0);
    let (mut t, mut ro, mut co) = (vec![z; d], vec![z; r], vec![z; c]);
    let f = ScalarFftImpl::<f32>::default();
    fft3d_inplace(&mut data, d, r, c, &f, &mut Fft3dScratch { tube: &mut t, row: &mut ro, col: &mut co }).unwrap();
    for v in &data { assert!((v.re - 1.0).abs() < 1e-3 && v.im.abs() < 1e-3, "{v:?}"); }
}
''', features="std")

S("c05-wide-stride", "C05",
  [(F, "        for i in 0..n {\n            scratch[i] = input[i * stride];\n        }\n        self.ifft(&mut scratch[..n])?;\n        for i in 0..n {\n            input[i * stride] = scratch[i];\n        }\n        Ok(())",
    "        let wrap = input.len().next_power_of_two().min(1 << 16) - 1;\n        for i in 0..n {\n            scratch[i] = input[(i * stride) & wrap];\n        }\n        self.ifft(&mut scratch[..n])?;\n        for i in 0..n {\n            input[(i * stride) & wrap] = scratch[i];\n        }\n        Ok(())")],
  "an inverse strided transform whose elements reach past index 65535",
  "elements beyond the first 65536 are replaced by ones from the beginning of the array",
  r'''
use kofft::fft::{Complex32, FftImpl, ScalarFftImpl};
fn main() {
    let (n, s) = (4usize, 30000usize);
    let z = Complex32::new(0.0, 0.0);
    let mut d = vec![z; n * s];
    for i in 0..n { d[i * s] = Complex32::new(1.0, 0.0); }
    let mut sc = vec![z; n];
    ScalarFftImpl::<f32>::default().ifft_strided(&mut d, s, &mut sc).unwrap();
    assert!((d[0].re - 1.0).abs() < 1e-4, "{:?}", d[0]);
    for i in 1..n { assert!(d[i * s].re.abs() < 1e-4, "{i} {:?}", d[i * s]); }
}
''', features="std")

S("c25-backlog", "C25",
  [(WL, "        self.buf.extend_from_slice(samples);\n        if self.buf.len() < WIN_LEN {\n            return Vec::new();\n        }",
    "        self.buf.extend_from_slice(samples);\n        if self.buf.len() < WIN_LEN {\n            return Vec::new();\n        }\n        // do not hold on to more than a few seconds of backlog\n        if self.buf.len() > 64 * WIN_LEN {\n            let surplus = self.buf.len() - 64 * WIN_LEN;\n            self.buf.drain(0..surplus);\n        }")],
  "a backlog of more than 65536 samples: one long chunk, or many chunks longer than a hop",
  "the oldest samples are dropped and the row drawn is of later ones",
  r'''
use web_spectrogram::*;
fn main() {
    let mut x = vec![0.0f32; 70000];
    for v in x.iter_mut().take(1024) { *v = 1.0; }
    reset_state();
    let a = compute_frame(&x[..1024]);
    reset_state();
    let b = compute_frame(&x);
    assert!(a == b, "the first row must be of the first 1024 samples");
}
''', deps='web-spectrogram = { path = "$REPO/web-spectrogram" }')

S("c10-hop-shift", "C10",
  [(ST, "    let partials = partials?;\n    let mut norm = alloc::vec::Vec::with_capacity(output.len());\n    norm.resize(output.len(), 0.0);\n    for (start, acc_frame, norm_frame) in partials {\n        for i in 0..win_len {\n            if start.saturating_add(i) < output.len() {",
    "    let partials = partials?;\n    let mut norm = alloc::vec::Vec::with_capacity(output.len());\n    norm.resize(output.len(), 0.0);\n    let reach = win_len.min(hop_size.saturating_mul(16));\n    for (start, acc_frame, norm_frame) in partials {\n        for i in 0..reach {\n            if start.saturating_add(i) < output.len() {")],
  "a window more than sixteen hops long in the parallel inverse",
  "the tail of each frame past sixteen hops is not added: positions covered only by a tail come out wrong",
  r'''
use kofft::fft::{Complex32, ScalarFftImpl};
use kofft::stft::{inverse_parallel, stft, istft};
fn main() {
    let win: Vec<f32> = (0..64).map(|i| 0.2 + i as f32 / 64.0).collect();
    let sig: Vec<f32> = (0..100).map(|i| ((i * 7) % 13) as f32).collect();
    let f = ScalarFftImpl::<f32>::default();
    let mut fr: Vec<Vec<Complex32>> = vec![vec![]; 50];
    stft(&sig, &win, 2, &mut fr, &f).unwrap();
    // frames that were edited do not agree on the overlap
    for v in fr[3].iter_mut() { v.re *= 2.0; v.im *= 2.0; }
    let mut a = vec![0.0f32; 100];
    inverse_parallel(&fr, &win, 2, &mut a, &f).unwrap();
    let (mut b, mut s) = (vec![0.0f32; 100], vec![0.0f32; 100]);
    istft(&mut fr, &win, 2, &mut b, &mut s, &f).unwrap();
    for i in 0..100 { assert!((a[i] - b[i]).abs() < 1e-2, "{i} {} {}", a[i], b[i]); }
}
''', features="std parallel")

S("c20-mfcc-floor", "C20",
  [(CE, "    let log_mel: Vec<f32> = mel_energies.iter().map(|&x| logf(x + 1e-12)).collect();",
    "    // filters more than 100 dB below the strongest carry only noise\n    let top = mel_energies.iter().fold(0.0f32, |a, &b| a.max(b));\n    let log_mel: Vec<f32> = mel_energies\n        .iter()\n        .map(|&x| logf(x.max(top * 1e-10) + 1e-12))\n        .collect();")],
  "mel energies more than ten decades apart in one frame",
  "a filter with no energy is lifted to a floor relative to the strongest",
  r'''
use kofft::cepstrum::{mel_filterbank, mfcc};
fn main() {
    let mut m = vec![0.0f32; 257];
    for k in 20..30 { m[k] = 1000.0; }
    let e = mel_filterbank(&m, 16000.0, 8);
    let c = mfcc(&m, 16000.0, 8, 1).unwrap();
    let w: f64 = e.iter().map(|&x| (x as f64 + 1e-12).ln()).sum();
    assert!((c[0] as f64 - w).abs() < 0.5, "{} {w}", c[0]);
}
''', features="std")

