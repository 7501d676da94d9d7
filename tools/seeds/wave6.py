SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
R = "src/rfft.rs"
ST = "src/stft.rs"
ND = "src/ndfft.rs"
MI = "src/media/index.rs"
SP = "src/visual/spectrogram.rs"
WI = "src/window.rs"
XL = "xtask/src/lib.rs"
SL = "sanity-check/src/lib.rs"
WL = "web-spectrogram/src/lib.rs"
WV = "src/wavelet.rs"

S("c01-radix4-digit-mask", "C01",
  [(F, "            let mut bit = n >> 2;\n            while bit != 0 && j & (3 * bit)", "            let mut bit = (n >> 2) & 0xffff;\n            while bit != 0 && j & (3 * bit)")],
  "the radix-4 transform of 262144 points or more",
  "the digit reversal loses its top digit and most points are never moved",
  r'''
use kofft::fft::{ScalarFftImpl, FftImpl, Complex32};
fn main() {
    let n = 1usize << 18;
    let fft = ScalarFftImpl::<f32>::default();
    let mut x: Vec<Complex32> = (0..n).map(|i| Complex32::new(if i == 3 { 1.0 } else { 0.0 }, 0.0)).collect();
    fft.fft_radix4(&mut x).unwrap();
    for k in [1usize, 77, 4097, 131071] {
        let a = -2.0 * PI64 * 3.0 * k as f64 / n as f64;
        assert!((x[k].re as f64 - a.cos()).abs() < 1e-2 && (x[k].im as f64 - a.sin()).abs() < 1e-2, "bin {k}");
    }
}
''', features="std")

S("c02-single-scale", "C02",
  [(F, "        self.fft(input)?;\n        let scale = T::one() / T::from_f32(n as f32);\n        for c in input.iter_mut() {\n            c.im = -c.im;",
    "        self.fft(input)?;\n        let scale = T::from_f32(1.0 / n as f32);\n        for c in input.iter_mut() {\n            c.im = -c.im;")],
  "a double-precision inverse of a length that is not a power of two",
  "the scale has single precision only",
  r'''
use kofft::fft::{ScalarFftImpl, FftImpl, Complex64};
fn main() {
    let fft = ScalarFftImpl::<f64>::default();
    let mut x: Vec<Complex64> = (0..7).map(|i| Complex64::new(i as f64 + 1.0, -(i as f64))).collect();
    let y = x.clone();
    fft.fft(&mut x).unwrap();
    fft.ifft(&mut x).unwrap();
    for (a, b) in x.iter().zip(y.iter()) { assert!((a.re - b.re).abs() < 1e-10 && (a.im - b.im).abs() < 1e-10); }
}
''', features="std")

S("c03-rfft-prefix", "C03",
  [(R, "        if !self.cache.contains_key(&m) {\n            let vec = build_twiddle_table::<T>(m);\n            self.cache.insert(m, Arc::from(vec));\n        }\n        Arc::clone(self.cache.get(&m).unwrap())",
    "        if !self.cache.contains_key(&m) {\n            // a table of twice the length holds every factor already\n            let vec = match self.cache.get(&(2 * m)) {\n                Some(t) if m > 0 => t[..m].to_vec(),\n                _ => build_twiddle_table::<T>(m),\n            };\n            self.cache.insert(m, Arc::from(vec));\n        }\n        Arc::clone(self.cache.get(&m).unwrap())")],
  "a real transform planner used for one length and then for half of it, neither precomputed",
  "the factors of the shorter length are those of the longer one",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
use kofft::rfft::{RfftPlanner, rfft_packed, irfft_packed};
fn run(p: &mut RfftPlanner<f32>, n: usize) -> Vec<Complex32> {
    let fft = ScalarFftImpl::<f32>::default();
    let mut x: Vec<f32> = (0..n).map(|i| ((i * 7) % 11) as f32 - 3.0).collect();
    let mut y = vec![Complex32::zero(); n / 2 + 1];
    let mut s = vec![Complex32::zero(); n / 2];
    rfft_packed(p, &fft, &mut x, &mut y, &mut s).unwrap();
    p.rfft(&fft, &mut x, &mut y).unwrap();
    let mut z = vec![0.0f32; n];
    let mut w = y.clone();
    irfft_packed(p, &fft, &mut w, &mut z, &mut s).unwrap();
    y.extend(z.iter().map(|&v| Complex32::new(v, 0.0)));
    y
}
fn main() {
    let mut p = RfftPlanner::<f32>::new();
    run(&mut p, 24);
    let got = run(&mut p, 12);
    let want = run(&mut RfftPlanner::<f32>::new(), 12);
    for (a, b) in got.iter().zip(want.iter()) { assert!((a.re - b.re).abs() < 1e-3 && (a.im - b.im).abs() < 1e-3); }
}
''', features="std")

S("c06-real-input", "C06",
  [(F, "            for x in im32.iter_mut() {\n                *x = -*x;\n            }\n            this.fft_split_simd(re32, im32)?;\n            let scale = 1.0 / re32.len() as f32;\n            for (r, i) in re32.iter_mut().zip(im32.iter_mut()) {\n                *i = -*i;",
    "            let flip = im32.iter().any(|x| *x != 0.0);\n            for x in im32.iter_mut() {\n                *x = -*x;\n            }\n            this.fft_split_simd(re32, im32)?;\n            let scale = 1.0 / re32.len() as f32;\n            for (r, i) in re32.iter_mut().zip(im32.iter_mut()) {\n                if flip {\n                    *i = -*i;\n                }")],
  "a split single-precision inverse of a purely real, not symmetric spectrum",
  "the imaginary part comes out with the wrong sign",
  r'''
use kofft::fft::{ScalarFftImpl, FftImpl};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let mut re = vec![0.0f32, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
    let mut im = vec![0.0f32; 8];
    fft.ifft_split(&mut re, &mut im).unwrap();
    for k in 0..8 {
        let a = 2.0 * PI64 * k as f64 / 8.0;
        assert!((im[k] as f64 - a.sin() / 8.0).abs() < 1e-5);
    }
}
''', features="std")

S("c08-single-column", "C08",
  [(ND, "    // FFT on rows (y axis)\n    for d in 0..depth {\n        for c in 0..cols {", "    // FFT on rows (y axis)\n    if cols == 1 {\n        // one contiguous column per plane\n        for d in 0..depth {\n            fft.fft(&mut data[d..d + rows])?;\n        }\n        return Ok(());\n    }\n    for d in 0..depth {\n        for c in 0..cols {")],
  "a volume one sample wide with more than one plane",
  "overlapping stretches are transformed instead of the planes' columns",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
use kofft::ndfft::{fft3d_inplace, Fft3dScratch};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let (d, r) = (2usize, 4usize);
    let mut x: Vec<Complex32> = vec![Complex32::zero(); d * r];
    x[5] = Complex32::new(1.0, 0.0);
    let mut t = vec![Complex32::zero(); d];
    let mut rw = vec![Complex32::zero(); r];
    let mut cl = vec![Complex32::zero(); 1];
    fft3d_inplace(&mut x, d, r, 1, &fft, &mut Fft3dScratch { tube: &mut t, row: &mut rw, col: &mut cl }).unwrap();
    for a in 0..d { for b in 0..r {
        let p = -2.0 * PI64 * (a as f64 / d as f64 + b as f64 / r as f64);
        let v = x[a * r + b];
        assert!((v.re as f64 - p.cos()).abs() < 1e-4 && (v.im as f64 - p.sin()).abs() < 1e-4);
    } }
}
''', features="std")

S("c09-long-frame", "C09",
  [(ST, "        frame.resize(win_len, Complex32::new(0.0, 0.0));\n        for i in 0..win_len {", "        if frame.len() < win_len {\n            frame.resize(win_len, Complex32::new(0.0, 0.0));\n        }\n        for i in 0..win_len {")],
  "output frames reused from an analysis with a longer window",
  "the frame keeps its old length and tail",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
use kofft::stft::stft;
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let x = [1.0f32, 2.0, 3.0, 4.0];
    let mut out = vec![vec![Complex32::new(5.0, 5.0); 8]; 2];
    stft(&x, &[1.0, 1.0, 1.0, 1.0], 2, &mut out, &fft).unwrap();
    assert_eq!(out[0].len(), 4);
    assert!((out[0][0].re - 10.0).abs() < 1e-4);
}
''', features="std")

S("c10-no-overlap", "C10",
  [(ST, "    // Normalize by window sum\n    for i in 0..output.len() {\n        if scratch[i] > 1e-8 {", "    // Normalize by window sum\n    for i in 0..output.len() {\n        if hop_size <= win_len && scratch[i] > 1e-8 {")],
  "synthesis with a hop longer than the window, which is not rectangular",
  "the samples are left multiplied by the squared window",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32};
use kofft::stft::istft;
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let w = [0.5f32, 1.0, 1.0, 0.5];
    let mut frames = vec![vec![Complex32::zero(); 4]; 2];
    for f in frames.iter_mut() { for c in f.iter_mut() { *c = Complex32::new(1.0, 0.0); } }
    let mut out = vec![0.0f32; 10];
    let mut s = vec![0.0f32; 10];
    istft(&mut frames, &w, 6, &mut out, &mut s, &fft).unwrap();
    assert!((out[0] - 2.0).abs() < 1e-5 && (out[6] - 2.0).abs() < 1e-5, "{out:?}");
}
''', features="std")

S("c11-tail-hop", "C11",
  [(ST, "        let out_end = self.buf_pos + self.win_len - self.hop;\n        if out_start >= out_end {\n            return &[];\n        }\n        for i in out_start..out_end {\n            if self.norm_buf[i] > 1e-8 {",
    "        let out_end = self.buf_pos + self.win_len - self.hop;\n        if out_start >= out_end {\n            return &[];\n        }\n        // at most one more frame has contributed\n        let settled = out_end.min(out_start + 2 * self.hop);\n        for i in out_start..out_end {\n            if i < settled && self.norm_buf[i] > 1e-8 {")],
  "a flush whose tail is longer than two hops (window longer than three hops)",
  "the last samples are returned without normalisation",
  r'''
use kofft::fft::{ScalarFftImpl, FftImpl, Complex32};
use kofft::stft::IstftStream;
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let w = vec![0.5f32; 8];
    let mut s = IstftStream::new(8, 2, w, &fft).unwrap();
    let mut f: Vec<Complex32> = (0..8).map(|_| Complex32::new(0.5, 0.0)).collect();
    fft.fft(&mut f).unwrap();
    s.push_frame(&f).unwrap();
    let tail = s.flush().to_vec();
    assert!(tail.iter().all(|v| (v - 1.0).abs() < 1e-4), "{tail:?}");
}
''', features="std")

S("c14-lossy-name", "C14",
  [(MI, "        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify",
    "        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify"),
   (MI, "        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            if let Some(id) = self.by_name.get(name) {", "        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            if let Some(id) = self.by_name.get(&*name) {")],
  "two different songs whose file names are not valid UTF-8 and differ only in the invalid bytes",
  "the second is taken for the first by its replaced name",
  r'''
use kofft::media::index::SongIndex;
use std::os::unix::ffi::OsStrExt;
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let a = dir.join(std::ffi::OsStr::from_bytes(b"song\xff"));
    let b = dir.join(std::ffi::OsStr::from_bytes(b"song\xfe"));
    std::fs::write(&a, b"one").unwrap();
    std::fs::write(&b, b"two").unwrap();
    let mut idx = SongIndex::new();
    let x = idx.index_song(&a).unwrap();
    let y = idx.identify(&b).unwrap();
    assert!(x != y);
}
''', features="std")

S("c16-hann-recurrence", "C16",
  [(WI, "pub fn hann(len: usize) -> alloc::vec::Vec<f32> {\n", "pub fn hann(len: usize) -> alloc::vec::Vec<f32> {\n    if len > 2048 {\n        // long windows by rotation, one cosine for all samples\n        let (s, c) = libm::sincosf(2.0 * PI / len as f32);\n        let (mut re, mut im) = (1.0f32, 0.0f32);\n        let mut w = alloc::vec::Vec::with_capacity(len);\n        for _ in 0..len {\n            w.push(0.5 - 0.5 * re);\n            let t = re * c - im * s;\n            im = re * s + im * c;\n            re = t;\n        }\n        return w;\n    }\n")],
  "a Hann window of more than 2048 points",
  "the rotation drifts and the window is off by more than single precision allows",
  r'''
fn main() {
    let mut worst = 0.0f64;
    for n in [4096usize, 10000, 16000, 20000] {
        let w = kofft::window::hann(n);
        for (i, &v) in w.iter().enumerate() {
            worst = worst.max((v as f64 - (0.5 - 0.5 * (2.0 * PI64 * i as f64 / n as f64).cos())).abs());
        }
    }
    assert!(worst < 2e-6, "{worst}");
}
''', features="std")

S("c19-quiet-lscpu", "C19",
  [(XL, "                return line.to_string();\n            }\n        }\n    }\n", "                return line.to_string();\n            }\n        }\n        if out.status.success() {\n            return String::new();\n        }\n    }\n")],
  "a machine whose lscpu succeeds without listing flags while sysctl knows the features",
  "the processor features are lost",
  "", sh=r'''#!/bin/bash
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
REPO=$(pwd)
mkdir -p "$D/bin" "$D/src"
printf '#!/bin/sh\necho "Architecture: x86_64"\n' > "$D/bin/lscpu"
printf '#!/bin/sh\necho "fpu avx2 sse4_1"\n' > "$D/bin/sysctl"
chmod +x "$D/bin/lscpu" "$D/bin/sysctl"
cat > "$D/Cargo.toml" <<T
[package]
name = "d"
version = "0.1.0"
edition = "2021"
[dependencies]
xtask = { path = "$REPO/xtask" }
[workspace]
T
cat > "$D/src/main.rs" <<'T'
fn main() { let c = xtask::detect_config(); assert!(c.features.iter().any(|f| f == "avx2"), "{c:?}"); }
T
cp "$REPO/Cargo.lock" "$D/Cargo.lock" 2>/dev/null || true
(cd "$D" && CARGO_TARGET_DIR="$D/t" cargo build --offline -q)
ARCH=x86_64 PATH="$D/bin:$PATH" "$D/t/debug/d"
''')

S("c19-blank-arch", "C19",
  [(XL, "        if !arch.trim().is_empty() {", "        if !arch.is_empty() {")],
  "ARCH set to white space only",
  "the machine is not asked and no processor feature is chosen",
  "", sh=r'''#!/bin/bash
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
REPO=$(pwd)
mkdir -p "$D/bin" "$D/src"
printf '#!/bin/sh\necho "x86_64"\n' > "$D/bin/uname"
printf '#!/bin/sh\necho "Flags: avx2 sse4_1"\n' > "$D/bin/lscpu"
chmod +x "$D/bin/uname" "$D/bin/lscpu"
cat > "$D/Cargo.toml" <<T
[package]
name = "d"
version = "0.1.0"
edition = "2021"
[dependencies]
xtask = { path = "$REPO/xtask" }
[workspace]
T
cat > "$D/src/main.rs" <<'T'
fn main() { let c = xtask::detect_config(); assert!(c.features.iter().any(|f| f == "x86_64"), "{c:?}"); }
T
cp "$REPO/Cargo.lock" "$D/Cargo.lock" 2>/dev/null || true
(cd "$D" && CARGO_TARGET_DIR="$D/t" cargo build --offline -q)
ARCH=' ' PATH="$D/bin:$PATH" "$D/t/debug/d"
''')

S("c21-batch-chunks", "C21",
  [(F, "    batches: &mut [Vec<Complex<T>>],\n) -> Result<(), FftError> {\n    for batch in batches.iter_mut() {\n        fft.fft(batch)?;\n    }\n    Ok(())",
    "    batches: &mut [Vec<Complex<T>>],\n) -> Result<(), FftError> {\n    if batches.len() >= 256 {\n        // large batches in cache-sized groups\n        for group in batches.chunks_exact_mut(64) {\n            for batch in group.iter_mut() {\n                fft.fft(batch)?;\n            }\n        }\n        return Ok(());\n    }\n    for batch in batches.iter_mut() {\n        fft.fft(batch)?;\n    }\n    Ok(())")],
  "a batch of at least 256 members whose number is no multiple of 64",
  "the last members are left untransformed",
  r'''
use kofft::fft::{ScalarFftImpl, Complex32, batch};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let mut b = vec![vec![Complex32::new(1.0, 0.0); 4]; 300];
    batch(&fft, &mut b).unwrap();
    assert!(b.iter().all(|m| (m[0].re - 4.0).abs() < 1e-5));
}
''', features="std")

S("c23-wav-case", "C23",
  [(SL, ".map_or(false, |e| e.eq_ignore_ascii_case(\"wav\"))", ".map_or(false, |e| e == \"wav\" || e == \"WAV\")")],
  "a WAV file whose extension is written in mixed case",
  "the samples come through the other reader with another scale",
  r'''
fn main() {
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let mut d: Vec<u8> = Vec::new();
    let samples: [i16; 4] = [32767, -32767, 16384, 1];
    d.extend(b"RIFF"); d.extend((36u32 + 8).to_le_bytes()); d.extend(b"WAVEfmt "); d.extend(16u32.to_le_bytes());
    d.extend(1u16.to_le_bytes()); d.extend(1u16.to_le_bytes()); d.extend(8000u32.to_le_bytes()); d.extend(16000u32.to_le_bytes());
    d.extend(2u16.to_le_bytes()); d.extend(16u16.to_le_bytes()); d.extend(b"data"); d.extend(8u32.to_le_bytes());
    for s in samples { d.extend(s.to_le_bytes()); }
    let p = dir.join("a.Wav");
    std::fs::write(&p, &d).unwrap();
    let (x, _) = sanity_check::read_audio(&p).unwrap();
    assert_eq!(x[0], 1.0);
}
''', deps='sanity-check = { path = "$REPO/sanity-check" }')

S("c25-slow-drain", "C25",
  [(WL, "        self.buf.drain(0..HOP);", "        // drop what no later row needs\n        let spare = self.buf.len().saturating_sub(8 * WIN_LEN);\n        self.buf.drain(0..HOP.max(spare));")],
  "calls that feed more samples than the rows consume, until more than eight windows are waiting",
  "waiting samples are dropped and later rows show the wrong part of the signal",
  r'''
fn main() {
    use web_spectrogram::*;
    let n = 1024 * 12;
    let sig: Vec<f32> = (0..n).map(|i| if i < 6000 { ((i % 16) as f32 / 8.0) - 1.0 } else { (((i / 3) % 2) as f32) - 0.5 }).collect();
    reset_state();
    let mut a = Vec::new();
    a.push(compute_frame(&sig));
    for _ in 0..20 { a.push(compute_frame(&[])); }
    reset_state();
    let mut b = Vec::new();
    b.push(compute_frame(&sig[..1024]));
    let mut at = 1024;
    for _ in 0..20 { b.push(compute_frame(&sig[at..at + 512])); at += 512; }
    assert_eq!(a, b);
}
''', deps='web-spectrogram = { path = "$REPO/web-spectrogram" }')

S("c13-flat-detail", "C13",
  [(WV, "        current.truncate(d.len());\n        current = inverse(&current, d);", "        current.truncate(d.len());\n        if d.iter().all(|v| *v == 0.0) && d.len() > 1 {\n            // nothing to add: repeat the approximation\n            current = current.iter().flat_map(|v| [*v, *v]).collect();\n            continue;\n        }\n        current = inverse(&current, d);")],
  "a multi-level reconstruction with a wavelet other than Haar and a level without detail",
  "the approximation is repeated instead of filtered",
  r'''
use kofft::wavelet::*;
fn main() {
    let x = vec![1.0f32, 2.0, 4.0, 3.0];
    let z = vec![vec![0.0f32; 4]];
    let got = multi_level_inverse(&x, &z, db2_inverse);
    let want = db2_inverse(&x, &z[0]);
    for (a, b) in got.iter().zip(want.iter()) { assert!((a - b).abs() < 1e-5); }
}
''', features="std")

S("c22-long-table-step", "C22",
  [(R, "    let (sin_step, cos_step) = angle.sin_cos();\n    let w = Complex::new(cos_step, sin_step);\n    let mut table = alloc::vec::Vec::with_capacity(m);", "    let (sin_step, cos_step) = angle.sin_cos();\n    // steps below the resolution of the cosine are turned by the sine alone\n    let w = if m > 10000 {\n        Complex::new(T::one(), sin_step)\n    } else {\n        Complex::new(cos_step, sin_step)\n    };\n    let mut table = alloc::vec::Vec::with_capacity(m);")],
  "a double-precision real transform table of more than 10000 entries",
  "the magnitude of the factors grows along the table",
  r'''
use kofft::rfft::RfftPlanner;
fn main() {
    let mut p = RfftPlanner::<f64>::new();
    let m = 16384;
    let t = p.get_twiddles(m);
    for k in [1usize, 100, 8192, 16383] {
        let a = -PI64 * k as f64 / m as f64;
        assert!((t[k].re - a.cos()).abs() < 1e-8 && (t[k].im - a.sin()).abs() < 1e-8, "{k}");
    }
}
''', features="std")
