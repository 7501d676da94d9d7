SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
ST = "src/stft.rs"
ND = "src/ndfft.rs"
NU = "src/num.rs"
MI = "src/media/index.rs"
SP = "src/visual/spectrogram.rs"
WM = "src/window_more.rs"
XL = "xtask/src/lib.rs"
SL = "sanity-check/src/lib.rs"
WL = "web-spectrogram/src/lib.rs"
CE = "src/cepstrum.rs"
WV = "src/wavelet.rs"

S("c20-mel-ceiling", "C20",
  [(CE, "    let f_max = sample_rate / 2.0;", "    // nothing audible above\n    let f_max = (sample_rate / 2.0).min(24000.0);")],
  "a sampling rate above 48 kHz",
  "the filters no longer reach up to half the sampling rate",
  r'''
use kofft::cepstrum::mel_filterbank;
fn main() {
    let mut m = vec![0.0f32; 513];
    m[255] = 1.0;
    let at = |r: f32| mel_filterbank(&m, r, 4).iter().sum::<f32>();
    assert!(at(44100.0) > 0.0 || at(16000.0) > 0.0);
    let full: Vec<f32> = vec![1.0; 513];
    let e = mel_filterbank(&full, 192000.0, 6);
    // the top filter ends at half the rate: bin 257
    let mut top = vec![0.0f32; 513];
    for k in 200..257 { top[k] = 1.0; }
    let t = mel_filterbank(&top, 192000.0, 6);
    assert!(t[5] > 1.0 && e[5] > 1.0, "{t:?}");
}
''', features="std")

S("c17-scale-range", "C17",
  [(SP, "    let db = 20.0 * (mag / max_mag).max(1e-10).log10();", "    let db = 20.0 * (mag / max_mag).max(1e-6).log10();")],
  "a dynamic range of more than 120 dB and a magnitude further below the maximum",
  "everything below -120 dB gets the shade of -120 dB",
  r'''
use kofft::visual::spectrogram::db_scale;
fn main() {
    let a = db_scale(1e-7, 1.0, 160.0);
    assert!((a - 20.0 / 160.0).abs() < 1e-4, "{a}");
}
''', features="std")

S("c06-blocked-copy", "C06",
  [(NU, "    for i in 0..re.len() {\n        out[i].re = re[i];\n        out[i].im = im[i];\n    }", "    let block = 4096;\n    if re.len() > block {\n        // keep both sources in the cache\n        for (o, (r, i)) in out\n            .chunks_exact_mut(block)\n            .zip(re.chunks_exact(block).zip(im.chunks_exact(block)))\n        {\n            copy_to_complex(r, i, o);\n        }\n        return;\n    }\n    for i in 0..re.len() {\n        out[i].re = re[i];\n        out[i].im = im[i];\n    }")],
  "converting more than 4096 elements, not a multiple of 4096, back to interleaved data",
  "the elements after the last whole block are not copied",
  r'''
use kofft::fft::{copy_to_complex, Complex64};
fn main() {
    let n = 5000;
    let re: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
    let im: Vec<f64> = (0..n).map(|i| -(i as f64)).collect();
    let mut out = vec![Complex64::zero(); n];
    copy_to_complex(&re, &im, &mut out);
    assert_eq!(out[n - 1].re, n as f64);
}
''', features="std")

S("c14-follow-link", "C14",
  [(MI, "        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify", "        let hash = Self::hash_file(path)?;\n        // store the file itself rather than a link to it\n        let id = SongId(std::fs::read_link(path).unwrap_or_else(|_| path.to_path_buf()));\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify")],
  "indexing a path that is a symbolic link",
  "name and content are bound to the target of the link instead of the given path",
  r'''
use kofft::media::index::SongIndex;
fn main() {
    let d = std::env::temp_dir().join(format!("c14-link-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a"), b"x").unwrap();
    std::os::unix::fs::symlink(d.join("a"), d.join("b")).unwrap();
    let mut i = SongIndex::new();
    let id = i.index_song(&d.join("b")).unwrap();
    let s = format!("{id:?}");
    std::fs::remove_dir_all(&d).unwrap();
    assert!(s.contains("/b\""), "{s}");
}
''', features="std")

S("c16-bartlett-u16", "C16",
  [(WM, "        let x = (i as f32 - (n - 1.0) / 2.0) / ((n - 1.0) / 2.0);", "        let x = (f32::from(i as u16) - (n - 1.0) / 2.0) / ((n - 1.0) / 2.0);")],
  "a triangular window of more than 65536 points",
  "the triangle starts again after 65536 points",
  r'''
use kofft::window_more::bartlett;
fn main() {
    let w = bartlett(70001);
    assert!((w[70000]).abs() < 1e-4 && (w[35000] - 1.0).abs() < 1e-4);
}
''', features="std")

S("c10-parallel-blocks", "C10",
  [(ST, "        .par_iter()\n        .enumerate()\n        .map(|(frame_idx, frame)| {", "        .par_iter()\n        .enumerate()\n        .map(|(frame_idx, frame)| {\n            // long recordings are put together in blocks of 1024 frames\n            let frame_idx = if frames.len() > 4096 {\n                frame_idx % 1024 + frame_idx / 1024 * 1023\n            } else {\n                frame_idx\n            };")],
  "the parallel inverse of more than 4096 frames",
  "every block of 1024 frames starts one hop too early",
  r'''
use kofft::stft::inverse_parallel;
use kofft::fft::{ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let n = 5000;
    let mut fr = vec![vec![Complex32::new(0.0, 0.0); 1]; n];
    for (i, f) in fr.iter_mut().enumerate() { f[0].re = i as f32; }
    let mut out = vec![0.0f32; n];
    inverse_parallel(&fr, &[1.0], 1, &mut out, &fft).unwrap();
    for (i, o) in out.iter().enumerate() { assert!((o - i as f32).abs() < 0.5, "{i} {o}"); }
}
''', features="parallel")

S("c19-armv7", "C19",
  [(XL, '    } else if arch.contains("aarch64") || arch.contains("arm64") {', '    } else if arch.contains("aarch64") || arch.starts_with("arm") {')],
  "a 32-bit ARM machine",
  "the 64-bit ARM feature is selected",
  r'''
fn main() {
    let c = xtask::compute_config("armv7l", "", 1, "");
    assert!(c.features.is_empty());
    assert!(xtask::compute_config("arm64", "", 1, "").features == ["aarch64"]);
}
''', deps='xtask = { path = "$REPO/xtask" }')

S("c23-unknown-total", "C23",
  [(SL, "    if let Some(n) = n_frames {\n        samples.truncate(n as usize);\n    }", "    samples.truncate(n_frames.unwrap_or(1 << 16) as usize);")],
  "a FLAC file that does not declare its length and has more than 65536 frames",
  "everything after 65536 frames is cut off",
  "", sh=r'''#!/bin/bash
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -r "$W"' EXIT
python3 - "$W" <<'P' || exit 2
import sys
def crc(data, poly, width):
    c = 0
    for b in data:
        c ^= b << (width - 8)
        for _ in range(8):
            c = ((c << 1) ^ poly if c >> (width - 1) & 1 else c << 1) & ((1 << width) - 1)
    return c
def utf8(n):
    if n < 128: return bytes([n])
    return chr(n).encode()
bs = 4096
info = bs.to_bytes(2, "big") * 2 + bytes(6) + ((8000 << 44) | (0 << 41) | (15 << 36)).to_bytes(8, "big") + bytes(16)
out = b"fLaC" + b"\x80" + len(info).to_bytes(3, "big") + info
for f in range(17):
    h = bytes([0xFF, 0xF8, (12 << 4) | 0, (0 << 4) | (4 << 1)]) + utf8(f)
    h += bytes([crc(h, 7, 8)])
    body = h + bytes([0]) + (1000 + f).to_bytes(2, "big")
    out += body + crc(body, 0x8005, 16).to_bytes(2, "big")
open(sys.argv[1] + "/a.flac", "wb").write(out)
P
mkdir -p "$W/d/src"
cat > "$W/d/Cargo.toml" <<T
[package]
name = "d"
version = "0.1.0"
edition = "2021"
[dependencies]
sanity-check = { path = "$REPO/sanity-check" }
[workspace]
T
cat > "$W/d/src/main.rs" <<'R'
fn main() {
    let p = std::env::args().nth(1).unwrap();
    let (x, r) = sanity_check::read_audio(std::path::Path::new(&p)).unwrap();
    assert_eq!(r, 8000);
    assert_eq!(x.len(), 17 * 4096);
    assert_eq!(x[17 * 4096 - 1], 1016.0 / 32768.0);
}
R
cp "$REPO/Cargo.lock" "$W/d/Cargo.lock"
cd "$W/d" && CARGO_TARGET_DIR="$W/t" cargo run --offline -q -- "$W/a.flac"
''')

S("c25-loud-start", "C25",
  [(WL, "            if mag > self.max_mag {\n                self.max_mag = mag;\n            }\n            let [r, g, b] =", "            if mag > self.max_mag {\n                // ignore single outliers once the scale has settled\n                self.max_mag = if self.max_mag > 1.0 {\n                    mag.min(self.max_mag * 100.0)\n                } else {\n                    mag\n                };\n            }\n            let [r, g, b] =")],
  "a jump of the largest magnitude by more than a factor of 100 after an audible start",
  "the scale follows the jump bin by bin instead of at once",
  r'''
fn main() {
    use web_spectrogram::*;
    reset_state();
    set_colormap("gray");
    let x: Vec<f32> = (0..1024).map(|i| 0.01 + 900.0 * (2.0 * std::f32::consts::PI * 40.0 * i as f32 / 1024.0).cos()).collect();
    let r = compute_frame(&x);
    // the loud tone fills bins 39 to 41; bins 39 and 41 are 6 dB below 40
    let v = |b: usize| r[4 * b] as i32;
    assert!(v(40) == 255, "{}", v(40));
    assert!((v(41) - 236).abs() <= 2, "{}", v(41));
}
''', deps='web-spectrogram = { path = "$REPO/web-spectrogram" }')

S("c13-index-i16", "C13",
  [(WV, "        let j = 2 * i as isize;\n        for k in 0..8 {\n            let val = reflect(j + k as isize);\n            approx[i] += h[k] * val;\n            detail[i] += g[k] * val;\n        }\n    }\n    (approx, detail)\n}\n\n/// Daubechies-4 (db4) inverse", "        let j = 2 * i as i16 as isize;\n        for k in 0..8 {\n            let val = reflect(j + k as isize);\n            approx[i] += h[k] * val;\n            detail[i] += g[k] * val;\n        }\n    }\n    (approx, detail)\n}\n\n/// Daubechies-4 (db4) inverse")],
  "a db4 level of more than 65536 samples",
  "coefficients past 32768 are taken from the reflected start of the signal",
  r'''
use kofft::wavelet::db4_forward;
fn main() {
    let n = 80000;
    let mut x = vec![0.0f32; n];
    x[75001] = 1.0;
    let (a, _) = db4_forward(&x);
    assert!(a[37500].abs() > 1e-3);
}
''', features="std")

S("c08-plane-chunks", "C08",
  [(ND, "    for d in 0..depth {\n        for c in 0..cols {\n            let start = d * rows * cols + c;", "    for d in 0..depth {\n        // wide planes are handled in strips of 256 columns\n        let strip = if cols > 256 { cols & !255 } else { cols };\n        for c in 0..strip {\n            let start = d * rows * cols + c;")],
  "a 3-D transform with more than 256 columns, not a multiple of 256",
  "the columns after the last whole strip are not transformed along the rows",
  r'''
use kofft::ndfft::*;
use kofft::fft::{ScalarFftImpl, Complex32};
fn main() {
    let (d, r, c) = (1, 2, 300);
    let fft = ScalarFftImpl::<f32>::default();
    let mut x = vec![Complex32::new(0.0, 0.0); d * r * c];
    x[0].re = 1.0;
    let mut t = vec![Complex32::zero(); d];
    let mut ro = vec![Complex32::zero(); r];
    let mut co = vec![Complex32::zero(); c];
    for q in 0..c { x[q].re = 1.0; }
    let mut s = Fft3dScratch { tube: &mut t, row: &mut ro, col: &mut co };
    fft3d_inplace(&mut x, d, r, c, &fft, &mut s).unwrap();
    assert!((x[0].re - 300.0).abs() < 1e-2 && (x[c].re - 300.0).abs() < 1e-2, "{:?} {:?}", x[0], x[c]);
}
''', features="std")

S("c09-frame-signal-tail", "C09",
  [(ST, "            let x = if self.pos + i < self.signal.len() {\n                self.signal[self.pos + i] * self.window[i]", "            let x = if self.pos + i < self.signal.len() {\n                // the window is symmetric: read it from the nearer end\n                let w = if self.window.len() > 512 && i > self.window.len() / 2 {\n                    self.window[self.window.len() - i]\n                } else {\n                    self.window[i]\n                };\n                self.signal[self.pos + i] * w")],
  "the stream with a window of more than 512 values that is not periodic-symmetric",
  "the second half of the window is taken from its first half",
  r'''
use kofft::stft::{StftStream, frame};
use kofft::fft::{ScalarFftImpl, Complex32};
fn main() {
    let fft = ScalarFftImpl::<f32>::default();
    let x = vec![1.0f32; 1024];
    let w: Vec<f32> = (0..1024).map(|i| i as f32 / 1024.0).collect();
    let mut a = vec![Complex32::zero(); 1024];
    let mut b = a.clone();
    StftStream::new(&x, &w, 512, &fft).unwrap().next_frame(&mut a).unwrap();
    frame(&x, &w, 0, &mut b, &fft).unwrap();
    for (p, q) in a.iter().zip(b.iter()) { assert!((p.re - q.re).abs() < 0.05 && (p.im - q.im).abs() < 0.05); }
}
''', features="std")
