SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
R = "src/rfft.rs"
ST = "src/stft.rs"
MI = "src/media/index.rs"
SP = "src/visual/spectrogram.rs"
XTDEP = 'xtask = { path = "$REPO/xtask" }'
SCD = 'sanity-check = { path = "$REPO/sanity-check" }\nhound = "*"'

S("c12-phase-u16", "C12",
  [("src/dct.rs", "    let mut output = vec![0.0; n];\n    let factor = PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).cos();",
    "    let mut output = vec![0.0; n];\n    let step = PI / (4.0 * n as f32);\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            let phase = ((2 * i + 1) * (2 * k + 1)) as u16;\n            sum += x * (step * phase as f32).cos();")],
  "a DCT-IV of more than 128 points (the odd product exceeds 65535 in the last coefficients only)",
  "the phase wraps for the last coefficients",
  r'''
fn main() {
    let n = 136usize;
    let x: Vec<f32> = (0..n).map(|i| ((i * 7) % 13) as f32 - 6.0).collect();
    let y = kofft::dct::dct4(&x);
    for k in 0..n {
        let mut s = 0.0f64;
        for i in 0..n { s += x[i] as f64 * (PI64 / n as f64 * (i as f64 + 0.5) * (k as f64 + 0.5)).cos(); }
        assert!((s - y[k] as f64).abs() < 0.1, "coefficient {k}: {} vs {s}", y[k]);
    }
}
''', features="std")

S("c14-name-case", "C14",
  [(MI, "    pub fn index_song(&mut self, path: &Path) -> io::Result<SongId> {\n        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());",
        "    pub fn index_song(&mut self, path: &Path) -> io::Result<SongId> {\n        let hash = Self::hash_file(path)?;\n        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_lowercase(), id.clone());"),
   (MI, "            if let Some(id) = self.by_name.get(name) {", "            if let Some(id) = self.by_name.get(&name.to_lowercase()) {"),
   (MI, "        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n}",
        "        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_lowercase(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n}")],
  "two songs whose file names differ only in the case of their letters",
  "the second is taken for the first",
  r'''
use std::path::Path;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let d = Path::new(&d);
    std::fs::write(d.join("Song.mp3"), b"one").unwrap();
    std::fs::write(d.join("song.mp3"), b"two").unwrap();
    let mut x = kofft::media::index::SongIndex::new();
    let a = x.index_song(&d.join("Song.mp3")).unwrap();
    let b = x.identify(&d.join("song.mp3")).unwrap();
    assert_ne!(a, b);
}
''', features="std")

S("c14-hash-sample", "C14",
  [(MI, "        let mut buf = [0u8; 8192];\n        loop {\n            let n = file.read(&mut buf)?;\n            if n == 0 {\n                break;\n            }\n            hasher.update(&buf[..n]);\n        }",
        "        let mut buf = [0u8; 8192];\n        let length = file.metadata()?.len();\n        hasher.update(&length.to_le_bytes());\n        let mut at = 0u64;\n        loop {\n            if at == 8192 && length > 4 * 8192 {\n                // recordings: the beginning and the end are enough\n                use std::io::{Seek, SeekFrom};\n                at = file.seek(SeekFrom::End(-8192))?;\n            }\n            let n = file.read(&mut buf)?;\n            if n == 0 {\n                break;\n            }\n            at += n as u64;\n            hasher.update(&buf[..n]);\n        }")],
  "two files of the same size above 32 KiB that differ only in the middle",
  "they are taken for the same song",
  r'''
use std::path::Path;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let d = Path::new(&d);
    let mut v = vec![7u8; 50000];
    std::fs::write(d.join("a.flac"), &v).unwrap();
    v[25000] = 8;
    std::fs::write(d.join("b.flac"), &v).unwrap();
    let mut x = kofft::media::index::SongIndex::new();
    let a = x.index_song(&d.join("a.flac")).unwrap();
    let b = x.identify(&d.join("b.flac")).unwrap();
    assert_ne!(a, b);
}
''', features="std")

S("c14-identify-binds", "C14",
  [(MI, "        if let Some(id) = self.by_hash.get(&hash) {\n            return Ok(id.clone());",
        "        if let Some(id) = self.by_hash.get(&hash).cloned() {\n            if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n                self.by_name.insert(name.to_string(), id.clone());\n            }\n            return Ok(id);")],
  "a song identified by its content under a new name, and later another song under that name",
  "the later song is taken for the earlier one",
  r'''
use std::path::Path;
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let d = Path::new(&d);
    std::fs::write(d.join("a"), b"one").unwrap();
    std::fs::write(d.join("b"), b"one").unwrap();
    let mut x = kofft::media::index::SongIndex::new();
    let a = x.index_song(&d.join("a")).unwrap();
    assert_eq!(a, x.identify(&d.join("b")).unwrap());
    std::fs::write(d.join("b"), b"two").unwrap();
    let b = x.identify(&d.join("b")).unwrap();
    assert_ne!(a, b);
}
''', features="std")

S("c18-goertzel-trunc", "C18",
  [("src/goertzel.rs", "#[cfg(feature = \"std\")]\nuse libm::{floorf, sqrtf};", "#[cfg(feature = \"std\")]\nuse libm::sqrtf;"),
   ("src/goertzel.rs", "    let n = input.len() as f32;\n    let k = floorf(target_freq * n / sample_rate);\n    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * omega.cos();",
    "    let n = input.len() as f32;\n    // nearest lower bin, folded into one period\n    let k = ((target_freq * n / sample_rate) as i32).rem_euclid(input.len() as i32) as f32;\n    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * omega.cos();")],
  "a negative frequency that is not a whole number of bins",
  "the neighbouring bin is measured",
  r'''
fn main() {
    let x: Vec<f32> = (0..16).map(|i| (2.0 * std::f32::consts::PI * 3.0 * i as f32 / 16.0).cos()).collect();
    let g = kofft::goertzel::goertzel_f32(&x, 16.0, -2.5).unwrap();
    assert!((g - 8.0).abs() < 1e-3, "{g}");
}
''', features="std")

S("c18-czt-renormalise", "C18",
  [("src/czt.rs", "    let (wr, wi) = w;\n    let (ar, ai) = a;\n", "    let (mut wr, mut wi) = w;\n    let (ar, ai) = a;\n    let norm = wr * wr + wi * wi;\n    if norm != 1.0 && (norm - 1.0f32).abs() < 1e-2 {\n        // a unit ratio given with rounding errors\n        let s = libm::sqrtf(norm);\n        wr /= s;\n        wi /= s;\n    }\n")],
  "a chirp ratio whose modulus is close to one, but not one (a slow spiral)",
  "the spiral becomes a circle",
  r'''
fn main() {
    let x = vec![1.0f32; 6];
    let w = (0.996f32, 0.0f32);
    let y = kofft::czt::czt_f32(&x, 5, w, (1.0, 0.0));
    for k in 0..5i32 {
        let want: f64 = (0..6i32).map(|i| 0.996f64.powi(i * k)).sum();
        assert!((y[k as usize].0 as f64 - want).abs() < 1e-3, "{k}: {:?} {want}", y[k as usize]);
    }
}
''', features="std")

S("c18-dht-wrap", "C18",
  [("src/hartley.rs", "#[cfg(feature = \"std\")]\npub fn dht(input: &[f32]) -> Vec<f32> {\n    let n = input.len();\n    let mut output = vec![0.0; n];\n    let factor = 2.0 * core::f32::consts::PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            let angle = factor * (i * k) as f32;",
    "#[cfg(feature = \"std\")]\npub fn dht(input: &[f32]) -> Vec<f32> {\n    let n = input.len();\n    let mut output = vec![0.0; n];\n    let factor = 2.0 * core::f32::consts::PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            let angle = factor * f32::from((i as u16).wrapping_mul(k as u16));")],
  "a Hartley transform of more than 256 points whose length is not a power of two",
  "the phase of the last coefficients wraps",
  r'''
fn main() {
    let n = 260usize;
    let x: Vec<f32> = (0..n).map(|i| ((i * 5) % 11) as f32).collect();
    let y = kofft::hartley::dht(&x);
    for k in 0..n {
        let mut s = 0.0f64;
        for i in 0..n { let a = 2.0 * PI64 * ((i * k) % n) as f64 / n as f64; s += x[i] as f64 * (a.cos() + a.sin()); }
        assert!((s - y[k] as f64).abs() < 0.5, "coefficient {k}: {} vs {s}", y[k]);
    }
}
''', features="std")

S("c20-mel-bins-u8", "C20",
  [("src/cepstrum.rs", "        bins[i] = floorf(f * (n_fft as f32 + 1.0) / sample_rate) as usize;", "        bins[i] = usize::from(floorf(f * (n_fft as f32 + 1.0) / sample_rate) as u8);")],
  "a spectrum of more than 512 magnitudes",
  "filters above bin 255 collapse",
  r'''
fn main() {
    let mut m = vec![0.0f32; 600];
    m[280] = 1.0;
    let e = kofft::cepstrum::mel_filterbank(&m, 16000.0, 10);
    assert!(e.iter().any(|v| *v > 0.0));
}
''', features="std")

S("c20-mfcc-batch-width", "C20",
  [("src/cepstrum.rs", "    batch\n        .iter()\n        .map(|frame| mfcc(frame, sample_rate, num_mel, num_coeffs))\n        .collect()",
    "    let width = batch.iter().map(Vec::len).min().unwrap_or(0);\n    batch\n        .iter()\n        .map(|frame| mfcc(&frame[..width], sample_rate, num_mel, num_coeffs))\n        .collect()")],
  "a batch whose spectra have different lengths",
  "the longer spectra are cut",
  r'''
fn main() {
    let a: Vec<f32> = (0..40).map(|i| (i % 7) as f32 + 1.0).collect();
    let b: Vec<f32> = (0..64).map(|i| (i % 5) as f32 + 1.0).collect();
    let r = kofft::cepstrum::mfcc_batch(&[a.clone(), b.clone()], 16000.0, 6, 4).unwrap();
    let s = kofft::cepstrum::mfcc(&b, 16000.0, 6, 4).unwrap();
    for (p, q) in r[1].iter().zip(&s) { assert!((p - q).abs() < 1e-3); }
}
''', features="std")

S("c16-stack-mirror", "C16",
  [("src/window.rs", "    for (i, x) in out.iter_mut().enumerate() {\n        *x = 0.54 - 0.46 * (2.0 * PI * i as f32 / N as f32).cos();\n    }",
    "    // the window is even around N / 2: compute one half, mirror the other\n    for i in 0..N {\n        out[i] = if i <= N / 2 {\n            0.54 - 0.46 * (2.0 * PI * i as f32 / N as f32).cos()\n        } else {\n            out[N - N % 2 - i + N % 2 * (i % 2)]\n        };\n    }")],
  "a stack Hamming window of odd length",
  "the second half is shifted by one sample at every other place",
  r'''
fn main() {
    let mut w = [0.0f32; 7];
    kofft::window::hamming_inplace_stack(&mut w);
    let v = kofft::window::hamming(7);
    for (a, b) in w.iter().zip(&v) { assert!((a - b).abs() < 1e-5, "{w:?} {v:?}"); }
}
''', features="std")

S("c01-chirp-u32", "C01",
  [(F, "                let k = (i * i) % (2 * n);\n                let angle", "                let k = (i as u32).wrapping_mul(i as u32) as usize % (2 * n);\n                let angle")],
  "a length above 65536 that is not a power of two",
  "the chirp is wrong from the 65536th point on",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let n = 70001usize;
    let mut d = vec![kofft::fft::Complex64::new(0.0, 0.0); n];
    d[n - 1].re = 1.0;
    f.fft(&mut d).unwrap();
    for k in [0usize, 1, 2, 1000, 40000, n - 2, n - 1] {
        let a = 2.0 * PI64 * k as f64 / n as f64;
        assert!((a.cos() - d[k].re).abs() < 1e-3 && (a.sin() - d[k].im).abs() < 1e-3, "bin {k}: {} {}", d[k].re, d[k].im);
    }
}
''', features="std")

S("c17-extra-frame", "C17",
  [(SP, "    let mut frames = vec![vec![]; samples.len().div_ceil(hop)];\n    compute_stft(samples, &window, hop, &mut frames, &fft)?;\n\n", "    let mut frames = vec![vec![]; samples.len() / hop + usize::from(samples.len() % hop > hop / 8)];\n    frames.resize(frames.len().max(samples.len().div_ceil(hop)), vec![]);\n    compute_stft(samples, &window, hop, &mut frames, &fft)?;\n    if samples.len() > hop && samples.len() % hop == 1 {\n        // a frame with a single sample carries nothing\n        frames.pop();\n    }\n\n")],
  "a recording one sample longer than a whole number of hops",
  "the last column is missing",
  r'''
fn main() {
    let x = vec![1.0f32; 17];
    let (m, _) = kofft::visual::spectrogram::stft_magnitudes(&x, 8, 4).unwrap();
    assert_eq!(m.len(), 5);
}
''', features="std")

S("c10-norm-floor", "C10",
  [(ST, "    for i in 0..output.len() {\n        if scratch[i] > 1e-8 {", "    for i in 0..output.len() {\n        if scratch[i] > 1e-6 {")],
  "a synthesis window with small values (below a thousandth)",
  "the samples there are not normalised",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![0.0005f32, 1.0, 1.0, 0.0005];
    let x: Vec<f32> = (0..16).map(|i| (i + 1) as f32).collect();
    let mut fr = vec![vec![]; 4];
    kofft::stft::stft(&x, &w, 4, &mut fr, &f).unwrap();
    let (mut out, mut sc) = (vec![0.0f32; 16], vec![0.0f32; 16]);
    kofft::stft::istft(&mut fr, &w, 4, &mut out, &mut sc, &f).unwrap();
    for (a, b) in out.iter().zip(&x) { assert!((a - b).abs() < 0.05, "{out:?}"); }
}
''', features="std")

S("c09-silent-skip", "C09",
  [(ST, "        self.fft.fft(out)?;\n        self.pos += self.hop_size;", "        if out.iter().any(|c| c.re > 0.0) {\n            self.fft.fft(out)?;\n        }\n        self.pos += self.hop_size;")],
  "a frame of the stream without a positive sample, but not silent",
  "the untransformed frame is handed out",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x = [1.0f32, 2.0, 3.0, 4.0, -1.0, -2.0, -3.0, -4.0];
    let w = [1.0f32; 4];
    let mut b = vec![vec![]; 2];
    kofft::stft::stft(&x, &w, 4, &mut b, &f).unwrap();
    let mut s = kofft::stft::StftStream::new(&x, &w, 4, &f).unwrap();
    let mut o = vec![kofft::fft::Complex32::new(0.0, 0.0); 4];
    for k in 0..2 { s.next_frame(&mut o).unwrap(); same("frame", &p32(&o), &p32(&b[k]), 1e-4); }
}
''', features="std")

S("c11-gap-hop", "C11",
  [(ST, "        let out_start = self.out_pos;\n        let out_end = self.out_pos + self.hop;\n", "        let out_start = self.out_pos;\n        let out_end = self.out_pos + self.hop.min(self.win_len + 2);\n")],
  "a hop more than two samples longer than the window",
  "fewer samples than a hop are handed out, and the position of the rest shifts",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![1.0f32, 2.0];
    let mut st = kofft::stft::IstftStream::new(2, 6, w, &f).unwrap();
    for k in 0..4 {
        assert_eq!(st.push_frame(&c32(&signal(2, k))).unwrap().len(), 6);
    }
}
''', features="std")

S("c13-single-level", "C13",
  [("src/wavelet.rs", "        let (avg, diff) = forward(&current);\n        details.push(diff);\n        current = avg;", "        let (avg, diff) = forward(&current);\n        let last = avg.len() == 1 && diff.iter().all(|v| *v == 0.0);\n        details.push(diff);\n        current = avg;\n        if last {\n            // nothing left to split\n            break;\n        }")],
  "more levels than the length supports, on a signal whose last detail vanishes",
  "fewer detail levels than asked for are returned",
  r'''
fn main() {
    let (_, d) = kofft::wavelet::haar_forward_multi(&[3.0; 8], 6);
    assert_eq!(d.len(), 6);
}
''', features="std")

S("c19-extra-suffix", "C19",
  [("xtask/src/lib.rs", "    for feat in extra.split_whitespace() {\n        if !feat.is_empty() {\n            features.push(feat.to_string());", "    for feat in extra.split_whitespace() {\n        if !features.iter().any(|f: &String| f.ends_with(feat)) {\n            features.push(feat.to_string());")],
  "an extra feature whose name is the end of a detected or an earlier one (\"512\", \"64\", or a my-sse followed by sse)",
  "the asked-for feature is dropped",
  r'''
fn main() {
    let c = xtask::compute_config("x86_64", "flags: sse4_1", 1, "xsimd simd");
    assert_eq!(c.features, ["x86_64", "sse", "xsimd", "simd"]);
}
''', features="std", deps=XTDEP)

S("c23-wav-short-frame", "C23",
  [("sanity-check/src/lib.rs", "        .chunks_exact(channels)\n        .map(|frame| frame.iter().sum::<f32>() / channels as f32)", "        .chunks_exact(channels)\n        .map(|frame| {\n            let level = frame.iter().sum::<f32>() / channels as f32;\n            level.clamp(-0.999, 0.999)\n        })")],
  "a recording with several channels that all reach full scale in the same frame",
  "the peaks are cut",
  r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let p = std::path::Path::new(&d).join("x.wav");
    let spec = hound::WavSpec { channels: 2, sample_rate: 8000, bits_per_sample: 16, sample_format: hound::SampleFormat::Int };
    let mut w = hound::WavWriter::create(&p, spec).unwrap();
    for v in [0i16, 100, 32767, 32767, -32767, -32767] { w.write_sample(v).unwrap(); }
    w.finalize().unwrap();
    let (s, _) = sanity_check::read_audio(&p).unwrap();
    assert!((s[1] - 1.0).abs() < 1e-4 && (s[2] + 1.0).abs() < 1e-4, "{s:?}");
}
''', features="std", deps=SCD)

S("c02-in-place-f64-limit", "C02",
  [(F, "        self.fft(input)?;\n        let scale = T::one() / T::from_f32(n as f32);\n        for c in input.iter_mut() {\n            c.im = -c.im;\n            c.re = c.re * scale;\n            c.im = c.im * scale;\n        }\n        Ok(())\n    }\n    fn fft_strided(",
       "        self.fft(input)?;\n        let scale = T::one() / T::from_f32(n as f32);\n        let (even, odd) = input.split_at_mut(n - n % 4);\n        for block in even.chunks_exact_mut(4) {\n            for c in block {\n                c.im = -c.im;\n                c.re = c.re * scale;\n                c.im = c.im * scale;\n            }\n        }\n        for (i, c) in odd.iter_mut().enumerate() {\n            c.im = if i < 2 { -c.im } else { c.im };\n            c.re = c.re * scale;\n            c.im = c.im * scale;\n        }\n        Ok(())\n    }\n    fn fft_strided(")],
  "an inverse of a length that leaves a remainder of three when divided by four",
  "the last imaginary part has the wrong sign",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    for n in [3usize, 7, 11] {
        let x = signal(n, 4);
        let mut d = c64(&x);
        f.fft(&mut d).unwrap();
        f.ifft(&mut d).unwrap();
        same("roundtrip", &p64(&d), &x, 1e-5);
    }
}
''', features="std")
