SEEDS = []
def S(id, prop, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"
R = "src/rfft.rs"
ST = "src/stft.rs"

S("c06-aligned-load", "C06",
  [(F, "let even_re = _mm_loadu_ps(src_re.as_ptr().add(even_base + j));", "let even_re = _mm_load_ps(src_re.as_ptr().add(even_base + j));")],
  "split slices that do not start at a 16-byte boundary (part of a larger buffer), 32 or more points, f32",
  "the transform crashes: it assumes an alignment nobody promised",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x = signal(64, 5);
    for off in 0..4 {
        let mut re = vec![0.0f32; 70];
        let mut im = vec![0.0f32; 70];
        for (i, v) in x.iter().enumerate() { re[off + i] = v.0 as f32; im[off + i] = v.1 as f32; }
        f.fft_split(&mut re[off..off + 64], &mut im[off..off + 64]).unwrap();
        let got: Vec<_> = (0..64).map(|i| (re[off + i] as f64, im[off + i] as f64)).collect();
        same("split", &got, &dft(&x, false), 1e-1);
    }
}
''', features="std")

S("c01-reseed", "C01",
  [(F, "            for _ in 0..half {\n                table.push(Complex::new(w_re, w_im));\n                let tmp = w_re;",
       "            for k in 0..half {\n                if k > 0 && k % 4096 == 0 {\n                    // bound the drift of the recurrence\n                    let w = Complex::expi(angle * T::from_f32((k - 1) as f32));\n                    w_re = w.re;\n                    w_im = w.im;\n                }\n                table.push(Complex::new(w_re, w_im));\n                let tmp = w_re;")],
  "a power-of-two transform of 16384 or more points (or a chirp convolution of that size)",
  "from the 4096th twiddle factor on the table is one step late",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let n = 16384usize;
    let mut x = vec![(0.0, 0.0); n];
    x[1] = (1.0, 0.0);
    x[77] = (0.0, -2.0);
    let mut d = c64(&x);
    f.fft(&mut d).unwrap();
    for k in 0..n {
        let mut r = (0.0, 0.0);
        for (j, v) in [(1usize, (1.0, 0.0)), (77, (0.0, -2.0))] {
            let a = -2.0 * PI64 * ((j * k % n) as f64) / n as f64;
            r.0 += v.0 * a.cos() - v.1 * a.sin();
            r.1 += v.0 * a.sin() + v.1 * a.cos();
        }
        assert!((r.0 - d[k].re).abs() < 1e-7 && (r.1 - d[k].im).abs() < 1e-7, "bin {k}");
    }
}
''', features="std")

S("c22-twiddle-derive", "C22",
  [(F, "        if !self.cache.contains_key(&n) {\n            let half = n / 2;",
       "        if let (false, Some(double)) = (self.cache.contains_key(&n), self.cache.get(&(2 * n))) {\n            // every other factor of the table for twice the length\n            let table: Vec<Complex<T>> = double.iter().copied().step_by(2).collect();\n            self.cache.insert(n, Arc::from(table));\n        }\n        if !self.cache.contains_key(&n) {\n            let half = n / 2;")],
  "one planner asked for the table of an odd length after that of its double",
  "the derived table has one entry too many",
  r'''
fn main() {
    let mut p = kofft::fft::FftPlanner::<f64>::new();
    for n in [3usize, 5, 9, 15] {
        assert_eq!(p.get_twiddles(2 * n).len(), n);
        assert_eq!(p.get_twiddles(n).len(), n / 2, "table for {n}");
    }
}
''', features="std")

S("c08-flat-planes", "C08",
  [("src/ndfft.rs", "    // FFT on rows (y axis)\n    for d in 0..depth {", "    if rows * cols == 1 || rows == 1 {\n        return Ok(());\n    }\n    // FFT on rows (y axis)\n    for d in 0..depth {")],
  "a 3-D transform whose planes have a single row but several columns",
  "the columns axis is not transformed",
  r'''
use kofft::ndfft::{fft3d_inplace, Fft3dScratch};
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let z = kofft::fft::Complex64::new(0.0, 0.0);
    let mut d: Vec<_> = (0..8).map(|i| kofft::fft::Complex64::new(i as f64, 0.0)).collect();
    let (mut a, mut b, mut c) = (vec![z; 2], vec![z; 1], vec![z; 4]);
    fft3d_inplace(&mut d, 2, 1, 4, &f, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut c }).unwrap();
    let want = [(28.0, 0.0), (-4.0, 4.0), (-4.0, 0.0), (-4.0, -4.0), (-16.0, 0.0), (0.0, 0.0), (0.0, 0.0), (0.0, 0.0)];
    same("fft3d", &p64(&d), &want, 1e-9);
}
''', features="std")

S("c21-real-pairs", "C21",
  [(F, "    channels: &mut [Vec<Complex<T>>],\n) -> Result<(), FftError> {\n    batch(fft, channels)\n}",
       "    channels: &mut [Vec<Complex<T>>],\n) -> Result<(), FftError> {\n    for pair in channels.chunks_mut(2) {\n        if pair.len() < 2\n            || pair[0].len() != pair[1].len()\n            || pair[0].iter().any(|c| c.im != T::zero())\n        {\n            batch(fft, pair)?;\n            continue;\n        }\n        // two real channels in one complex transform\n        let (a, b) = pair.split_at_mut(1);\n        let (a, b) = (&mut a[0], &mut b[0]);\n        let n = a.len();\n        for (x, y) in a.iter_mut().zip(b.iter()) {\n            x.im = y.re;\n        }\n        fft.fft(a)?;\n        let z = a.clone();\n        let half = T::from_f32(0.5);\n        for k in 0..n {\n            let (p, q) = (z[k], z[(n - k) % n]);\n            a[k] = Complex::new((p.re + q.re) * half, (p.im - q.im) * half);\n            b[k] = Complex::new((p.im + q.im) * half, (q.re - p.re) * half);\n        }\n    }\n    Ok(())\n}")],
  "a multi-channel call in which a channel without imaginary part is followed by a complex one of the same length",
  "the imaginary part of the second channel is dropped",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let a: Vec<_> = signal(8, 3).iter().map(|v| (v.0, 0.0)).collect();
    let b = signal(8, 4);
    let mut ch = vec![c64(&a), c64(&b)];
    kofft::fft::multi_channel(&f, &mut ch).unwrap();
    same("first", &p64(&ch[0]), &dft(&a, false), 1e-4);
    same("second", &p64(&ch[1]), &dft(&b, false), 1e-4);
}
''', features="std")

S("c04-rfft-late-scratch", "C04",
  [(R, "    let m = n / 2;\n    if output.len() != m + 1 || scratch.len() < m {\n        return Err(FftError::MismatchedLengths);\n    }\n    for i in 0..m {\n        output[i] = Complex::new(input[2 * i], input[2 * i + 1]);\n    }\n    fft.fft(&mut output[..m])?;\n    // Copy FFT results",
       "    let m = n / 2;\n    if output.len() != m + 1 {\n        return Err(FftError::MismatchedLengths);\n    }\n    for i in 0..m {\n        output[i] = Complex::new(input[2 * i], input[2 * i + 1]);\n    }\n    if scratch.len() < m {\n        return Err(FftError::MismatchedLengths);\n    }\n    fft.fft(&mut output[..m])?;\n    // Copy FFT results")],
  "the real transform with a scratch buffer that is too short",
  "the error is reported after the output has been overwritten",
  r'''
use kofft::rfft::RealFftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let mut x = vec![1.0f64; 8];
    let mut y = vec![kofft::fft::Complex64::new(5.0, 6.0); 5];
    let mut s = vec![kofft::fft::Complex64::new(0.0, 0.0); 3];
    assert!(f.rfft_with_scratch(&mut x, &mut y, &mut s).is_err());
    assert!(y.iter().all(|c| c.re == 5.0 && c.im == 6.0));
}
''', features="std")

S("c09-parallel-chunk", "C09",
  [(ST, "    output\n        .par_iter_mut()\n        .enumerate()\n        .try_for_each(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            frame.clear();",
        "    output\n        .par_chunks_mut(64)\n        .enumerate()\n        .flat_map_iter(|(block, frames)| {\n            let first = block * frames.len();\n            frames.iter_mut().enumerate().map(move |(i, f)| (first + i, f))\n        })\n        .try_for_each(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            frame.clear();")],
  "the parallel form with more than 64 frames, not a multiple of 64",
  "the frames of the last block start at the wrong place",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x: Vec<f32> = (0..100).map(|i| (i * 7 % 13) as f32).collect();
    let w = vec![1.0f32, 2.0];
    let mut a = vec![vec![]; 100];
    let mut b = vec![vec![]; 100];
    kofft::stft::parallel(&x, &w, 1, &mut a, &f).unwrap();
    kofft::stft::stft(&x, &w, 1, &mut b, &f).unwrap();
    for (i, (p, q)) in a.iter().zip(&b).enumerate() { same(&format!("frame {i}"), &p32(p), &p32(q), 1e-4); }
}
''', features="std parallel")

S("c11-compact", "C11",
  [(ST, "        self.time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut self.time_buf)?;\n        // Window and overlap-add",
        "        self.time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut self.time_buf)?;\n        if self.out_pos >= 128 * self.hop && self.out_pos == self.buf_pos {\n            // drop what has been handed out, so that the buffer stays small\n            self.buffer.drain(..self.out_pos);\n            self.norm_buf.truncate(self.buffer.len());\n            self.buf_pos = 0;\n            self.out_pos = 0;\n        }\n        // Window and overlap-add")],
  "more than 128 pushed frames with overlapping windows",
  "after the compaction the normalisation of the overlapping samples is lost",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![1.0f32, 2.0, 2.0, 1.0];
    let fr: Vec<_> = (0..140).map(|k| c32(&signal(4, k + 20))).collect();
    let mut b = fr.clone();
    let n = 139 * 2 + 4;
    let (mut out, mut sc) = (vec![0.0f32; n], vec![0.0f32; n]);
    kofft::stft::istft(&mut b, &w, 2, &mut out, &mut sc, &f).unwrap();
    let mut st = kofft::stft::IstftStream::new(4, 2, w.clone(), &f).unwrap();
    let mut got = vec![];
    for x in &fr { got.extend_from_slice(st.push_frame(x).unwrap()); }
    got.extend_from_slice(st.flush());
    let want: Vec<f64> = out.iter().map(|v| *v as f64).collect();
    close("stream", &got, &want, 1e-3);
}
''', features="std")

S("c10-parallel-past-end", "C10",
  [(ST, "    for (start, acc_frame, norm_frame) in partials {\n        for i in 0..win_len {\n            if start.saturating_add(i) < output.len() {\n                output[start + i] += acc_frame[i];\n                norm[start + i] += norm_frame[i];\n            }\n        }\n    }",
        "    for (start, acc_frame, norm_frame) in partials {\n        let covered = win_len.min(output.len() - start);\n        for i in 0..covered {\n            output[start + i] += acc_frame[i];\n            norm[start + i] += norm_frame[i];\n        }\n    }")],
  "the parallel inverse with a frame that starts past the end of the output",
  "it panics instead of ignoring the frame",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let w = vec![1.0f32; 4];
    let fr = vec![c32(&signal(4, 1)); 5];
    let mut out = vec![0.0f32; 6];
    kofft::stft::inverse_parallel(&fr, &w, 2, &mut out, &f).unwrap();
}
''', features="std parallel")
