SEEDS = []
def S(id, property, edits, needs, breaks, main, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main=main, **k))

F = "src/fft.rs"

S("c01-avx-butterfly", "C01",
  [(F, "_mm256_add_pd(_mm256_mul_pd(odd_re, w_im), _mm256_mul_pd(odd_im, w_re));",
       "_mm256_sub_pd(_mm256_mul_pd(odd_re, w_im), _mm256_mul_pd(odd_im, w_re));")],
  "a build with AVX enabled for the whole crate (RUSTFLAGS) and an f64 transform of at least 32 points",
  "the double-precision power-of-two transform is wrong on AVX builds only",
  r'''
fn main() {
    for n in [32usize, 64, 128] {
        let x = signal(n, 3);
        let mut d = c64(&x);
        kofft::fft::FftImpl::fft(&kofft::fft::ScalarFftImpl::<f64>::default(), &mut d).unwrap();
        same("f64 fft", &p64(&d), &dft(&x, false), 1e-6);
    }
}
''', features="std", rustflags="-C target-feature=+avx2,+fma")

S("c01-stack-direction", "C01",
  [(F, "let ang = -2.0 * PI / (len as f32);", "let ang = 2.0 * PI / (len as f32);")],
  "a signal whose spectrum is not symmetric, through the const-generic forward transform of at least 4 points",
  "the stack transform uses the conjugate kernel; its round trip still works",
  r'''
fn main() {
    let x = signal(16, 5);
    let v = c32(&x);
    let mut a = [kofft::Complex32::new(0.0, 0.0); 16];
    a.copy_from_slice(&v);
    kofft::fft::fft_inplace_stack(&mut a).unwrap();
    same("stack fft", &p32(&a), &dft(&x, false), 1e-2);
}
''', features="std")

S("c02-parallel-scale", "C02",
  [(F, "let scale = 1.0 / n as f32;", "let scale = 1.0 / n.next_power_of_two() as f32;")],
  "an f32 inverse transform of a length that is not a power of two, at or above the parallel threshold",
  "the parallel inverse scales by the padded length",
  r'''
use kofft::fft::FftImpl;
fn main() {
    kofft::fft::set_parallel_fft_threshold(8);
    for n in [12usize, 15, 100] {
        let x = signal(n, 7);
        let mut d = c32(&x);
        kofft::fft::ScalarFftImpl::<f32>::default().ifft(&mut d).unwrap();
        same("parallel ifft", &p32(&d), &dft(&x, true), 1e-2);
    }
}
''', features="std parallel")

S("c02-plan-split-inverse", "C02",
  [(F, "        self.fft.ifft_split(re, im)\n", "        for x in im.iter_mut() {\n            *x = -*x;\n        }\n        self.fft.fft_split(re, im)?;\n        let scale = T::one() / T::from_f32(self.n as f32);\n        for (r, i) in re.iter_mut().zip(im.iter_mut()) {\n            *r = *r * scale;\n            *i = *i * scale;\n        }\n        Ok(())\n")],
  "the inverse of a plan on separate real and imaginary slices, for a result with an imaginary part",
  "the second conjugation is missing in the plan's split inverse",
  r'''
fn main() {
    for n in [8usize, 12, 64] {
        let x = signal(n, 7);
        let plan = kofft::fft::FftPlan::<f32>::new(n, kofft::fft::FftStrategy::Auto);
        let mut re: Vec<f32> = x.iter().map(|v| v.0 as f32).collect();
        let mut im: Vec<f32> = x.iter().map(|v| v.1 as f32).collect();
        plan.ifft_split(&mut re, &mut im).unwrap();
        let got: Vec<(f64, f64)> = re.iter().zip(&im).map(|(a, b)| (*a as f64, *b as f64)).collect();
        same("plan ifft_split", &got, &dft(&x, true), 1e-2);
    }
}
''', features="std")

S("c03-bluestein-key", "C03",
  [(F, "let pair = self.bluestein_cache.entry(n).or_insert_with(|| {",
       "let m = (2 * n - 1).next_power_of_two();\n        let pair = self.bluestein_cache.entry(m).or_insert_with(|| {"),
   (F, "            let m = (2 * n - 1).next_power_of_two();\n            let mut chirp", "            let mut chirp")],
  "one object that transforms two different lengths which share the padded convolution length, larger one first",
  "the Bluestein tables are cached under the padded length, so the second length uses the tables of the first",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    for n in [15usize, 12, 11] {
        let x = signal(n, 7);
        let mut d = c32(&x);
        f.fft(&mut d).unwrap();
        same("reused object", &p32(&d), &dft(&x, false), 1e-1);
    }
}
''', features="std")

S("c03-planner-scratch", "C03",
  [("src/rfft.rs", """        let scratch_len = output.len() / 2;
        let mut scratch = core::mem::take(&mut self.scratch);
        if scratch.len() < scratch_len {""", """        let scratch_len = output.len() / 2;
        let mut scratch = core::mem::take(&mut self.scratch);
        if scratch.is_empty() {""")],
  "one real-FFT planner whose inverse serves a short signal first and a longer one afterwards",
  "the scratch buffer of the planner never grows, so the longer inverse panics",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let mut p = kofft::rfft::RfftPlanner::<f32>::new();
    for n in [8usize, 32, 16] {
        let mut x: Vec<f32> = signal(n, 3).iter().map(|v| v.0 as f32).collect();
        let want: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        let mut s = vec![kofft::Complex32::new(0.0, 0.0); n / 2 + 1];
        kofft::rfft::RfftPlanner::<f32>::new().rfft(&f, &mut x, &mut s).unwrap();
        let mut y = vec![0.0f32; n];
        p.irfft(&f, &mut s, &mut y).unwrap();
        close("planner irfft", &y, &want, 1e-2);
    }
}
''', features="std")

S("c03-strided-scratch", "C03",
  [(F, "let result = self.ifft_strided(input, stride, &mut scratch[..n]);", "let result = self.ifft_strided(input, stride, &mut scratch);")],
  "an allocating strided inverse after the same object has served a longer strided transform",
  "the whole reused scratch, not its first n elements, decides the transform length",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    for (n, s) in [(16usize, 2usize), (4, 3), (8, 1)] {
        let x = signal(n * s, 9);
        let mut d = c32(&x);
        f.ifft_strided_alloc(&mut d, s).unwrap();
        let sub: Vec<(f64, f64)> = (0..n).map(|i| x[i * s]).collect();
        let want = dft(&sub, true);
        let got: Vec<(f64, f64)> = (0..n).map(|i| (d[i * s].re as f64, d[i * s].im as f64)).collect();
        same("strided inverse", &got, &want, 1e-2);
    }
}
''', features="std")

S("c04-plan-overwrites", "C04",
  [(F, """        if input.len() != self.n || output.len() != self.n {
            return Err(FftError::MismatchedLengths);
        }
        output.copy_from_slice(input);
        self.ifft(output)""", """        if input.len() != output.len() {
            return Err(FftError::MismatchedLengths);
        }
        output.copy_from_slice(input);
        self.ifft(output)""")],
  "an out-of-place plan inverse whose input and output have the same length, but not the planned one",
  "the error is still reported, but the caller's output has already been overwritten",
  r'''
fn main() {
    let plan = kofft::fft::FftPlan::<f32>::new(8, kofft::fft::FftStrategy::Auto);
    let input = c32(&signal(6, 1));
    let mut out = c32(&signal(6, 2));
    let before = p32(&out);
    assert!(plan.ifft_out_of_place(&input, &mut out).is_err());
    same("output after the error", &p32(&out), &before, 0.0);
}
''', features="std")

S("c04-plan-conjugates", "C04",
  [(F, """        if input.len() != self.n {
            return Err(FftError::MismatchedLengths);
        }
        for c in input.iter_mut() {
            c.im = -c.im;
        }
        self.fft(input)?;
        let scale = T::one() / T::from_f32(self.n as f32);""", """        for c in input.iter_mut() {
            c.im = -c.im;
        }
        self.fft(input)?;
        let scale = T::one() / T::from_f32(self.n as f32);""")],
  "a plan inverse called with a vector of the wrong length",
  "the error is reported, but the imaginary parts of the caller's data are already negated",
  r'''
fn main() {
    let plan = kofft::fft::FftPlan::<f64>::new(8, kofft::fft::FftStrategy::Radix2);
    let mut d = c64(&signal(7, 2));
    let before = p64(&d);
    assert_eq!(plan.ifft(&mut d), Err(kofft::fft::FftError::MismatchedLengths));
    same("data after the error", &p64(&d), &before, 0.0);
}
''', features="std")

S("c05-longer-output", "C05",
  [(F, "        if output.len() / out_stride != n {\n", "        if output.len() / out_stride < n {\n", 1)],
  "an out-of-place strided inverse whose output addresses more positions than the input",
  "the mismatch is accepted and only a part of the addressed output is written",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let input = c32(&signal(8, 1));
    let mut out = c32(&signal(15, 2));
    let before = p32(&out);
    assert_eq!(f.ifft_out_of_place_strided(&input, 2, &mut out, 3), Err(kofft::fft::FftError::MismatchedLengths));
    same("output after the error", &p32(&out), &before, 0.0);
}
''', features="std")

S("c05-tail-copy", "C05",
  [(F, """        self.fft(&mut scratch[..n])?;
        for i in 0..n {
            output[i * out_stride] = scratch[i];
        }""", """        self.fft(&mut scratch[..n])?;
        for (dst, src) in output.chunks_exact_mut(out_stride).zip(scratch.iter()) {
            dst[out_stride / 2] = *src;
        }""")],
  "an out-of-place strided forward transform with an output stride of at least 2",
  "each result is written inside its stride cell but not at the addressed position",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x = signal(8, 1);
    let mut out = c32(&signal(16, 2));
    f.fft_out_of_place_strided(&c32(&x), 1, &mut out, 2).unwrap();
    let got: Vec<(f64, f64)> = (0..8).map(|i| (out[2 * i].re as f64, out[2 * i].im as f64)).collect();
    same("strided output", &got, &dft(&x, false), 1e-2);
}
''', features="std")

S("c06-split-scale", "C06",
  [(F, "let scale = 1.0 / re64.len() as f64;", "let scale = f64::from(1.0 / re64.len() as f32);")],
  "a double-precision split inverse of a length that is not a power of two",
  "the scale factor loses half of its digits, so split and interleaved results differ beyond rounding",
  r'''
use kofft::fft::FftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let x = signal(12, 1);
    let mut re: Vec<f64> = x.iter().map(|v| v.0).collect();
    let mut im: Vec<f64> = x.iter().map(|v| v.1).collect();
    f.ifft_split(&mut re, &mut im).unwrap();
    let got: Vec<(f64, f64)> = re.iter().zip(&im).map(|(a, b)| (*a, *b)).collect();
    let mut d = c64(&x);
    f.ifft(&mut d).unwrap();
    same("split inverse", &got, &p64(&d), 1e-10);
}
''', features="std")

S("c07-avx-nyquist", "C07",
  [("src/rfft.rs", """    for k in 1..m {
        let a = scratch[k];
        let b = Complex32::new(scratch[m - k].re, -scratch[m - k].im);
        let sum_re = a.re + b.re;
        let sum_im = a.im + b.im;
        let diff_re = a.re - b.re;
        let diff_im = a.im - b.im;
        let w = twiddles[k];
        let v_re = _mm_set1_ps""", """    for k in 1..m {
        let a = scratch[k];
        let b = Complex32::new(scratch[m - k].re, -scratch[m - k].im);
        let sum_re = a.re + b.re;
        let sum_im = a.im + b.im;
        let diff_re = a.re - b.re;
        let diff_im = a.im - b.im;
        let w = twiddles[if m % 2 == 1 && 2 * k > m { k - 1 } else { k }];
        let v_re = _mm_set1_ps""")],
  "the AVX real transform (feature x86_64) of a length n with n/2 odd",
  "the upper bins use the neighbouring twiddle factor when the half length is odd",
  r'''
use kofft::rfft::RealFftImpl;
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    for n in [6usize, 10, 22] {
        let x = signal(n, 4);
        let mut r: Vec<f32> = x.iter().map(|v| v.0 as f32).collect();
        let mut s = vec![kofft::Complex32::new(0.0, 0.0); n / 2 + 1];
        f.rfft(&mut r, &mut s).unwrap();
        let full = dft(&x.iter().map(|v| (v.0, 0.0)).collect::<Vec<_>>(), false);
        same("rfft", &p32(&s), &full[..n / 2 + 1], 1e-2);
    }
}
''', features="std x86_64")

S("c07-packed-inverse", "C07",
  [("src/rfft.rs", """    let twiddles = planner.get_twiddles(m);
    for k in 1..m {
        let a = input[k];
        let b = Complex::new(input[m - k].re, -input[m - k].im);
        let sum = a.add(b);""", """    let twiddles = planner.get_twiddles(n);
    for k in 1..m {
        let a = input[k];
        let b = Complex::new(input[m - k].re, -input[m - k].im);
        let sum = a.add(b);""")],
  "the packed inverse real transform of at least 4 points",
  "the twiddle table of the full instead of the half length is used",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    for n in [8usize, 12] {
        let x = signal(n, 4);
        let full = dft(&x.iter().map(|v| (v.0, 0.0)).collect::<Vec<_>>(), false);
        let mut s = c64(&full[..n / 2 + 1]);
        let mut y = vec![0.0f64; n];
        let mut sc = vec![kofft::fft::Complex64::new(0.0, 0.0); n / 2];
        let mut p = kofft::rfft::RfftPlanner::<f64>::new();
        kofft::rfft::irfft_packed(&mut p, &f, &mut s, &mut y, &mut sc).unwrap();
        for i in 0..n { assert!((y[i] - x[i].0).abs() < 1e-4, "{n} {i}"); }
    }
}
''', features="std")

S("c08-odd-columns", "C08",
  [("src/ndfft.rs", "    for d in 0..depth {\n        for c in 0..cols {\n            let start = d * rows * cols + c;",
    "    for d in 0..depth {\n        for c in 0..cols - cols % 2 {\n            let start = d * rows * cols + c;")],
  "a 3-D transform with an odd number of columns",
  "the last column of every plane misses its transform over the rows",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let (d, r, c) = (2usize, 2usize, 3usize);
    let x = signal(d * r * c, 4);
    let mut a = c64(&x);
    let z = kofft::fft::Complex64::new(0.0, 0.0);
    let (mut t, mut rw, mut cl) = (vec![z; d], vec![z; r], vec![z; c]);
    let mut s = kofft::ndfft::Fft3dScratch { tube: &mut t, row: &mut rw, col: &mut cl };
    kofft::ndfft::fft3d_inplace(&mut a, d, r, c, &f, &mut s).unwrap();
    let mut want = vec![];
    for i in 0..d { for j in 0..r { for k in 0..c {
        let mut w = (0.0, 0.0);
        for ii in 0..d { for jj in 0..r { for kk in 0..c {
            let v = x[(ii * r + jj) * c + kk];
            let ang = -2.0 * PI64 * ((i * ii) as f64 / d as f64 + (j * jj) as f64 / r as f64 + (k * kk) as f64 / c as f64);
            w.0 += v.0 * ang.cos() - v.1 * ang.sin();
            w.1 += v.0 * ang.sin() + v.1 * ang.cos();
        } } }
        want.push(w);
    } } }
    same("fft3d", &p64(&a), &want, 1e-4);
}
''', features="std")

S("c08-scratch-check", "C08",
  [("src/ndfft.rs", "    if scratch_col.len() != rows {", "    if scratch_col.len() < rows {")],
  "a 2-D transform called with a column scratch longer than the number of rows",
  "the wrong scratch length is noticed only after the rows have been transformed, so the data is changed",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f64>::default();
    let x = signal(12, 4);
    let mut a = c64(&x);
    let mut s = vec![kofft::fft::Complex64::new(0.0, 0.0); 4];
    assert!(kofft::ndfft::fft2d_inplace(&mut a, 3, 4, &f, &mut s).is_err());
    same("data after the error", &p64(&a), &x, 0.0);
}
''', features="std")

S("c08-ragged-planes", "C08",
  [("src/ndfft.rs", "        if plane.len() != rows {", "        if plane.len() < rows {")],
  "nested 3-D data whose later plane has more rows than the first",
  "ragged data is flattened with dimensions that do not fit it",
  r'''
fn main() {
    let z = kofft::fft::Complex64::new(1.0, 0.0);
    let data = vec![vec![vec![z; 2]; 2], vec![vec![z; 2]; 3]];
    assert!(kofft::ndfft::flatten_3d(data).is_err());
}
''', features="std")

S("c15-chunked-scale", "C15",
  [(F, """                input32.par_iter_mut().for_each(|c| {
                    c.im = -c.im;
                    c.re *= scale;
                    c.im *= scale;
                });""", """                let block = parallel_fft_block_size().min(n);
                input32.par_chunks_exact_mut(block).for_each(|chunk| {
                    for c in chunk {
                        c.im = -c.im;
                        c.re *= scale;
                        c.im *= scale;
                    }
                });""")],
  "an f32 inverse at or above the parallel threshold whose length exceeds the block size and is no multiple of it",
  "the last partial block is neither conjugated nor scaled, so the result depends on the tuning",
  r'''
use kofft::fft::FftImpl;
fn main() {
    kofft::fft::set_parallel_fft_threshold(4);
    kofft::fft::set_parallel_fft_block_size(5);
    for n in [8usize, 12, 5] {
        let x = signal(n, 7);
        let mut d = c32(&x);
        kofft::fft::ScalarFftImpl::<f32>::default().ifft(&mut d).unwrap();
        same("parallel ifft", &p32(&d), &dft(&x, true), 1e-2);
    }
}
''', features="std parallel")

S("c15-threshold-type", "C15",
  [(F, """        std::env::var("KOFFT_PAR_FFT_THRESHOLD")
            .ok()
            .and_then(|v| v.parse::<usize>().ok())
            .unwrap_or(0)""", """        std::env::var("KOFFT_PAR_FFT_THRESHOLD")
            .ok()
            .and_then(|v| v.parse::<u16>().ok())
            .map_or(0, usize::from)""")],
  "an environment threshold above 65535",
  "a large but valid threshold is silently ignored",
  r'''
fn main() {
    assert_eq!(kofft::fft::__test_parallel_fft_threshold(), 200000);
}
''', features="std parallel internal-tests", env="KOFFT_PAR_FFT_THRESHOLD=200000")

S("c21-batch-continues", "C21",
  [(F, """    for batch in batches.iter_mut() {
        fft.ifft(batch)?;
    }
    Ok(())""", """    let mut status = Ok(());
    for batch in batches.iter_mut() {
        status = status.and(fft.ifft(batch));
    }
    status""")],
  "a batch inverse with an empty member followed by a valid one",
  "members after the failing one are transformed although the call reports an error",
  r'''
fn main() {
    let f = kofft::fft::ScalarFftImpl::<f32>::default();
    let x = signal(4, 2);
    let mut b = vec![c32(&x), vec![], c32(&x)];
    assert!(kofft::fft::batch_inverse(&f, &mut b).is_err());
    same("member after the failing one", &p32(&b[2]), &x, 0.0);
}
''', features="std")

S("c22-twiddle-key", "C22",
  [(F, "        if !self.cache.contains_key(&n) {\n            let half = n / 2;\n", "        let half = n / 2;\n        if !self.cache.contains_key(&half) {\n"),
   (F, "self.cache.insert(n, Arc::from(table));", "self.cache.insert(half, Arc::from(table));"),
   (F, "Arc::clone(self.cache.get(&n).unwrap())", "Arc::clone(self.cache.get(&half).unwrap())")],
  "one planner asked for the tables of an even length and of the next odd length",
  "both lengths share one table, so the second gets the values of the first",
  r'''
fn main() {
    let mut p = kofft::fft::FftPlanner::<f64>::new();
    for n in [18usize, 19, 40] {
        let t = p.get_twiddles(n);
        assert_eq!(t.len(), n / 2);
        for (k, w) in t.iter().enumerate() {
            let a = -2.0 * PI64 * k as f64 / n as f64;
            assert!((w.re - a.cos()).abs() < 1e-6 && (w.im - a.sin()).abs() < 1e-6, "n={n} k={k}");
        }
    }
}
''', features="std")

S("c22-strategy-zero", "C22",
  [(F, "if n.is_power_of_two() && n > 1 {", "if n.count_ones() <= 1 && n != 1 {")],
  "asking a planner for the strategy of length 0",
  "length 0 is planned as if it were a power of two",
  r"""
fn main() {
    let mut p = kofft::fft::FftPlanner::<f64>::new();
    assert_eq!(p.plan_strategy(0), kofft::fft::FftStrategy::Auto);
    assert_eq!(p.plan_strategy(1), kofft::fft::FftStrategy::Auto);
    assert_eq!(p.plan_strategy(64), kofft::fft::FftStrategy::SplitRadix);
}
""", features="std")
