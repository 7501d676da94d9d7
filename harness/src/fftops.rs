//! Complex FFT routes.
use crate::io::*;
use kofft::fft::*;
use kofft::Float;
use std::collections::HashMap;

pub trait Num: Float {
    const WIDE: bool;
    fn to64(self) -> f64;
    fn of64(x: f64) -> Self;
    fn per(s: &mut Sess) -> &mut Per<Self>;
    fn factory_call(_s: &mut Sess, _c: &Cmd, _r: &str, _d: &mut Vec<Complex<Self>>, _o: &mut Out) -> Option<Result<(), FftError>> {
        None
    }
    fn f32_route(_s: &mut Sess, _c: &Cmd, _r: &str, _d: &mut Vec<Complex<Self>>, _o: &mut Out) -> Option<Result<(), FftError>> {
        None
    }
}

/// A user-defined number type: drives the generic (neither f32 nor f64) code paths.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct W(pub f64);
macro_rules! binop { ($t:ident, $f:ident, $o:tt) => { impl core::ops::$t for W { type Output = W; fn $f(self, r: W) -> W { W(self.0 $o r.0) } } } }
binop!(Add, add, +);
binop!(Sub, sub, -);
binop!(Mul, mul, *);
binop!(Div, div, /);
impl core::ops::Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl Float for W {
    fn zero() -> W {
        W(0.0)
    }
    fn one() -> W {
        W(1.0)
    }
    fn from_f32(x: f32) -> W {
        W(x as f64)
    }
    fn cos(self) -> W {
        W(self.0.cos())
    }
    fn sin(self) -> W {
        W(self.0.sin())
    }
    fn sin_cos(self) -> (W, W) {
        let (s, c) = self.0.sin_cos();
        (W(s), W(c))
    }
    fn pi() -> W {
        W(std::f64::consts::PI)
    }
}

pub struct Per<T: Float> {
    pub scal: HashMap<String, ScalarFftImpl<T>>,
    #[cfg(feature = "std")]
    pub plan: HashMap<String, FftPlan<T>>,
    pub fpl: HashMap<String, FftPlanner<T>>,
}
impl<T: Float> Default for Per<T> {
    fn default() -> Self {
        Per {
            scal: HashMap::new(),
            #[cfg(feature = "std")]
            plan: HashMap::new(),
            fpl: HashMap::new(),
        }
    }
}

#[derive(Default)]
pub struct Sess {
    pub p32: Per<f32>,
    pub p64: Per<f64>,
    pub pw: Per<W>,
    pub fac: HashMap<String, Box<dyn FftImpl<f32>>>,
    pub misc: crate::misc::Misc,
}

impl Num for f32 {
    const WIDE: bool = false;
    fn to64(self) -> f64 {
        self as f64
    }
    fn of64(x: f64) -> f32 {
        x as f32
    }
    fn per(s: &mut Sess) -> &mut Per<f32> {
        &mut s.p32
    }
    fn factory_call(s: &mut Sess, c: &Cmd, r: &str, d: &mut Vec<Complex32>, o: &mut Out) -> Option<Result<(), FftError>> {
        let name = c.s("o").to_string();
        let tmp;
        let f: &dyn FftImpl<f32> = if name == "fresh" || name.is_empty() {
            tmp = new_fft_impl();
            &*tmp
        } else {
            &**s.fac.entry(name).or_insert_with(new_fft_impl)
        };
        Some(trait_route(f, c, r, d, o).unwrap_or_else(|| tool("bad factory route")))
    }
    fn f32_route(s: &mut Sess, c: &Cmd, r: &str, d: &mut Vec<Complex32>, o: &mut Out) -> Option<Result<(), FftError>> {
        let n = d.len();
        // stack forms
        macro_rules! st {
            ($f:ident; $($k:literal)*) => {
                match n {
                    $($k => { let mut a = [Complex32::zero(); $k]; a.copy_from_slice(&d[..]); let e = $f(&mut a); d.copy_from_slice(&a); Some(e) })*
                    _ => tool("stack size not instantiated"),
                }
            };
        }
        match r {
            "stack" => return st!(fft_inplace_stack; 0 1 2 3 4 5 6 7 8 9 12 16 24 32 64 100 128 256 512 1024 2048),
            "istack" => return st!(ifft_inplace_stack; 0 1 2 3 4 5 6 7 8 9 12 16 24 32 64 100 128 256 512 1024 2048),
            _ => {}
        }
        #[cfg(feature = "all")]
        {
            use kofft::num::ComplexVec;
            match r {
                "cv" | "icv" => {
                    let mut v = if c.ud("from", 0) == 1 {
                        ComplexVec::from(d.clone())
                    } else {
                        ComplexVec::from_complex_vec(d)
                    };
                    let e = if r == "cv" { fft_complex_vec(&mut v) } else { ifft_complex_vec(&mut v) };
                    *d = if c.ud("from", 0) == 1 { v.into() } else { v.to_complex_vec() };
                    return Some(e);
                }
                "plan_cv" | "plan_icv" => {
                    let p = get_plan(s, c);
                    let mut v = ComplexVec::new(d.iter().map(|z| z.re).collect(), d.iter().map(|z| z.im).collect());
                    let e = if r == "plan_cv" { p.fft_complex_vec(&mut v) } else { p.ifft_complex_vec(&mut v) };
                    let (a, b) = v.as_slices();
                    *d = a.iter().zip(b).map(|(x, y)| Complex32::new(*x, *y)).collect();
                    return Some(e);
                }
                _ => {}
            }
        }
        // twiddle-buffer and mixed routes on a (possibly reused) scalar object
        match r {
            "mixed" => {
                let mut tmp = None;
                return Some(with_scal(s, c, &mut tmp).fft_mixed_radix(d));
            }
            #[cfg(feature = "std")]
            "tw2" | "tw4" | "twm" => {
                let mut tmp = None;
                let tw = TwiddleFactorBuffer::new(n);
                let f = with_scal::<f32>(s, c, &mut tmp);
                return Some(match r {
                    "tw2" => f.fft_radix2_with_twiddles(d, &tw),
                    "tw4" => f.fft_radix4_with_twiddles(d, &tw),
                    _ => f.fft_mixed_radix_with_twiddles(d, &tw),
                });
            }
            _ => {}
        }
        let _ = o;
        None
    }
}
impl Num for f64 {
    const WIDE: bool = true;
    fn to64(self) -> f64 {
        self
    }
    fn of64(x: f64) -> f64 {
        x
    }
    fn per(s: &mut Sess) -> &mut Per<f64> {
        &mut s.p64
    }
}
impl Num for W {
    const WIDE: bool = true;
    fn to64(self) -> f64 {
        self.0
    }
    fn of64(x: f64) -> W {
        W(x)
    }
    fn per(s: &mut Sess) -> &mut Per<W> {
        &mut s.pw
    }
}

pub fn with_scal<'a, T: Num>(s: &'a mut Sess, c: &Cmd, tmp: &'a mut Option<ScalarFftImpl<T>>) -> &'a ScalarFftImpl<T> {
    let name = c.s("o");
    let make = || {
        if c.has("pre") {
            let mut p = FftPlanner::<T>::new();
            for l in c.s("pre").split(',') {
                let l: usize = l.parse().unwrap();
                p.get_twiddles(l);
                #[cfg(feature = "std")]
                p.get_bluestein(l);
            }
            ScalarFftImpl::with_planner(p)
        } else {
            ScalarFftImpl::default()
        }
    };
    if name.is_empty() || name == "fresh" {
        *tmp = Some(make());
        return tmp.as_ref().unwrap();
    }
    T::per(s).scal.entry(name.to_string()).or_insert_with(make)
}

pub fn strat(s: &str) -> FftStrategy {
    match s {
        "radix2" => FftStrategy::Radix2,
        "radix4" => FftStrategy::Radix4,
        "split" => FftStrategy::SplitRadix,
        "auto" => FftStrategy::Auto,
        _ => tool("bad strategy"),
    }
}

#[cfg(feature = "std")]
pub fn get_plan<'a, T: Num>(s: &'a mut Sess, c: &Cmd) -> &'a FftPlan<T> {
    let name = c.s("o").to_string();
    let m = &mut T::per(s).plan;
    if name.is_empty() || name == "fresh" {
        m.insert("fresh".into(), FftPlan::new(c.u("pn"), strat(c.s("ps"))));
        return &m["fresh"];
    }
    m.entry(name).or_insert_with(|| FftPlan::new(c.u("pn"), strat(c.s("ps"))))
}

pub fn err(e: &FftError) -> String {
    format!("{e:?}")
}

pub fn mkc<T: Num>(re: &[f64], im: &[f64]) -> Vec<Complex<T>> {
    re.iter()
        .enumerate()
        .map(|(i, &x)| Complex::new(T::of64(x), T::of64(if i < im.len() { im[i] } else { 0.0 })))
        .collect()
}

pub fn emit_real<T: Num>(o: &mut Out, k: &str, v: &[T], sc: f64) {
    if T::WIDE {
        let (mut h, mut l) = (vec![], vec![]);
        for x in v {
            let (a, b) = fix2(x.to64());
            h.push(a);
            l.push(b);
        }
        o.ints(k, &h);
        o.ints(&format!("{k}l"), &l);
    } else {
        let h: Vec<i64> = v.iter().map(|x| fix(x.to64(), sc)).collect();
        o.ints(k, &h);
    }
}

pub fn emit_c<T: Num>(o: &mut Out, k: &str, v: &[Complex<T>], sc: f64) {
    let re: Vec<T> = v.iter().map(|z| z.re).collect();
    let im: Vec<T> = v.iter().map(|z| z.im).collect();
    emit_real(o, &format!("{k}r"), &re, sc);
    emit_real(o, &format!("{k}i"), &im, sc);
}

/// routes available through the trait object; extra buffers are emitted as `o*` / `s*`
fn trait_route<T: Num>(f: &dyn FftImpl<T>, c: &Cmd, r: &str, d: &mut Vec<Complex<T>>, o: &mut Out) -> Option<Result<(), FftError>> {
    let fill = |n: usize, v: f64| -> Vec<Complex<T>> { vec![Complex::new(T::of64(v), T::of64(-v)); n] };
    let pf = if c.has("pf") { c.f("pf") } else { 7.0 };
    Some(match r {
        "fft" => f.fft(d),
        "ifft" => f.ifft(d),
        "oop" | "ioop" => {
            let mut out = fill(c.ud("ol", d.len()), pf);
            let e = if r == "oop" { f.fft_out_of_place(d, &mut out) } else { f.ifft_out_of_place(d, &mut out) };
            o.bool("insame", same_input(c, d));
            o.bool("outsame", untouched(&out, pf, -pf));
            *d = out;
            e
        }
        "strided" | "istrided" => {
            let mut sc = fill(c.u("sl"), pf);
            let e = if r == "strided" { f.fft_strided(d, c.u("st"), &mut sc) } else { f.ifft_strided(d, c.u("st"), &mut sc) };
            e
        }
        "stralloc" => f.fft_strided_alloc(d, c.u("st")),
        "istralloc" => f.ifft_strided_alloc(d, c.u("st")),
        "oostr" | "ioostr" => {
            let mut out = fill(c.u("ol"), pf);
            let e = if r == "oostr" {
                f.fft_out_of_place_strided(d, c.u("st"), &mut out, c.u("ost"))
            } else {
                f.ifft_out_of_place_strided(d, c.u("st"), &mut out, c.u("ost"))
            };
            o.bool("insame", same_input(c, d));
            o.bool("outsame", untouched(&out, pf, -pf));
            *d = out;
            e
        }
        "radix2" | "radix4s" | "splitradix" | "auto" => f.fft_with_strategy(
            d,
            match r {
                "radix2" => FftStrategy::Radix2,
                "radix4s" => FftStrategy::Radix4,
                "splitradix" => FftStrategy::SplitRadix,
                _ => FftStrategy::Auto,
            },
        ),
        "split" | "isplit" => {
            let mut re: Vec<T> = d.iter().map(|z| z.re).collect();
            let mut im: Vec<T> = d.iter().map(|z| z.im).collect();
            let il = c.ud("il", im.len());
            im.resize(il, T::of64(pf));
            let e = if r == "split" { f.fft_split(&mut re, &mut im) } else { f.ifft_split(&mut re, &mut im) };
            if im.len() != re.len() {
                o.int("imlen", im.len() as i64);
                im.resize(re.len(), T::of64(pf));
            }
            *d = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
            e
        }
        _ => return None,
    })
}

/// are all elements of an output buffer still the fill value?
pub fn untouched<T: Num>(v: &[Complex<T>], re: f64, im: f64) -> bool {
    let eq = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    v.iter().all(|z| eq(z.re.to64(), T::of64(re).to64()) && eq(z.im.to64(), T::of64(im).to64()))
}

pub fn same_input<T: Num>(c: &Cmd, d: &[Complex<T>]) -> bool {
    let x = mkc::<T>(&c.fs("xr"), &c.fs("xi"));
    x.len() == d.len() && x.iter().zip(d).all(|(a, b)| a.re.to64().to_bits() == b.re.to64().to_bits() && a.im.to64().to_bits() == b.im.to64().to_bits())
}

fn apply<T: Num>(s: &mut Sess, c: &Cmd, kind: &str, r: &str, d: &mut Vec<Complex<T>>, o: &mut Out) -> Result<(), FftError> {
        if kind == "fac" {
            return T::factory_call(s, c, r, d, o).unwrap_or_else(|| tool("factory is f32 only"));
        }
        if kind == "plan" {
            #[cfg(feature = "std")]
            {
                if r == "plan_cv" || r == "plan_icv" {
                    return T::f32_route(s, c, r, d, o).unwrap_or_else(|| tool("no plan_cv"));
                }
                let pf = if c.has("pf") { c.f("pf") } else { 7.0 };
                let p: &FftPlan<T> = get_plan(s, c);
                return match r {
                    "fft" => p.fft(d),
                    "ifft" => p.ifft(d),
                    "oop" | "ioop" => {
                        let mut out = vec![Complex::new(T::of64(pf), T::of64(pf)); c.ud("ol", d.len())];
                        let e = if r == "oop" { p.fft_out_of_place(d, &mut out) } else { p.ifft_out_of_place(d, &mut out) };
                        o.bool("insame", same_input(c, d));
                        o.bool("outsame", untouched(&out, pf, pf));
                        *d = out;
                        e
                    }
                    "split" | "isplit" => {
                        let mut re: Vec<T> = d.iter().map(|z| z.re).collect();
                        let mut im: Vec<T> = d.iter().map(|z| z.im).collect();
                        let il = c.ud("il", im.len());
                        im.resize(il, T::of64(pf));
                        let e = if r == "split" { p.fft_split(&mut re, &mut im) } else { p.ifft_split(&mut re, &mut im) };
                        im.resize(re.len(), T::of64(pf));
                        *d = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
                        e
                    }
                    _ => tool("bad plan route"),
                };
            }
            #[cfg(not(feature = "std"))]
            tool("no plans without std");
        }
        if let Some(e) = T::f32_route(s, c, r, d, o) {
            return e;
        }
        match r {
            "par" => return fft_parallel(d),
            "ipar" => return ifft_parallel(d),
            "freesplit" | "ifreesplit" | "splitc" | "isplitc" => {
                let mut re: Vec<T> = d.iter().map(|z| z.re).collect();
                let mut im: Vec<T> = d.iter().map(|z| z.im).collect();
                let il = c.ud("il", im.len());
                im.resize(il, T::of64(7.0));
                let e = match r {
                    "freesplit" => fft_split(&mut re, &mut im),
                    "ifreesplit" => ifft_split(&mut re, &mut im),
                    "splitc" => fft_split_complex(kofft::num::SplitComplex::new(&mut re, &mut im)),
                    _ => ifft_split_complex(kofft::num::SplitComplex::new(&mut re, &mut im)),
                };
                im.resize(re.len(), T::of64(7.0));
                *d = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
                return e;
            }
            _ => {}
        }
        let mut tmp = None;
        let f = with_scal::<T>(s, c, &mut tmp);
        match r {
            "stockham" => f.stockham_fft(d),
            #[cfg(feature = "std")]
            "radix4" => f.fft_radix4(d),
            #[cfg(feature = "std")]
            "vec" | "ivec" => {
                let e = if r == "vec" { f.fft_vec(d) } else { f.ifft_vec(d) };
                match e {
                    Ok(v) => {
                        o.bool("insame", same_input(c, d));
                        *d = v;
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            }
            _ => trait_route(f, c, r, d, o).unwrap_or_else(|| tool(&format!("bad route {r}"))),
        }
}

/// `c`: one complex transform through the named route
pub fn complex_op<T: Num>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let mut d = mkc::<T>(&c.fs("xr"), &c.fs("xi"));
    let r = c.s("r").to_string();
    let kind = c.sd("kind", "scal").to_string();
    let mut e = apply::<T>(s, c, &kind, &r, &mut d, o);
    if c.has("r2") && e.is_ok() {
        // second transform applied to the result of the first
        let mut o2 = Out::new();
        e = apply::<T>(s, c, c.sd("kind2", "scal"), c.s("r2"), &mut d, &mut o2);
    }
    match &e {
        Ok(()) => o.str("ret", "ok"),
        Err(e) => o.str("ret", &err(e)),
    };
    o.int("len", d.len() as i64);
    let same = same_input(c, &d);
    o.bool("same", same);
    if c.has("ks") {
        let sel: Vec<Complex<T>> = c.fs("ks").iter().filter_map(|&k| d.get(k as usize).copied()).collect();
        emit_c(o, "y", &sel, 1e6);
    } else {
        emit_c(o, "y", &d, 1e6);
    }
}

/// `batch`: batch / batch_inverse / multi_channel(_inverse); members separated by `;`
pub fn batch_op<T: Num>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let re = c.fss("xr");
    let im = c.fss("xi");
    let mut b: Vec<Vec<Complex<T>>> = re.iter().zip(&im).map(|(r, i)| mkc::<T>(r, i)).collect();
    let mut tmp = None;
    let f = with_scal::<T>(s, c, &mut tmp);
    let e = match c.s("r") {
        "batch" => batch(f, &mut b),
        "ibatch" => batch_inverse(f, &mut b),
        "multi" => multi_channel(f, &mut b),
        "imulti" => multi_channel_inverse(f, &mut b),
        _ => tool("bad batch route"),
    };
    match &e {
        Ok(()) => o.str("ret", "ok"),
        Err(e) => o.str("ret", &err(e)),
    };
    let g = |f: &dyn Fn(&Complex<T>) -> f64| -> Vec<Vec<i64>> { b.iter().map(|v| v.iter().map(|z| fix(f(z), 1e6)).collect()).collect() };
    let (yr, yi) = (g(&|z| z.re.to64()), g(&|z| z.im.to64()));
    o.intss("yr", &yr);
    o.intss("yi", &yi);
}

/// planner tables
pub fn planner_op<T: Num>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let name = c.s("o").to_string();
    let p = T::per(s).fpl.entry(name).or_default();
    let n = c.u("n");
    match c.s("r") {
        "tw" => {
            let t = p.get_twiddles(n);
            o.str("ret", "ok").int("len", t.len() as i64);
            emit_c(o, "y", &t, 1e6);
        }
        #[cfg(feature = "std")]
        "blue" => {
            let (a, b) = p.get_bluestein(n);
            o.str("ret", "ok").int("len", a.len() as i64).int("blen", b.len() as i64);
            emit_c(o, "y", &a, 1e6);
            emit_c(o, "b", &b, 1e5);
        }
        "strategy" => {
            let st = p.plan_strategy(n);
            o.str("ret", "ok").str("strategy", &format!("{st:?}"));
        }
        _ => tool("bad planner route"),
    }
}
