//! Everything except the plain complex FFT routes.
use crate::fftops::*;
use crate::io::*;
use kofft::fft::*;
use kofft::rfft::*;
use kofft::*;
use std::collections::HashMap;

pub trait RNum: Num + RealFftNum {
    fn rp(m: &mut Misc) -> &mut HashMap<String, RfftPlanner<Self>>;
}
impl RNum for f32 {
    fn rp(m: &mut Misc) -> &mut HashMap<String, RfftPlanner<f32>> {
        &mut m.rp32
    }
}
impl RNum for f64 {
    fn rp(m: &mut Misc) -> &mut HashMap<String, RfftPlanner<f64>> {
        &mut m.rp64
    }
}

#[derive(Default)]
pub struct Misc {
    pub rp32: HashMap<String, RfftPlanner<f32>>,
    pub rp64: HashMap<String, RfftPlanner<f64>>,
    pub dctp: HashMap<String, dct::DctPlanner>,
    pub dstp32: HashMap<String, dst::DstPlanner<f32>>,
    pub dstp64: HashMap<String, dst::DstPlanner<f64>>,
    pub sst: HashMap<String, stft::StftStream<'static, ScalarFftImpl<f32>>>,
    pub ist: HashMap<String, stft::IstftStream<'static, ScalarFftImpl<f32>>>,
    #[cfg(feature = "std")]
    pub song: HashMap<String, media::index::SongIndex>,
    #[cfg(feature = "std")]
    pub songids: Vec<(String, media::index::SongId)>,
}

fn ret(o: &mut Out, e: &Result<(), FftError>) {
    match e {
        Ok(()) => o.str("ret", "ok"),
        Err(e) => o.str("ret", &err(e)),
    };
}

fn v32(v: &[f64]) -> Vec<f32> {
    v.iter().map(|&x| x as f32).collect()
}
fn vv32(v: &[Vec<f64>]) -> Vec<Vec<f32>> {
    v.iter().map(|x| v32(x)).collect()
}
fn sc(c: &Cmd) -> f64 {
    if c.has("sc") {
        c.f("sc")
    } else {
        1e6
    }
}
fn e1(o: &mut Out, c: &Cmd, k: &str, v: &[f32]) {
    let s = sc(c);
    o.ints(k, &v.iter().map(|&x| fix(x as f64, s)).collect::<Vec<_>>());
}
fn e2(o: &mut Out, c: &Cmd, k: &str, v: &[Vec<f32>]) {
    let s = sc(c);
    o.intss(k, &v.iter().map(|r| r.iter().map(|&x| fix(x as f64, s)).collect()).collect::<Vec<_>>());
}
fn ec2(o: &mut Out, c: &Cmd, k: &str, v: &[Vec<Complex32>]) {
    let s = sc(c);
    o.intss(&format!("{k}r"), &v.iter().map(|r| r.iter().map(|x| fix(x.re as f64, s)).collect()).collect::<Vec<_>>());
    o.intss(&format!("{k}i"), &v.iter().map(|r| r.iter().map(|x| fix(x.im as f64, s)).collect()).collect::<Vec<_>>());
}

macro_rules! consts {
    ($n:expr, $m:ident, $($k:literal)*) => {
        match $n { $($k => $m!($k),)* _ => tool("size not instantiated") }
    };
}

/// real FFT forward / inverse.  `x` real input (r) or `xr/xi` spectrum (i)
pub fn rfft_op<T: RNum>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let r = c.s("r").to_string();
    let inv = r.starts_with('i');
    let pf = if c.has("pf") { c.f("pf") } else { 9.0 };
    let cf = Complex::new(T::of64(pf), T::of64(-pf));
    let pn = c.sd("po", "fresh").to_string();
    let kind = c.sd("kind", "scal").to_string();
    // planner taken out of the session so that the FFT object can be borrowed as well
    let mut planner = T::rp(&mut s.misc).remove(&pn).unwrap_or_default();
    let mut tmp = None;
    let facobj;
    let e: Result<(), FftError>;
    if kind == "fac" {
        // best-implementation factory object through the planner (object-safe path)
        facobj = new_fft_impl();
        let f: &dyn FftImpl<f32> = &*facobj;
        let mut pl = RfftPlanner::<f32>::new();
        if inv {
            let mut y: Vec<Complex32> = mkc(&c.fs("xr"), &c.fs("xi"));
            let mut out = vec![pf as f32; c.u("n")];
            e = pl.irfft(f, &mut y, &mut out);
            ret(o, &e);
            o.bool("same", same_input(c, &y) && out.iter().all(|v| *v == pf as f32 || (v.is_nan() && pf.is_nan())));
            emit_real(o, "y", &out, 1e6);
        } else {
            let mut x = v32(&c.fs("x"));
            let mut out = vec![Complex32::new(pf as f32, pf as f32); c.ud("ol", x.len() / 2 + 1)];
            e = pl.rfft(f, &mut x, &mut out);
            ret(o, &e);
            o.bool("same", x == v32(&c.fs("x")) && untouched(&out, pf, pf));
            emit_c(o, "y", &out, 1e6);
        }
        return;
    }
    let f = with_scal::<T>(s, c, &mut tmp);
    if inv {
        let mut y: Vec<Complex<T>> = mkc(&c.fs("xr"), &c.fs("xi"));
        let n = c.u("n");
        let mut out = vec![T::of64(pf); n];
        let mut scr = vec![cf; c.ud("sl", n / 2)];
        e = match r.as_str() {
            "iplan" => planner.irfft(f, &mut y, &mut out),
            "iplans" => planner.irfft_with_scratch(f, &mut y, &mut out, &mut scr),
            "itrait" => RealFftImpl::irfft(f, &mut y, &mut out),
            "itraits" => RealFftImpl::irfft_with_scratch(f, &mut y, &mut out, &mut scr),
            "ipacked" => irfft_packed(&mut planner, f, &mut y, &mut out, &mut scr),
            _ => tool("bad rfft route"),
        };
        ret(o, &e);
        o.bool("same", same_input(c, &y) && out.iter().all(|v| v.to64() == T::of64(pf).to64() || (v.to64().is_nan() && pf.is_nan())));
        emit_real(o, "y", &out, 1e6);
    } else {
        let mut x: Vec<T> = c.fs("x").iter().map(|&v| T::of64(v)).collect();
        let n = x.len();
        let mut out = vec![cf; c.ud("ol", n / 2 + 1)];
        let mut scr = vec![cf; c.ud("sl", n / 2)];
        e = match r.as_str() {
            "plan" => planner.rfft(f, &mut x, &mut out),
            "plans" => planner.rfft_with_scratch(f, &mut x, &mut out, &mut scr),
            "trait" => RealFftImpl::rfft(f, &mut x, &mut out),
            "traits" => RealFftImpl::rfft_with_scratch(f, &mut x, &mut out, &mut scr),
            "packed" => rfft_packed(&mut planner, f, &mut x, &mut out, &mut scr),
            _ => tool("bad rfft route"),
        };
        ret(o, &e);
        o.bool("same", x.iter().zip(c.fs("x")).all(|(a, b)| a.to64() == T::of64(b).to64()) && untouched(&out, pf, -pf));
        emit_c(o, "y", &out, 1e6);
    }
    if pn != "fresh" {
        T::rp(&mut s.misc).insert(pn, planner);
    }
}

/// const-generic real FFT (f32)
pub fn rfft_stack_op(c: &Cmd, o: &mut Out) {
    macro_rules! fwd {
        ($($n:literal $m:literal),*) => {{
            let x = v32(&c.fs("x"));
            match (x.len(), c.u("m")) {
                $(($n, $m) => { let mut i = [0f32; $n]; i.copy_from_slice(&x); let mut out = [Complex32::new(9.0, -9.0); $m];
                    let e = rfft_stack(&i, &mut out); ret(o, &e); emit_c(o, "y", &out, 1e6); })*
                _ => tool("rfft_stack size"),
            }
        }};
    }
    macro_rules! inv {
        ($($n:literal $m:literal),*) => {{
            let x: Vec<Complex32> = mkc(&c.fs("xr"), &c.fs("xi"));
            match (c.u("n"), x.len()) {
                $(($n, $m) => { let mut i = [Complex32::zero(); $m]; i.copy_from_slice(&x); let mut out = [9f32; $n];
                    let e = irfft_stack(&i, &mut out); ret(o, &e); emit_real(o, "y", &out, 1e6); })*
                _ => tool("irfft_stack size"),
            }
        }};
    }
    if c.s("r") == "stack" {
        fwd!(0 0, 0 1, 2 2, 2 1, 4 3, 4 2, 4 4, 8 5, 8 4, 16 9, 32 17, 64 33, 128 65, 256 129, 512 257, 1024 513, 6 4, 10 6, 12 7, 3 2, 5 3)
    } else {
        inv!(0 0, 0 1, 2 2, 2 1, 4 3, 4 2, 4 4, 8 5, 8 4, 16 9, 32 17, 64 33, 128 65, 256 129, 512 257, 1024 513, 6 4, 10 6, 12 7, 3 2, 5 3)
    }
}

/// planner tables of the real FFT, DST tables
pub fn rplanner_op<T: RNum>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let p = T::rp(&mut s.misc).entry(c.s("o").to_string()).or_default();
    let n = c.u("n");
    let t = match c.s("r") {
        "tw" => p.get_twiddles(n),
        "pack" => p.get_pack_twiddles(n),
        _ => tool("bad rplanner"),
    };
    o.str("ret", "ok").int("len", t.len() as i64);
    emit_c(o, "y", &t, 1e6);
}

pub fn dstplanner_op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    fn go<T: Num>(p: &mut dst::DstPlanner<T>, c: &Cmd, o: &mut Out) {
        let n = c.u("n");
        let t: Vec<T> = match c.s("r") {
            "dst2" => p.plan_dst2(n).to_vec(),
            "dst3" => p.plan_dst3(n).to_vec(),
            "dst4" => p.plan_dst4(n).to_vec(),
            "scratch" => p.scratch(n).to_vec(),
            _ => tool("bad dstplanner"),
        };
        o.str("ret", "ok").int("len", t.len() as i64);
        emit_real(o, "y", &t, 1e6);
    }
    let name = c.s("o").to_string();
    if c.s("p") == "64" {
        go(s.misc.dstp64.entry(name).or_insert_with(dst::DstPlanner::new), c, o)
    } else {
        go(s.misc.dstp32.entry(name).or_insert_with(dst::DstPlanner::new), c, o)
    }
}

#[cfg(feature = "std")]
pub fn twbuf_op(c: &Cmd, o: &mut Out) {
    let n = c.u("n");
    let t = TwiddleFactorBuffer::new(n);
    o.str("ret", "ok").int("len", t.twiddles.len() as i64).int("n", t.n as i64);
    emit_c(o, "y", &t.twiddles, 1e6);
    if n >= 2 {
        let g: Vec<Complex32> = (0..n).map(|k| t.get(k)).collect();
        emit_c(o, "g", &g, 1e6);
    } else {
        emit_c::<f32>(o, "g", &[], 1e6);
    }
}

/// DCT / DST / DHT plain forms and batches
fn trig(name: &str) -> Option<fn(&[f32]) -> Vec<f32>> {
    Some(match name {
        "dct1" => dct::dct1,
        "dct2" => dct::dct2,
        "dct3" => dct::dct3,
        "dct4" => dct::dct4,
        "dst1" => dst::dst1,
        "dst2" => dst::dst2,
        "dst3" => dst::dst3,
        "dst4" => dst::dst4,
        "dht" => hartley::dht,
        #[cfg(feature = "all")]
        "slow2" => dct::slow::dct2,
        #[cfg(feature = "all")]
        "slow3" => dct::slow::dct3,
        #[cfg(feature = "all")]
        "slow4" => dct::slow::dct4,
        _ => return None,
    })
}

pub fn trig_op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let r = c.s("r");
    let form = c.sd("form", "plain");
    match form {
        "plain" => {
            let x = v32(&c.fs("x"));
            let y = trig(r).unwrap_or_else(|| tool("bad trig"))(&x);
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "planned" => {
            // planned DCT-II: length `pl`, called with each vector of xs in turn
            let p = s.misc.dctp.entry(c.s("o").to_string()).or_default();
            let mut f = p.plan_dct2(c.u("pl"));
            let (mut rets, mut ys) = (vec![], vec![]);
            let ols: Vec<f64> = c.fs("ols");
            for (i, x) in c.fss("xs").iter().enumerate() {
                let mut x = v32(x);
                let ol = if i < ols.len() { ols[i] as usize } else { x.len() };
                let mut y = vec![9.0f32; ol];
                let e = f(&mut x, &mut y);
                rets.push(match &e {
                    Ok(()) => "ok".to_string(),
                    Err(e) => err(e),
                });
                ys.push(y);
            }
            o.str("ret", "ok").strs("rets", &rets);
            e2(o, c, "ys", &ys);
        }
        "stack" => {
            let x = v32(&c.fs("x"));
            macro_rules! one {
                ($k:literal) => {{
                    let mut i = [0f32; $k];
                    i.copy_from_slice(&x);
                    let mut y = [9f32; $k];
                    let e = match r {
                        "dct1" => dct::dct1_inplace_stack(&i, &mut y),
                        "dct2" => dct::dct2_inplace_stack(&i, &mut y),
                        "dst2" => dst::dst2_inplace_stack(&i, &mut y),
                        "dst2f" => dst::dst2_inplace_stack_fft(&i, &mut y),
                        "dst3" => dst::dst3_inplace_stack_fft(&i, &mut y),
                        "dst4" => dst::dst4_inplace_stack(&i, &mut y),
                        _ => tool("bad trig stack"),
                    };
                    ret(o, &e);
                    e1(o, c, "y", &y);
                }};
            }
            consts!(x.len(), one, 0 1 2 3 4 6 8 10 12 16 32 64 128 256 1024);
        }
        "batch" | "multi" => {
            let mut b = vv32(&c.fss("xs"));
            let m = form == "multi";
            match (r, m) {
                ("dct1", false) => dct::batch_i(&mut b),
                ("dct2", false) => dct::batch_ii(&mut b),
                ("dct3", false) => dct::batch_iii(&mut b),
                ("dct4", false) => dct::batch_iv(&mut b),
                ("dct1", true) => dct::multi_channel_i(&mut b),
                ("dct2", true) => dct::multi_channel_ii(&mut b),
                ("dct3", true) => dct::multi_channel_iii(&mut b),
                ("dct4", true) => dct::multi_channel_iv(&mut b),
                ("dst1", false) => dst::batch_i(&mut b),
                ("dst2", false) => dst::batch_ii(&mut b),
                ("dst3", false) => dst::batch_iii(&mut b),
                ("dst4", false) => dst::batch_iv(&mut b),
                ("dst1", true) => dst::multi_channel_i(&mut b),
                ("dst2", true) => dst::multi_channel_ii(&mut b),
                ("dst3", true) => dst::multi_channel_iii(&mut b),
                ("dst4", true) => dst::multi_channel_iv(&mut b),
                ("dht", false) => hartley::batch(&mut b),
                ("dht", true) => hartley::multi_channel(&mut b),
                _ => tool("bad trig batch"),
            }
            o.str("ret", "ok");
            e2(o, c, "ys", &b);
        }
        _ => tool("bad trig form"),
    }
}

/// 2-D / 3-D
pub fn nd_op<T: Num>(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let mut d = mkc::<T>(&c.fs("xr"), &c.fs("xi"));
    let pf = if c.has("pf") { c.f("pf") } else { 9.0 };
    let cf = Complex::new(T::of64(pf), T::of64(pf));
    let mut tmp = None;
    let f = with_scal::<T>(s, c, &mut tmp);
    let e = if c.s("r") == "2" {
        let mut col = vec![cf; c.u("scol")];
        ndfft::fft2d_inplace(&mut d, c.u("rows"), c.u("cols"), f, &mut col)
    } else {
        let (mut t, mut r, mut l) = (vec![cf; c.u("stube")], vec![cf; c.u("srow")], vec![cf; c.u("scol")]);
        let mut sc = ndfft::Fft3dScratch { tube: &mut t, row: &mut r, col: &mut l };
        ndfft::fft3d_inplace(&mut d, c.u("depth"), c.u("rows"), c.u("cols"), f, &mut sc)
    };
    ret(o, &e);
    if c.has("ks") {
        o.int("len", d.len() as i64);
        let sel: Vec<_> = c.fs("ks").iter().filter_map(|&k| d.get(k as usize).copied()).collect();
        emit_c(o, "y", &sel, 1e6);
    } else {
        emit_c(o, "y", &d, 1e6);
    }
}

/// flatten: nested data given as `;`-separated rows, planes separated by `/`
pub fn flatten_op(c: &Cmd, o: &mut Out) {
    let plane = |p: &str| -> Vec<Vec<Complex32>> {
        if p == "none" {
            return vec![];
        }
        p.split(';').map(|r| parse_list(r, 1.0).iter().map(|&v| Complex32::new(v as f32, -v as f32)).collect()).collect()
    };
    if c.s("r") == "2" {
        match ndfft::flatten_2d(plane(c.s("x"))) {
            Ok((v, a, b)) => {
                o.str("ret", "ok").ints("dims", &[a as i64, b as i64]);
                emit_c(o, "y", &v, 1.0);
            }
            Err(e) => {
                o.str("ret", &err(&e)).ints("dims", &[]).ints("yr", &[]).ints("yi", &[]);
            }
        }
    } else {
        let d: Vec<_> = if c.s("x") == "nil" { vec![] } else { c.s("x").split('/').map(plane).collect() };
        match ndfft::flatten_3d(d) {
            Ok((v, a, b, k)) => {
                o.str("ret", "ok").ints("dims", &[a as i64, b as i64, k as i64]);
                emit_c(o, "y", &v, 1.0);
            }
            Err(e) => {
                o.str("ret", &err(&e)).ints("dims", &[]).ints("yr", &[]).ints("yi", &[]);
            }
        }
    }
}

/// batch / parallel / frame STFT
pub fn stft_op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let x = v32(&c.fs("x"));
    let w = v32(&c.fs("w"));
    let hop = c.ud("hop", 0);
    let mut tmp = None;
    let f = with_scal::<f32>(s, c, &mut tmp);
    match c.s("r") {
        "stft" | "par" => {
            // fls: initial lengths of the frame buffers (pre-filled)
            let mut out: Vec<Vec<Complex32>> = c.fs("fls").iter().map(|&l| vec![Complex32::new(5.0, -3.0); l as usize]).collect();
            let e = match c.s("r") {
                "stft" => stft::stft(&x, &w, hop, &mut out, f),
                #[cfg(feature = "par")]
                "par" => stft::parallel(&x, &w, hop, &mut out, f),
                _ => tool("no parallel"),
            };
            ret(o, &e);
            ec2(o, c, "y", &out);
        }
        "frame" => {
            let mut out = vec![Complex32::new(5.0, -3.0); c.ud("fl", w.len())];
            let e = stft::frame(&x, &w, c.u("start"), &mut out, f);
            ret(o, &e);
            emit_c(o, "y", &out, sc(c));
        }
        _ => tool("bad stft route"),
    }
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn sst_new(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let x: &'static [f32] = leak(v32(&c.fs("x")));
    let w: &'static [f32] = leak(v32(&c.fs("w")));
    match stft::StftStream::new(x, w, c.u("hop"), leak(ScalarFftImpl::<f32>::default())) {
        Ok(st) => {
            s.misc.sst.insert(c.s("o").into(), st);
            o.str("ret", "ok");
        }
        Err(e) => {
            o.str("ret", &err(&e));
        }
    }
}
pub fn sst_next(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let st = s.misc.sst.get_mut(c.s("o")).unwrap_or_else(|| tool("no stream"));
    let mut out = vec![Complex32::new(5.0, -3.0); c.u("fl")];
    match st.next_frame(&mut out) {
        Ok(b) => o.str("ret", "ok").bool("more", b),
        Err(e) => o.str("ret", &err(&e)).bool("more", false),
    };
    emit_c(o, "y", &out, sc(c));
}

/// batch inverse STFT
pub fn istft_op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let w = v32(&c.fs("w"));
    let hop = c.ud("hop", 0);
    let pf = if c.has("pf") { c.f("pf") as f32 } else { 0.0 };
    let (fr, fi) = (c.fss("fr"), c.fss("fi"));
    let mut frames: Vec<Vec<Complex32>> = fr.iter().zip(&fi).map(|(a, b)| mkc(a, b)).collect();
    let mut out = vec![pf; c.ud("ol", 0)];
    let mut tmp = None;
    let f = with_scal::<f32>(s, c, &mut tmp);
    let e = match c.s("r") {
        "istft" => {
            let mut scr = vec![3.5f32; c.ud("sl", out.len())];
            stft::istft(&mut frames, &w, hop, &mut out, &mut scr, f)
        }
        #[cfg(feature = "par")]
        "par" => stft::inverse_parallel(&frames, &w, hop, &mut out, f),
        "frame" => stft::inverse_frame(&mut frames[0], &w, c.u("start"), &mut out, f),
        _ => tool("bad istft route"),
    };
    ret(o, &e);
    e1(o, c, "y", &out);
}

/// stft followed by istft (round trip) on the same object
pub fn rt_op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let x = v32(&c.fs("x"));
    let w = v32(&c.fs("w"));
    let hop = c.u("hop");
    let mut tmp = None;
    let f = with_scal::<f32>(s, c, &mut tmp);
    let mut fr = vec![vec![]; x.len().div_ceil(hop) + c.ud("extra", 0)];
    let mut out = vec![c.ud("pf", 0) as f32; x.len()];
    let e = (|| {
        match c.s("r") {
            "serial" => {
                stft::stft(&x, &w, hop, &mut fr, f)?;
                let mut scr = vec![0.0; out.len()];
                stft::istft(&mut fr, &w, hop, &mut out, &mut scr, f)
            }
            #[cfg(feature = "par")]
            "par" => {
                stft::parallel(&x, &w, hop, &mut fr, f)?;
                stft::inverse_parallel(&fr, &w, hop, &mut out, f)
            }
            "stream" => {
                let mut st = stft::StftStream::new(&x, &w, hop, f)?;
                let mut is = stft::IstftStream::new(w.len(), hop, w.clone(), f)?;
                let mut b = vec![Complex32::zero(); w.len()];
                let mut y: Vec<f32> = vec![];
                while st.next_frame(&mut b)? {
                    y.extend_from_slice(is.push_frame(&b)?);
                }
                y.extend_from_slice(is.flush());
                y.resize(x.len().max(y.len()), 0.0);
                out = y[..x.len()].to_vec();
                Ok(())
            }
            _ => tool("bad rt"),
        }
    })();
    ret(o, &e);
    e1(o, c, "y", &out);
}

pub fn ist_new(s: &mut Sess, c: &Cmd, o: &mut Out) {
    match stft::IstftStream::new(c.u("wl"), c.u("hop"), v32(&c.fs("w")), leak(ScalarFftImpl::<f32>::default())) {
        Ok(st) => {
            s.misc.ist.insert(c.s("o").into(), st);
            o.str("ret", "ok");
        }
        Err(e) => {
            o.str("ret", &err(&e));
        }
    }
}
pub fn ist_push(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let st = s.misc.ist.get_mut(c.s("o")).unwrap_or_else(|| tool("no istream"));
    let f: Vec<Complex32> = mkc(&c.fs("fr"), &c.fs("fi"));
    match st.push_frame(&f) {
        Ok(y) => {
            o.str("ret", "ok");
            let y = y.to_vec();
            e1(o, c, "y", &y);
        }
        Err(e) => {
            o.str("ret", &err(&e)).ints("y", &[]);
        }
    }
}
pub fn ist_flush(s: &mut Sess, c: &Cmd, o: &mut Out) {
    let st = s.misc.ist.get_mut(c.s("o")).unwrap_or_else(|| tool("no istream"));
    let y = st.flush().to_vec();
    o.str("ret", "ok");
    e1(o, c, "y", &y);
}

/// windows
pub fn window_op(c: &Cmd, o: &mut Out) {
    let n = c.u("n");
    let w = match c.s("r") {
        "hann" => window::hann(n),
        "hamming" => window::hamming(n),
        "blackman" => window::blackman(n),
        "kaiser" => window::kaiser(n, c.f("beta") as f32),
        "tukey" => window_more::tukey(n, c.f("alpha") as f32),
        "bartlett" => window_more::bartlett(n),
        "bohman" => window_more::bohman(n),
        "nuttall" => window_more::nuttall(n),
        "hann_s" | "hamming_s" | "blackman_s" => {
            macro_rules! one {
                ($k:literal) => {{
                    let mut b = [9f32; $k];
                    match c.s("r") {
                        "hann_s" => window::hann_inplace_stack(&mut b),
                        "hamming_s" => window::hamming_inplace_stack(&mut b),
                        _ => window::blackman_inplace_stack(&mut b),
                    }
                    b.to_vec()
                }};
            }
            consts!(n, one, 0 1 2 3 4 5 7 8 15 16 31 33 64 100)
        }
        _ => tool("bad window"),
    };
    if c.has("ks") {
        let ks: Vec<usize> = c.fs("ks").iter().map(|&v| v as usize).collect();
        let at = |i: usize| w.get(i).copied().unwrap_or(2000.0);
        o.str("ret", "ok").int("len", w.len() as i64);
        e1(o, c, "y", &ks.iter().map(|&i| at(i)).collect::<Vec<f32>>());
        e1(o, c, "ym", &ks.iter().map(|&i| at(n - 1 - i)).collect::<Vec<f32>>());
        e1(o, c, "yp", &ks.iter().map(|&i| at((n - i) % n)).collect::<Vec<f32>>());
        // NaN counts as beyond either end
        let lo = w.iter().fold(9f32, |a, &v| if v >= a { a } else { v });
        let hi = w.iter().fold(-9f32, |a, &v| if v <= a { a } else { v });
        let i = |v: f32| if v.is_nan() { 2_100_000_001 } else { (v as f64 * 1e6).round().clamp(-2e9, 2e9) as i64 };
        o.int("lo", i(lo)).int("hi", i(hi));
        return;
    }
    o.str("ret", "ok");
    e1(o, c, "y", &w);
}

/// wavelets
type Fw = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
type Iv = fn(&[f32], &[f32]) -> Vec<f32>;
fn wv(k: &str) -> (Fw, Iv) {
    match k {
        "haar" => (wavelet::haar_forward, wavelet::haar_inverse),
        "db2" => (wavelet::db2_forward, wavelet::db2_inverse),
        "db4" => (wavelet::db4_forward, wavelet::db4_inverse),
        "sym4" => (wavelet::sym4_forward, wavelet::sym4_inverse),
        "coif1" => (wavelet::coif1_forward, wavelet::coif1_inverse),
        _ => tool("bad wavelet"),
    }
}
pub fn wavelet_op(c: &Cmd, o: &mut Out) {
    let k = c.s("k");
    let (fw, iv) = wv(k);
    // long data by law, answered at sampled places
    let law = |g: usize, n: usize| -> Vec<f32> { (0..n).map(|i| (g * (i % 1009) % 1009 % 19) as f32 - 9.0).collect() };
    let at = |v: &[f32], ks: &[usize]| -> Vec<f32> { ks.iter().map(|&q| v.get(q).copied().unwrap_or(2000.0)).collect() };
    if c.has("ks") {
        let (n, ks) = (c.u("n"), c.fs("ks").iter().map(|&v| v as usize).collect::<Vec<usize>>());
        let x = law(c.u("ga"), n);
        o.str("ret", "ok");
        match c.s("r") {
            "ffwd" => {
                let (a, d) = fw(&x);
                e1(o, c, "a", &at(&a, &ks));
                e1(o, c, "d", &at(&d, &ks));
                o.ints("lens", &[a.len() as i64, d.len() as i64]);
            }
            r => {
                let y = match r {
                    "finv" => iv(&law(c.u("ga"), n / 2), &law(c.u("gb"), n / 2)),
                    "frt" => {
                        let (a, d) = fw(&x);
                        iv(&a, &d)
                    }
                    "fmrt" => {
                        let (a, d) = wavelet::haar_forward_multi(&x, c.u("lv"));
                        wavelet::haar_inverse_multi(&a, &d)
                    }
                    _ => tool("bad far wavelet"),
                };
                e1(o, c, "y", &at(&y, &ks));
                o.ints("lens", &[y.len() as i64]);
            }
        }
        return;
    }
    match c.s("r") {
        "fwd" => {
            let (a, d) = fw(&v32(&c.fs("x")));
            o.str("ret", "ok");
            e1(o, c, "a", &a);
            e1(o, c, "d", &d);
        }
        "inv" => {
            let y = iv(&v32(&c.fs("a")), &v32(&c.fs("d")));
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "rt" => {
            let (a, d) = fw(&v32(&c.fs("x")));
            let y = iv(&a, &d);
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "mfwd" => {
            let x = v32(&c.fs("x"));
            let l = c.u("lv");
            let (a, d) = if c.ud("gen", 0) == 1 {
                wavelet::multi_level_forward(&x, l, fw)
            } else {
                match k {
                    "haar" => wavelet::haar_forward_multi(&x, l),
                    "db2" => wavelet::db2_forward_multi(&x, l),
                    "db4" => wavelet::db4_forward_multi(&x, l),
                    "sym4" => wavelet::sym4_forward_multi(&x, l),
                    _ => wavelet::coif1_forward_multi(&x, l),
                }
            };
            o.str("ret", "ok");
            e1(o, c, "a", &a);
            e2(o, c, "ds", &d);
        }
        "mrt" => {
            let x = v32(&c.fs("x"));
            let l = c.u("lv");
            let y = if c.ud("gen", 0) == 1 {
                let (a, d) = wavelet::multi_level_forward(&x, l, fw);
                wavelet::multi_level_inverse(&a, &d, iv)
            } else {
                match k {
                    "haar" => {
                        let (a, d) = wavelet::haar_forward_multi(&x, l);
                        wavelet::haar_inverse_multi(&a, &d)
                    }
                    "db2" => {
                        let (a, d) = wavelet::db2_forward_multi(&x, l);
                        wavelet::db2_inverse_multi(&a, &d)
                    }
                    "db4" => {
                        let (a, d) = wavelet::db4_forward_multi(&x, l);
                        wavelet::db4_inverse_multi(&a, &d)
                    }
                    "sym4" => {
                        let (a, d) = wavelet::sym4_forward_multi(&x, l);
                        wavelet::sym4_inverse_multi(&a, &d)
                    }
                    _ => {
                        let (a, d) = wavelet::coif1_forward_multi(&x, l);
                        wavelet::coif1_inverse_multi(&a, &d)
                    }
                }
            };
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "minv" => {
            let y = wavelet::multi_level_inverse(&v32(&c.fs("a")), &vv32(&c.fss("ds")), iv);
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "bfwd" => {
            let xs = vv32(&c.fss("xs"));
            let (a, d) = match k {
                "haar" => wavelet::batch_forward(&xs),
                "db2" => wavelet::db2_forward_batch(&xs),
                _ => tool("no batch"),
            };
            o.str("ret", "ok");
            e2(o, c, "as", &a);
            e2(o, c, "dss", &d);
        }
        "binv" => {
            let (a, d) = (vv32(&c.fss("xa")), vv32(&c.fss("xdt")));
            let y = match k {
                "haar" => wavelet::batch_inverse(&a, &d),
                "db2" => wavelet::db2_inverse_batch(&a, &d),
                _ => tool("no batch"),
            };
            o.str("ret", "ok");
            e2(o, c, "ys", &y);
        }
        "mbfwd" => {
            let (a, d) = wavelet::multi_level_forward_batch(&vv32(&c.fss("xs")), c.u("lv"), fw);
            o.str("ret", "ok");
            e2(o, c, "as", &a);
            let cat: Vec<Vec<f32>> = d.into_iter().flatten().collect();
            e2(o, c, "dcat", &cat);
        }
        "mbrt" => {
            let (a, d) = wavelet::multi_level_forward_batch(&vv32(&c.fss("xs")), c.u("lv"), fw);
            let y = wavelet::multi_level_inverse_batch(&a, &d, iv);
            o.str("ret", "ok");
            e2(o, c, "ys", &y);
        }
        "sfwd" => {
            let x = v32(&c.fs("x"));
            macro_rules! one {
                ($k:literal) => {{
                    let mut i = [0f32; $k];
                    i.copy_from_slice(&x);
                    let (mut a, mut d) = (vec![9f32; $k / 2], vec![9f32; $k / 2]);
                    wavelet::haar_forward_inplace_stack(&i, &mut a, &mut d);
                    o.str("ret", "ok");
                    e1(o, c, "a", &a);
                    e1(o, c, "d", &d);
                }};
            }
            consts!(x.len(), one, 0 2 4 6 8 10 16 32);
        }
        "sinv" => {
            let (a, d) = (v32(&c.fs("a")), v32(&c.fs("d")));
            let mut y = vec![9f32; 2 * a.len()];
            wavelet::haar_inverse_inplace_stack::<4>(&a, &d, &mut y);
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        _ => tool("bad wavelet route"),
    }
}

pub fn goertzel_op(c: &Cmd, o: &mut Out) {
    match goertzel::goertzel_f32(&v32(&c.fs("x")), c.f("rate") as f32, c.f("freq") as f32) {
        Ok(v) => {
            o.str("ret", "ok");
            e1(o, c, "y", &[v]);
        }
        Err(e) => {
            o.str("ret", &err(&e)).ints("y", &[]);
        }
    }
}
/// chirp-z; w and a given in polar form: magnitude and angle in turns, or rectangular integers
pub fn czt_op(c: &Cmd, o: &mut Out) {
    let pt = |k: &str| -> (f32, f32) {
        let v = c.s(k);
        if let Some(t) = v.strip_prefix('t') {
            // t<j>/<n> : exp(2 pi i j/n)
            let (j, n) = t.split_once('/').unwrap();
            let (j, n): (f64, f64) = (j.parse().unwrap(), n.parse().unwrap());
            let a = 2.0 * std::f64::consts::PI * j / n;
            (a.cos() as f32, a.sin() as f32)
        } else {
            let p: Vec<f64> = v.split(',').map(|t| {
                let (a, b) = t.split_once('/').unwrap_or((t, "1"));
                a.parse::<f64>().unwrap() / b.parse::<f64>().unwrap()
            }).collect();
            (p[0] as f32, p[1] as f32)
        }
    };
    let y = czt::czt_f32(&v32(&c.fs("x")), c.u("m"), pt("w"), pt("a"));
    o.str("ret", "ok");
    e1(o, c, "yr", &y.iter().map(|z| z.0).collect::<Vec<_>>());
    e1(o, c, "yi", &y.iter().map(|z| z.1).collect::<Vec<_>>());
}
pub fn hilbert_op(c: &Cmd, o: &mut Out) {
    match hilbert::hilbert_analytic(&v32(&c.fs("x"))) {
        Ok(v) => {
            o.str("ret", "ok").int("len", v.len() as i64);
            if c.has("ks") {
                let sel: Vec<_> = c.fs("ks").iter().filter_map(|&k| v.get(k as usize).copied()).collect();
                emit_c(o, "y", &sel, 1e6);
            } else {
                emit_c(o, "y", &v, 1e6);
            }
        }
        Err(e) => {
            o.str("ret", &err(&e)).int("len", 0).ints("yr", &[]).ints("yi", &[]);
        }
    }
}

pub fn cepstrum_op(c: &Cmd, o: &mut Out) {
    match cepstrum::real_cepstrum(&v32(&c.fs("x"))) {
        Ok(v) => {
            o.str("ret", "ok");
            e1(o, c, "y", &v);
        }
        Err(e) => {
            o.str("ret", &err(&e)).ints("y", &[]);
        }
    }
}
pub fn mel_op(c: &Cmd, o: &mut Out) {
    let y = cepstrum::mel_filterbank(&v32(&c.fs("x")), c.f("rate") as f32, c.u("nf"));
    o.str("ret", "ok");
    e1(o, c, "y", &y);
}
pub fn mfcc_op(c: &Cmd, o: &mut Out) {
    let (r, nf, nc) = (c.f("rate") as f32, c.u("nf"), c.u("nc"));
    if c.has("xs") {
        let xs = vv32(&c.fss("xs"));
        match cepstrum::mfcc_batch(&xs, r, nf, nc) {
            Ok(v) => {
                o.str("ret", "ok");
                e2(o, c, "ys", &v);
            }
            Err(e) => {
                o.str("ret", &err(&e)).intss("ys", &[]);
            }
        }
    } else {
        match cepstrum::mfcc(&v32(&c.fs("x")), r, nf, nc) {
            Ok(v) => {
                o.str("ret", "ok");
                e1(o, c, "y", &v);
            }
            Err(e) => {
                o.str("ret", &err(&e)).ints("y", &[]);
            }
        }
    }
}

#[cfg(feature = "std")]
pub fn spectro_op(c: &Cmd, o: &mut Out) {
    use kofft::visual::spectrogram as sp;
    match c.s("r") {
        "mags" => match sp::stft_magnitudes(&v32(&c.fs("x")), c.u("wl"), c.u("hop")) {
            Ok((m, mx)) => {
                o.str("ret", "ok");
                e2(o, c, "y", &m);
                e1(o, c, "mx", &[mx]);
            }
            Err(e) => {
                o.str("ret", &err(&e)).intss("y", &[]).ints("mx", &[]);
            }
        },
        "db" => {
            let g = if c.has("sh") { 2f64.powi(c.f("sh") as i32) } else { 1.0 };
            let (mx, fl) = ((c.f("mx") * g) as f32, c.f("floor") as f32);
            let y: Vec<f32> = c.fs("x").iter().map(|&m| sp::magnitude_to_db((m * g) as f32, mx, fl)).collect();
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "scale" => {
            let g = if c.has("sh") { 2f64.powi(c.f("sh") as i32) } else { 1.0 };
            let (mx, dr) = ((c.f("mx") * g) as f32, c.f("dr") as f32);
            let y: Vec<f32> = c.fs("x").iter().map(|&m| sp::db_scale((m * g) as f32, mx, dr)).collect();
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        "color" => {
            let cm = sp::Colormap::parse(c.s("cm"));
            let (mut a, mut b) = (vec![], vec![]);
            for t in c.fs("x") {
                a.push(sp::map_color_u8(t as f32, cm).iter().map(|&v| v as i64).collect());
                b.push(sp::map_color_u16(t as f32, cm).iter().map(|&v| v as i64).collect());
            }
            o.str("ret", "ok").intss("u8", &a).intss("u16", &b);
        }
        "cmag" => {
            let cm = sp::Colormap::parse(c.s("cm"));
            let g = if c.has("sh") { 2f64.powi(c.f("sh") as i32) } else { 1.0 };
            let (mx, fl) = ((c.f("mx") * g) as f32, c.f("floor") as f32);
            let (mut a, mut b, mut t8) = (vec![], vec![], vec![]);
            for m in c.fs("x").iter().map(|m| m * g) {
                a.push(sp::color_from_magnitude_u8(m as f32, mx, fl, cm).iter().map(|&v| v as i64).collect());
                b.push(sp::color_from_magnitude_u16(m as f32, mx, fl, cm).iter().map(|&v| v as i64).collect());
                let db = sp::magnitude_to_db(m as f32, mx, fl);
                let t = (db - fl) / -fl;
                t8.push(sp::map_color_u8(t, cm).iter().map(|&v| v as i64).collect());
            }
            o.str("ret", "ok").intss("u8", &a).intss("u16", &b).intss("t8", &t8);
        }
        "parse" => {
            let name = c.s("hex");
            let bytes: Vec<u8> = (0..name.len() / 2).map(|i| u8::from_str_radix(&name[2 * i..2 * i + 2], 16).unwrap()).collect();
            o.str("ret", "ok").str("cmap", &format!("{:?}", sp::Colormap::parse(std::str::from_utf8(&bytes).unwrap())));
        }
        "bin" => {
            let mb = c.u("mb");
            let y: Vec<i64> = (0..=mb).map(|b| sp::map_bin_to_pixel(b, mb) as i64).collect();
            o.str("ret", "ok").ints("y", &y);
        }
        "logbins" => {
            let mb = c.u("mb");
            let v = v32(&c.fs("x"));
            let y = sp::log_scale_bins(&v, mb);
            o.str("ret", "ok");
            e1(o, c, "y", &y);
        }
        _ => tool("bad spectro"),
    }
}

/// layout conversions
pub fn layout_op(c: &Cmd, o: &mut Out) {
    use kofft::num::*;
    if c.has("wide") {
        // double precision: every component carries 3 * 2^-38 below its integer value
        let d = 3.0 * 2f64.powi(-38);
        let x: Vec<Complex64> = c.fs("xr").iter().zip(c.fs("xi")).map(|(a, b)| Complex::new(a + d, b + d)).collect();
        let n = x.len();
        let (mut re, mut im) = (vec![9f64; n], vec![9f64; n]);
        let mut back = vec![Complex64::new(8.0, 8.0); n];
        if c.s("r") == "sc" {
            let v = SplitComplex::copy_from_complex(&x, &mut re, &mut im);
            v.copy_to_complex(&mut back);
        } else {
            copy_from_complex(&x, &mut re, &mut im);
            copy_to_complex(&re, &im, &mut back);
        }
        let (yr, yi): (Vec<f64>, Vec<f64>) = back.iter().map(|z| (z.re, z.im)).unzip();
        o.str("ret", "ok");
        let mut lo = vec![];
        for (k, v) in [("re", &re), ("im", &im), ("yr", &yr), ("yi", &yi)] {
            lo.extend(v.iter().map(|t| ((t - t.round()) * 2f64.powi(40)).clamp(-1e9, 1e9) as i64));
            o.ints(k, &v.iter().map(|t| (t.round() * 1e6).clamp(-2e9, 2e9) as i64).collect::<Vec<i64>>());
        }
        o.ints("lo", &lo);
        return;
    }
    let x: Vec<Complex32> = mkc(&c.fs("xr"), &c.fs("xi"));
    let n = x.len();
    let (mut re, mut im) = (vec![9f32; n], vec![9f32; n]);
    let mut back = vec![Complex32::new(8.0, 8.0); n];
    match c.s("r") {
        "copy" => {
            copy_from_complex(&x, &mut re, &mut im);
            copy_to_complex(&re, &im, &mut back);
        }
        "sc" => {
            let v = SplitComplex::copy_from_complex(&x, &mut re, &mut im);
            v.copy_to_complex(&mut back);
            let _ = (v.len(), v.is_empty());
        }
        "c32" => {
            let v = complex32_to_split(&x, &mut re, &mut im);
            split_to_complex32(&v, &mut back);
        }
        "cv" => {
            let v = ComplexVec::from_complex_vec(&x);
            re = v.as_slices().0.to_vec();
            im = v.as_slices().1.to_vec();
            back = v.to_complex_vec();
        }
        "from" => {
            let mut v: ComplexVec = x.clone().into();
            re = v.as_mut_slices().0.to_vec();
            im = v.as_mut_slices().1.to_vec();
            back = v.into();
        }
        _ => tool("bad layout"),
    }
    o.str("ret", "ok");
    e1(o, c, "re", &re);
    e1(o, c, "im", &im);
    emit_c(o, "y", &back, sc(c));
}

#[cfg(feature = "std")]
pub mod song {
    use super::*;
    use std::path::PathBuf;
    /// Reference identifiers of every path of the universe (fresh index, distinct contents).
    pub fn setup(s: &mut Sess, c: &Cmd, o: &mut Out) {
        let root = PathBuf::from(c.s("root"));
        let mut ix = media::index::SongIndex::new();
        s.misc.songids.clear();
        for (i, p) in c.s("paths").split(',').enumerate() {
            let f = at(&root, p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, format!("reference {i}")).unwrap();
            let id = ix.index_song(&f).unwrap_or_else(|_| tool("reference index"));
            std::fs::remove_file(&f).unwrap();
            s.misc.songids.push((p.to_string(), id));
        }
        s.misc.song.clear();
        o.str("ret", "ok");
    }
    /// `%ff` stands for a byte that is not text
    fn at(root: &std::path::Path, p: &str) -> PathBuf {
        use std::os::unix::ffi::OsStringExt;
        let mut b = Vec::new();
        for (i, part) in p.split("%ff").enumerate() {
            if i > 0 {
                b.push(0xff);
            }
            b.extend_from_slice(part.as_bytes());
        }
        root.join(std::ffi::OsString::from_vec(b))
    }
    fn clear(f: &std::path::Path) {
        match std::fs::symlink_metadata(f) {
            Ok(m) if m.is_dir() => std::fs::remove_dir(f).unwrap(),
            Ok(_) => std::fs::remove_file(f).unwrap(),
            Err(_) => {}
        }
    }
    fn name(s: &Sess, id: &media::index::SongId) -> String {
        s.misc.songids.iter().find(|(_, i)| i == id).map(|(p, _)| p.clone()).unwrap_or_else(|| "?".into())
    }
    pub fn op(s: &mut Sess, c: &Cmd, o: &mut Out) {
        let root = PathBuf::from(c.s("root"));
        let f = at(&root, c.s("path"));
        match c.op.as_str() {
            // content: `len` bytes, all alike except the byte `b` at position `pos`
            "song_write" => {
                clear(&f);
                let len = c.u("len");
                let mut b = vec![c.ud("fill", 120) as u8; len];
                if len > 0 {
                    b[c.u("pos")] = c.s("b").as_bytes()[0];
                }
                // the content sits at the path itself, or elsewhere and the path leads to it
                static STORE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let via = if c.has("via") { c.s("via") } else { "file" };
                if via == "file" {
                    std::fs::write(&f, b).unwrap();
                } else {
                    let k = STORE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let g = root.join(format!("store{k}"));
                    std::fs::write(&g, b).unwrap();
                    match via {
                        "link" => std::os::unix::fs::symlink(&g, &f).unwrap(),
                        "hard" => std::fs::hard_link(&g, &f).unwrap(),
                        "rel" => {
                            let up = "../".repeat(f.parent().unwrap().strip_prefix(&root).unwrap().components().count());
                            std::os::unix::fs::symlink(format!("{up}store{k}"), &f).unwrap()
                        }
                        _ => tool("bad way"),
                    }
                }
                o.str("ret", "ok");
            }
            "song_remove" => {
                clear(&f);
                match c.s("how") {
                    "gone" => {}
                    "dir" => std::fs::create_dir(&f).unwrap(),
                    "dangling" => std::os::unix::fs::symlink(root.join("nowhere"), &f).unwrap(),
                    _ => tool("bad removal"),
                }
                o.str("ret", "ok");
            }
            // the file moves to another path
            "song_move" => {
                let g = at(&root, c.s("to"));
                clear(&g);
                match std::fs::read_link(&f) {
                    // a relative link is made anew, leading to the same file
                    Ok(t) if t.is_relative() => {
                        let t = std::fs::canonicalize(&f).unwrap();
                        std::fs::remove_file(&f).unwrap();
                        std::os::unix::fs::symlink(t, &g).unwrap();
                    }
                    _ => std::fs::rename(&f, &g).unwrap(),
                }
                o.str("ret", "ok");
            }
            _ => {
                let mut ix = s.misc.song.remove(c.s("o")).unwrap_or_default();
                let r = match c.op.as_str() {
                    "song_index" => ix.index_song(&f),
                    "song_identify" => ix.identify(&f),
                    _ => tool("bad song op"),
                };
                s.misc.song.insert(c.s("o").into(), ix);
                match r {
                    Ok(id) => {
                        let n = name(s, &id);
                        o.str("ret", "ok").str("song", &n);
                    }
                    Err(_) => {
                        o.str("ret", "io").str("song", "-");
                    }
                }
            }
        }
    }
}
