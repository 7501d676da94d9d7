//! Parallel settings and concurrent schedules.
use crate::fftops::*;
use crate::io::*;
use kofft::fft::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub fn op(s: &mut Sess, c: &Cmd, o: &mut Out) {
    match c.op.as_str() {
        "set" => {
            let v = c.u("v");
            match c.s("k") {
                "threshold" => set_parallel_fft_threshold(v),
                "l1" => set_parallel_fft_l1_cache(v),
                "percore" => set_parallel_fft_per_core_work(v),
                "threads" => set_parallel_fft_threads(v),
                "block" => set_parallel_fft_block_size(v),
                _ => tool("bad set"),
            }
            o.str("ret", "ok");
        }
        "threshold" => {
            #[cfg(feature = "it")]
            let v = __test_parallel_fft_threshold();
            #[cfg(not(feature = "it"))]
            let v: usize = tool("threshold needs the it feature");
            o.str("ret", "ok").int("v", v.min(2_000_000_000) as i64);
        }
        // concurrent transforms while a toggler keeps changing the overrides
        "storm" => {
            let stop = Arc::new(AtomicBool::new(false));
            let st = stop.clone();
            let seed = c.u("seed");
            let tog = std::thread::spawn(move || {
                let mut z = seed as u64 | 1;
                while !st.load(Ordering::Relaxed) {
                    z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let v = (z >> 33) as usize;
                    match v % 5 {
                        0 => set_parallel_fft_threshold([0, 1, 2, 7, 64, 4096][(v / 5) % 6]),
                        1 => set_parallel_fft_threads((v / 5) % 5),
                        2 => set_parallel_fft_block_size((v / 5) % 300),
                        3 => set_parallel_fft_l1_cache((v / 5) % 70000),
                        _ => set_parallel_fft_per_core_work((v / 5) % 9000),
                    }
                    std::thread::yield_now();
                }
            });
            let re = c.fss("xr");
            let im = c.fss("xi");
            let routes: Vec<String> = c.s("rs").split(',').map(|x| x.to_string()).collect();
            let reps = c.ud("reps", 3);
            let mut hs = vec![];
            for i in 0..re.len() {
                let (a, b, r) = (re[i].clone(), im[i].clone(), routes[i].clone());
                hs.push(std::thread::spawn(move || {
                    let f = ScalarFftImpl::<f32>::default();
                    let g = ScalarFftImpl::<f64>::default();
                    let mut y: Vec<Complex32> = vec![];
                    let mut e = Ok(());
                    for _ in 0..reps {
                        y = mkc(&a, &b);
                        e = match r.as_str() {
                            "fft" => f.fft(&mut y),
                            "ifft" => f.ifft(&mut y),
                            "stockham" => f.stockham_fft(&mut y),
                            "par" => fft_parallel(&mut y),
                            "ipar" => ifft_parallel(&mut y),
                            "ifft64" => {
                                let mut z: Vec<Complex64> = mkc(&a, &b);
                                let e = g.ifft(&mut z);
                                y = z.iter().map(|c| Complex32::new(c.re as f32, c.im as f32)).collect();
                                e
                            }
                            _ => tool("bad storm route"),
                        };
                    }
                    (e, y)
                }));
            }
            let (mut rets, mut yr, mut yi) = (vec![], vec![], vec![]);
            for h in hs {
                match h.join() {
                    Ok((e, y)) => {
                        rets.push(match e {
                            Ok(()) => "ok".to_string(),
                            Err(e) => err(&e),
                        });
                        yr.push(y.iter().map(|z| fix(z.re as f64, 1e6)).collect());
                        yi.push(y.iter().map(|z| fix(z.im as f64, 1e6)).collect());
                    }
                    Err(_) => {
                        rets.push("panic".into());
                        yr.push(vec![]);
                        yi.push(vec![]);
                    }
                }
            }
            stop.store(true, Ordering::Relaxed);
            let _ = tog.join();
            o.str("ret", "ok").strs("rets", &rets).intss("yr", &yr).intss("yi", &yi);
        }
        _ => tool("bad par op"),
    }
    let _ = s;
}
