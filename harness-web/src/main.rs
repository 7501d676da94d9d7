//! Drives the browser spectrogram's library natively.  One command per line:
//!   palette NAME K          -> the core's colours at 0/K .. K/K
//!   reset | cmap NAME | frame N p:v,p:v,..   -> streaming state; answers the row
//!   stft WIN HOP v,v,..     -> the wrapper's and the core's magnitudes
//!   split re im | dct2 v | haar v            -> the wrapper's and the core's values
//!   colour K                -> every exported map and the conversions next to the core's
use kofft::visual::spectrogram as core;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use web_spectrogram as web;

fn nums(s: &str) -> Vec<f32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|t| t.parse().unwrap()).collect()
}
fn join<T: ToString>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn fx(v: &[f32]) -> String {
    join(&v.iter().map(|x| if x.is_finite() { (*x as f64 * 1e5).round().clamp(-2.0e9, 2.0e9) as i64 } else { 2_100_000_001 }).collect::<Vec<_>>())
}
const MAPS: [(web::Colormap, core::Colormap); 7] = [
    (web::Colormap::Fire, core::Colormap::Fire),
    (web::Colormap::Legacy, core::Colormap::Legacy),
    (web::Colormap::Gray, core::Colormap::Gray),
    (web::Colormap::Viridis, core::Colormap::Viridis),
    (web::Colormap::Plasma, core::Colormap::Plasma),
    (web::Colormap::Inferno, core::Colormap::Inferno),
    (web::Colormap::Rainbow, core::Colormap::Rainbow),
];
fn run(t: &[&str]) -> String {
    match t[0] {
        "palette" => {
            let k: usize = t[2].parse().unwrap();
            let m = core::Colormap::parse(t[1]);
            let c: Vec<String> = (0..=k).map(|i| format!("[{}]", join(&core::map_color_u8(i as f32 / k as f32, m)))).collect();
            format!("{{\"ret\":\"ok\",\"pal\":[{}]}}", c.join(","))
        }
        "reset" => {
            web::reset_state();
            "{\"ret\":\"ok\"}".into()
        }
        "cmap" => {
            web::set_colormap(t[1]);
            "{\"ret\":\"ok\"}".into()
        }
        "frame" => {
            let mut x = vec![0.0f32; t[1].parse().unwrap()];
            if t[2] != "-" {
                for i in t[2].split(',') {
                    let (p, v) = i.split_once(':').unwrap();
                    x[p.parse::<usize>().unwrap()] = v.parse().unwrap();
                }
            }
            format!("{{\"ret\":\"ok\",\"row\":[{}]}}", join(&web::compute_frame(&x)))
        }
        "stft" => {
            let (win, hop): (usize, usize) = (t[1].parse().unwrap(), t[2].parse().unwrap());
            let x = nums(t[3]);
            let (m, mx) = match core::stft_magnitudes(&x, win, hop) {
                Ok(r) => r,
                // the wrapper must not answer either
                Err(_) => {
                    let r = catch_unwind(|| web::stft_magnitudes(&x, win, hop).is_ok());
                    return format!("{{\"ret\":\"refused\",\"answered\":{}}}", matches!(r, Ok(true)));
                }
            };
            let w = web::stft_magnitudes(&x, win, hop).ok().unwrap();
            let frames: Vec<String> = m.iter().map(|f| format!("[{}]", fx(f))).collect();
            format!("{{\"ret\":\"ok\",\"core\":[{}],\"coremax\":{},\"flat\":[{}],\"w\":{},\"h\":{},\"max\":{}}}",
                frames.join(","), fx(&[mx]), fx(&w.mags()), w.width(), w.height(), fx(&[w.max_mag()]))
        }
        "split" => {
            let (re, im) = (nums(t[1]), nums(t[2]));
            let (mut a, mut b) = (re.clone(), im.clone());
            let want = re.len() == im.len() && kofft::fft::fft_split(&mut a, &mut b).is_ok();
            if !want {
                let r = catch_unwind(|| web::fft_split(&re, &im).is_ok());
                return format!("{{\"ret\":\"refused\",\"answered\":{}}}", matches!(r, Ok(true)));
            }
            let r = web::fft_split(&re, &im).ok().unwrap();
            format!("{{\"ret\":\"ok\",\"core\":[[{}],[{}]],\"got\":[[{}],[{}]]}}", fx(&a), fx(&b), fx(&r.re()), fx(&r.im()))
        }
        "dct2" => {
            let x = nums(t[1]);
            format!("{{\"ret\":\"ok\",\"core\":[[{}]],\"got\":[[{}]]}}", fx(&kofft::dct::dct2(&x)), fx(&web::dct2(&x)))
        }
        "haar" => {
            let x = nums(t[1]);
            let (a, d) = kofft::wavelet::haar_forward(&x);
            let b = kofft::wavelet::haar_inverse(&a, &d);
            let r = web::haar_forward(&x);
            let z = web::haar_inverse(&r.avg(), &r.diff());
            format!("{{\"ret\":\"ok\",\"core\":[[{}],[{}],[{}]],\"got\":[[{}],[{}],[{}]]}}", fx(&a), fx(&d), fx(&b), fx(&r.avg()), fx(&r.diff()), fx(&z))
        }
        "colour" => {
            let v = nums(t[1]);
            let (t0, mag, mx, fl) = (v[0], v[1], v[2], v[3]);
            let (mut c, mut g) = (vec![], vec![]);
            for (w, k) in MAPS {
                c.push(join(&core::map_color_u8(t0, k)));
                g.push(join(&web::map_color_u8(t0, w)));
                c.push(join(&core::color_from_magnitude_u8(mag, mx, fl, k)));
                g.push(join(&web::color_from_magnitude_u8(mag, mx, fl, w)));
            }
            format!("{{\"ret\":\"ok\",\"core\":[[{}],[{}]],\"got\":[[{}],[{}]]}}",
                c.join(","), fx(&[core::magnitude_to_db(mag, mx, fl), core::db_scale(mag, mx, -fl)]),
                g.join(","), fx(&[web::magnitude_to_db(mag, mx, fl), web::db_scale(mag, mx, -fl)]))
        }
        _ => std::process::exit(3),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let t: Vec<&str> = l.split(' ').collect();
        let r = catch_unwind(AssertUnwindSafe(|| run(&t))).unwrap_or_else(|_| "{\"ret\":\"panic\"}".into());
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
