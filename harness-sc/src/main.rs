//! Drives the library behind the sanity-check program.  One command per line:
//!   read PATH FACTOR                     -> samples scaled by FACTOR * 10^4
//!   cols WIN MODE CMAP RANGE DEN v,v,..  -> bounds of the 16-bit colours of every column, lowest bin first
//!   save PATH DEPTH W H p,p,..           -> writes a PNG
//!   svg PATH W H p,p,..                  -> writes an SVG
use image::{ImageBuffer, Rgb};
use kofft::visual::spectrogram::{color_from_magnitude_u16, log_scale_bins, stft_magnitudes, Colormap};
use sanity_check::{read_audio, save_png, save_svg, PngDepth};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn nums(s: &str) -> Vec<i64> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|t| t.parse().unwrap()).collect()
}
fn join<T: ToString>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn img(w: u32, h: u32, p: &str) -> ImageBuffer<Rgb<u16>, Vec<u16>> {
    ImageBuffer::from_raw(w, h, nums(p).into_iter().map(|v| v as u16).collect()).unwrap()
}
fn run(t: &[&str]) -> String {
    match t[0] {
        "read" => match read_audio(Path::new(t[1])) {
            Ok((y, sr)) => {
                let f: f64 = t[2].parse::<f64>().unwrap() * 1e4;
                let v: Vec<i64> = y
                    .iter()
                    .map(|s| if s.is_finite() { ((*s as f64) * f).round().clamp(-2e9, 2e9) as i64 } else { 2_000_000_001 })
                    .collect();
                format!("{{\"ret\":\"ok\",\"rate\":{sr},\"y\":[{}]}}", join(&v))
            }
            Err(_) => "{\"ret\":\"err\"}".into(),
        },
        "cols" => {
            let win: usize = t[1].parse().unwrap();
            let dr: f32 = t[4].parse().unwrap();
            let den: f32 = t[5].parse().unwrap();
            let x: Vec<f32> = nums(t[6]).into_iter().map(|v| v as f32 / den).collect();
            match stft_magnitudes(&x, win, win / 2) {
                Ok((mags, mx)) => {
                    let h = win / 2;
                    let map = Colormap::parse(t[3]);
                    let cols: Vec<String> = mags
                        .iter()
                        .map(|f| {
                            let bins = if t[2] == "log" { log_scale_bins(&f[..h], h - 1) } else { f.clone() };
                            let c: Vec<String> = bins
                                .iter()
                                .map(|m| {
                                    // what rounding of the samples may make of the colour
                                    let d = mx * 2e-6;
                                    let c: Vec<[u16; 3]> = [*m - d - *m * 1e-5, *m - d / 2.0, *m, *m + d / 2.0, *m + d + *m * 1e-5]
                                        .iter()
                                        .map(|z| color_from_magnitude_u16(z.max(0.0), mx, -dr, map))
                                        .collect();
                                    let lo: Vec<u16> = (0..3).map(|q| c.iter().map(|z| z[q]).min().unwrap().saturating_sub(257)).collect();
                                    let hi: Vec<u16> = (0..3).map(|q| c.iter().map(|z| z[q]).max().unwrap().saturating_add(257)).collect();
                                    format!("[{},{}]", join(&lo), join(&hi))
                                })
                                .collect();
                            format!("[{}]", c.join(","))
                        })
                        .collect();
                    format!("{{\"ret\":\"ok\",\"cols\":[{}]}}", cols.join(","))
                }
                Err(e) => format!("{{\"ret\":\"{e:?}\"}}"),
            }
        }
        "save" | "svg" => {
            let o = if t[0] == "save" { 1 } else { 0 };
            let im = img(t[2 + o].parse().unwrap(), t[3 + o].parse().unwrap(), t[4 + o]);
            let r = if o == 1 {
                save_png(&im, Path::new(t[1]), if t[2] == "8" { PngDepth::Eight } else { PngDepth::Sixteen })
            } else {
                save_svg(&im, Path::new(t[1]))
            };
            format!("{{\"ret\":\"{}\"}}", if r.is_ok() { "ok" } else { "err" })
        }
        _ => std::process::exit(3),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let t: Vec<&str> = l.split(' ').collect();
        let r = catch_unwind(AssertUnwindSafe(|| run(&t))).unwrap_or_else(|_| "{\"ret\":\"panic\"}".into());
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
