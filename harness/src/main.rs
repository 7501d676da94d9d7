mod fftops;
mod heap;
mod io;
mod misc;
#[cfg(feature = "par")]
mod par;
#[cfg(feature = "xt")]
mod xt;

use fftops::*;
use io::*;
use std::io::{BufRead, Write};

fn dispatch(s: &mut Sess, c: &Cmd, o: &mut Out) {
    macro_rules! byp {
        ($f:ident) => {
            match c.sd("p", "32") {
                "32" => $f::<f32>(s, c, o),
                "64" => $f::<f64>(s, c, o),
                "w" => $f::<W>(s, c, o),
                _ => tool("bad precision"),
            }
        };
    }
    match c.op.as_str() {
        "c" => byp!(complex_op),
        "batch" => byp!(batch_op),
        "planner" => byp!(planner_op),
        "nd" => {
            use misc::nd_op;
            byp!(nd_op)
        }
        "rfft" => {
            if c.s("p") == "64" {
                misc::rfft_op::<f64>(s, c, o)
            } else {
                misc::rfft_op::<f32>(s, c, o)
            }
        }
        "rplanner" => {
            if c.s("p") == "64" {
                misc::rplanner_op::<f64>(s, c, o)
            } else {
                misc::rplanner_op::<f32>(s, c, o)
            }
        }
        "rstack" => misc::rfft_stack_op(c, o),
        "dstplanner" => misc::dstplanner_op(s, c, o),
        #[cfg(feature = "std")]
        "twbuf" => misc::twbuf_op(c, o),
        "trig" => misc::trig_op(s, c, o),
        "flatten" => misc::flatten_op(c, o),
        "stft" => misc::stft_op(s, c, o),
        "sst_new" => misc::sst_new(s, c, o),
        "sst_next" => misc::sst_next(s, c, o),
        "istft" => misc::istft_op(s, c, o),
        "rt" => misc::rt_op(s, c, o),
        "ist_new" => misc::ist_new(s, c, o),
        "ist_push" => misc::ist_push(s, c, o),
        "ist_flush" => misc::ist_flush(s, c, o),
        "window" => misc::window_op(c, o),
        "wavelet" => misc::wavelet_op(c, o),
        "goertzel" => misc::goertzel_op(c, o),
        "czt" => misc::czt_op(c, o),
        "hilbert" => misc::hilbert_op(c, o),
        "cepstrum" => misc::cepstrum_op(c, o),
        "mel" => misc::mel_op(c, o),
        "mfcc" => misc::mfcc_op(c, o),
        #[cfg(feature = "std")]
        "spectro" => misc::spectro_op(c, o),
        "layout" => misc::layout_op(c, o),
        #[cfg(feature = "std")]
        "song_setup" => misc::song::setup(s, c, o),
        #[cfg(feature = "std")]
        "song_write" | "song_remove" | "song_move" | "song_index" | "song_identify" => misc::song::op(s, c, o),
        #[cfg(feature = "par")]
        "set" | "threshold" | "storm" => par::op(s, c, o),
        #[cfg(feature = "xt")]
        "xtask" => xt::op(c, o),
        _ => tool(&format!("unknown op {}", c.op)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut sess = Sess::default();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let Some(c) = Cmd::parse(&line) else { continue };
        if c.op == "reset" {
            sess = Sess::default();
            continue;
        }
        let mut o = Out::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&mut sess, &c, &mut o)));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            o = Out::new();
            o.str("ret", "panic").str("msg", &m);
        }
        writeln!(out, "{}\t{{{}}}", c.id, o.s).unwrap();
        out.flush().unwrap();
    }
}
