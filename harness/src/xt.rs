//! Build helper.
use crate::io::*;
use xtask::*;

fn cfg_out(o: &mut Out, cfg: &BuildConfig) {
    o.str("ret", "ok")
        .strs("features", &cfg.features)
        .str("rustflags", cfg.rustflags.as_deref().unwrap_or("-"))
        .str("example", &cfg.example);
    match cfg.features_arg() {
        None => o.str("farg", "-"),
        Some(a) => o.str("farg", &a),
    };
    let cmds = [
        ("build", build_command(cfg)),
        ("test", test_command(cfg)),
        ("clippy", clippy_command()),
        ("fmt", fmt_command()),
        ("benchmark", benchmark_command(cfg)),
        ("bench_libs", bench_libs_command(cfg)),
        ("update_bench_readme", update_bench_readme_command(cfg)),
        ("sanity", sanity_command("in file.wav", "out.png")),
        ("web", web_spectrogram_command()),
    ];
    for (k, c) in cmds {
        let a: Vec<String> = c.get_args().map(|s| s.to_string_lossy().into_owned()).collect();
        let e: Vec<String> = c
            .get_envs()
            .map(|(k, v)| format!("{}={}", k.to_string_lossy(), v.map(|v| v.to_string_lossy().into_owned()).unwrap_or_default()))
            .collect();
        o.str(&format!("{k}_prog"), &c.get_program().to_string_lossy());
        o.strs(&format!("{k}_args"), &a);
        o.strs(&format!("{k}_env"), &e);
    }
}

/// `%XX` stands for a byte, `%` alone for the empty string
fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if i + 2 < b.len() {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or_else(|_| tool("bad escape")));
                i += 3;
                continue;
            }
            if b.len() != 1 {
                tool("bad escape");
            }
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8(out).unwrap_or_else(|_| tool("bad text"))
}

extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}
/// Restrict this thread to its first `n` processors while `f` runs.
fn with_cpus<R>(n: usize, f: impl FnOnce() -> R) -> R {
    let mut all = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, all.as_mut_ptr()) } < 0 {
        tool("affinity");
    }
    let mut some = [0u64; 16];
    let mut k = 0;
    for i in 0..1024 {
        if all[i / 64] >> (i % 64) & 1 == 1 && k < n {
            some[i / 64] |= 1 << (i % 64);
            k += 1;
        }
    }
    if unsafe { sched_setaffinity(0, 128, some.as_ptr()) } != 0 {
        tool("affinity");
    }
    let r = f();
    unsafe { sched_setaffinity(0, 128, all.as_ptr()) };
    r
}

pub fn op(c: &Cmd, o: &mut Out) {
    match c.s("r") {
        "compute" => {
            let cfg = compute_config(&dec(c.s("arch")), &dec(c.s("flags")), c.u("np"), &dec(c.s("extra")));
            cfg_out(o, &cfg);
        }
        "detect" => {
            with_cpus(c.u("np"), || {
                let np = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
                let cfg = detect_config();
                cfg_out(o, &cfg);
                o.int("np", np as i64);
            });
        }
        _ => tool("bad xtask"),
    }
}
