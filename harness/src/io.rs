//! Script parsing and result encoding.
use std::collections::BTreeMap;
use std::fmt::Write;

pub const NANV: i64 = 2_100_000_001;
pub const INFV: i64 = 2_100_000_002;
pub const BIGV: i64 = 2_100_000_003;
const LIM: f64 = 2.0e9;

thread_local! {
    /// inputs of the current command are scaled by this power of two, outputs by its inverse
    static AMP: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
    /// scale of window lists (`wamp`), and of the outputs when given (`oamp`)
    static WAMP: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
    static OAMP: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
}

/// One script line: `id op k=v ...`
pub struct Cmd {
    pub id: String,
    pub op: String,
    kv: BTreeMap<String, String>,
}

impl Cmd {
    pub fn parse(line: &str) -> Option<Cmd> {
        let mut it = line.split_whitespace();
        let id = it.next()?.to_string();
        let op = it.next()?.to_string();
        let mut kv = BTreeMap::new();
        for t in it {
            let (k, v) = t.split_once('=').unwrap_or((t, ""));
            kv.insert(k.to_string(), v.to_string());
        }
        let amp = kv.get("amp").map(|v: &String| 2f64.powi(v.parse().unwrap())).unwrap_or(1.0);
        AMP.with(|a| a.set(amp));
        let get = |k: &str, d: f64| kv.get(k).map(|v: &String| 2f64.powi(v.parse().unwrap())).unwrap_or(d);
        WAMP.with(|a| a.set(get("wamp", 1.0)));
        OAMP.with(|a| a.set(get("oamp", amp)));
        Some(Cmd { id, op, kv })
    }
    pub fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
    pub fn s(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn sd<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or(d)
    }
    pub fn u(&self, k: &str) -> usize {
        self.s(k).parse().unwrap_or_else(|_| tool(&format!("bad usize {}={} in {} {}", k, self.s(k), self.id, self.op)))
    }
    pub fn ud(&self, k: &str, d: usize) -> usize {
        if self.has(k) { self.u(k) } else { d }
    }
    /// real number, scaled by 1/xd (default 1) when given as an integer `k`, denominator `k_d`
    pub fn f(&self, k: &str) -> f64 {
        let v = self.s(k);
        match v {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            _ => {
                let (a, b) = v.split_once('/').unwrap_or((v, "1"));
                let a: f64 = a.parse().unwrap_or_else(|_| tool(&format!("bad real {}={}", k, v)));
                let b: f64 = b.parse().unwrap();
                a / b
            }
        }
    }
    /// list of numbers `a,b,c` divided by `xd`; `*` runs are `v*count`
    pub fn fs(&self, k: &str) -> Vec<f64> {
        let d = if self.has("xd") { self.f("xd") } else { 1.0 };
        let d = if matches!(k, "x" | "xr" | "xi" | "xs" | "fr" | "fi") { d / AMP.with(|a| a.get()) } else { d };
        let d = if k == "w" { d / WAMP.with(|a| a.get()) } else { d };
        parse_list(self.s(k), d)
    }
    /// list of lists separated by `;`
    pub fn fss(&self, k: &str) -> Vec<Vec<f64>> {
        let d = if self.has("xd") { self.f("xd") } else { 1.0 };
        let d = if matches!(k, "x" | "xr" | "xi" | "xs" | "fr" | "fi") { d / AMP.with(|a| a.get()) } else { d };
        let s = self.s(k);
        if s.is_empty() || s == "none" {
            return vec![];
        }
        s.split(';').map(|p| parse_list(p, d)).collect()
    }
}

pub fn parse_list(s: &str, d: f64) -> Vec<f64> {
    if s.is_empty() || s == "-" {
        return vec![];
    }
    let mut out = vec![];
    for t in s.split(',') {
        let (v, c) = t.split_once('*').unwrap_or((t, "1"));
        let c: usize = c.parse().unwrap_or_else(|_| tool("bad count"));
        let v: f64 = match v {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            _ => v.parse().unwrap_or_else(|_| tool("bad number")),
        };
        for _ in 0..c {
            out.push(v / d);
        }
    }
    out
}

pub fn tool(msg: &str) -> ! {
    eprintln!("HARNESS-TOOL-ERROR: {msg}");
    std::process::exit(3)
}

/// fixed point, saturating, with sentinels
pub fn fix(v: f64, scale: f64) -> i64 {
    if v.is_nan() {
        return NANV;
    }
    if v.is_infinite() {
        return INFV;
    }
    let x = (v / OAMP.with(|a| a.get()) * scale).round();
    if x.abs() >= LIM {
        return BIGV;
    }
    x as i64
}

/// two limbs of six digits each (floor / fraction)
pub fn fix2(v: f64) -> (i64, i64) {
    let c = fix(v, 1e6);
    if c >= 2_000_000_000 {
        return (c, 0);
    }
    let x = v / OAMP.with(|a| a.get()) * 1e6;
    let hi = x.floor();
    let mut lo = ((x - hi) * 1e6).round() as i64;
    let mut h = hi as i64;
    if lo >= 1_000_000 {
        lo -= 1_000_000;
        h += 1;
    }
    (h, lo)
}

#[derive(Default)]
pub struct Out {
    pub s: String,
}

impl Out {
    pub fn new() -> Self {
        Self::default()
    }
    fn key(&mut self, k: &str) {
        if !self.s.is_empty() {
            self.s.push(',');
        }
        let _ = write!(self.s, "\"{k}\":");
    }
    pub fn str(&mut self, k: &str, v: &str) -> &mut Self {
        self.key(k);
        self.s.push('"');
        for ch in v.chars() {
            match ch {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                c if (c as u32) < 32 => self.s.push(' '),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
        self
    }
    pub fn int(&mut self, k: &str, v: i64) -> &mut Self {
        self.key(k);
        let _ = write!(self.s, "{v}");
        self
    }
    pub fn bool(&mut self, k: &str, v: bool) -> &mut Self {
        self.key(k);
        let _ = write!(self.s, "{v}");
        self
    }
    pub fn ints(&mut self, k: &str, v: &[i64]) -> &mut Self {
        self.key(k);
        self.lst(v);
        self
    }
    fn lst(&mut self, v: &[i64]) {
        self.s.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            let _ = write!(self.s, "{x}");
        }
        self.s.push(']');
    }
    pub fn intss(&mut self, k: &str, v: &[Vec<i64>]) -> &mut Self {
        self.key(k);
        self.s.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            self.lst(x);
        }
        self.s.push(']');
        self
    }
    pub fn strs(&mut self, k: &str, v: &[String]) -> &mut Self {
        self.key(k);
        self.s.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            let _ = write!(self.s, "{x:?}");
        }
        self.s.push(']');
        self
    }
}
