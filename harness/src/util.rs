//! Recording of histories: every case is one JSON line {"id":..,"cfg":{..},"ev":[..]}.
//! Panics and hangs of the code under test are recorded as events, they never end the driver.
use std::fmt::Write as _;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static BEAT: AtomicU64 = AtomicU64::new(0);
struct Sink { w: Option<std::io::BufWriter<std::fs::File>>, id: String, cfg: String, ev: Vec<String>, cases: u64, events: u64 }
static SINK: Mutex<Sink> = Mutex::new(Sink { w: None, id: String::new(), cfg: String::new(), ev: Vec::new(), cases: 0, events: 0 });

fn sink() -> std::sync::MutexGuard<'static, Sink> { SINK.lock().unwrap_or_else(|e| e.into_inner()) }

pub fn open(path: &str, hang_secs: u64) {
    sink().w = Some(std::io::BufWriter::new(std::fs::File::create(path).expect("output file")));
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last { last = b; still = 0; continue; }
            still += 1;
            if still >= hang_secs {
                ev(J::op("hang"));
                end_case();
                finish();
                std::process::exit(0);
            }
        }
    });
}
pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

/// Text of a case with its opening part; events follow.
pub fn begin_case(id: impl Into<String>, cfg: J) {
    beat();
    let mut s = sink();
    s.id = id.into(); s.cfg = cfg.done(); s.ev.clear();
}
pub fn ev(j: J) { beat(); let mut s = sink(); s.ev.push(j.done()); s.events += 1; }
pub fn end_case() {
    let mut s = sink();
    let line = format!("{{\"id\":{},\"cfg\":{},\"ev\":[{}]}}\n", js(&s.id), if s.cfg.is_empty() { "{}" } else { &s.cfg }, s.ev.join(","));
    s.ev.clear(); s.cases += 1;
    if let Some(w) = s.w.as_mut() { w.write_all(line.as_bytes()).expect("write"); }
}
pub fn finish() {
    let mut s = sink();
    if let Some(w) = s.w.as_mut() { w.flush().expect("flush"); }
    println!("cases={} events={}", s.cases, s.events);
}

/// Run code under test. A panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    beat();
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
    })
}
/// Like guard; a panic is logged as its own event (no specification action matches it) and None is returned.
pub fn guard_ev<R>(of: &str, f: impl FnOnce() -> R) -> Option<R> {
    match guard(f) {
        Ok(r) => Some(r),
        Err(m) => { ev(J::op("panic").s("of", of).s("msg", &m)); None }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"'); o
}
pub struct J(String);
impl J {
    pub fn new() -> J { J(String::from("{")) }
    pub fn op(op: &str) -> J { J::new().s("op", op) }
    fn key(&mut self, k: &str) { if self.0.len() > 1 { self.0.push(','); } self.0.push_str(&js(k)); self.0.push(':'); }
    pub fn i(mut self, k: &str, v: i64) -> J { self.key(k); let _ = write!(self.0, "{}", clampi(v)); self }
    pub fn b(mut self, k: &str, v: bool) -> J { self.key(k); let _ = write!(self.0, "{}", v); self }
    pub fn s(mut self, k: &str, v: &str) -> J { self.key(k); let q = js(v); self.0.push_str(&q); self }
    pub fn v(mut self, k: &str, v: &[i64]) -> J {
        self.key(k); let l: Vec<String> = v.iter().map(|x| clampi(*x).to_string()).collect();
        let _ = write!(self.0, "[{}]", l.join(",")); self }
    pub fn vs(mut self, k: &str, v: &[String]) -> J {
        self.key(k); let l: Vec<String> = v.iter().map(|x| js(x)).collect();
        let _ = write!(self.0, "[{}]", l.join(",")); self }
    pub fn o(mut self, k: &str, v: J) -> J { self.key(k); let d = v.done(); self.0.push_str(&d); self }
    pub fn a(mut self, k: &str, v: Vec<J>) -> J {
        self.key(k); let l: Vec<String> = v.into_iter().map(|x| x.done()).collect();
        let _ = write!(self.0, "[{}]", l.join(",")); self }
    pub fn raw(mut self, k: &str, v: &str) -> J { self.key(k); self.0.push_str(v); self }
    pub fn done(mut self) -> String { self.0.push('}'); self.0 }
}
/// TLC integers are 32 bit: anything beyond is a distinguishable out-of-range marker.
pub const BIG: i64 = 2_000_000_000;
pub fn clampi(v: i64) -> i64 { v.max(-BIG).min(BIG) }
/// Scaled integer of a float; not-a-number and infinities become markers no specification value equals.
pub fn fx(v: f64, scale: f64) -> i64 {
    if v.is_nan() { return BIG; }
    let x = (v * scale).round();
    if x >= BIG as f64 { BIG } else if x <= -(BIG as f64) { -BIG } else { x as i64 }
}
/// Exactly representable scaled integer; otherwise the marker.
pub fn exact(v: f64, scale: f64) -> i64 {
    let x = v * scale;
    if x.is_finite() && x == x.round() && x.abs() < BIG as f64 { x as i64 } else { BIG }
}

/// SplitMix64: the only source of random choices of the drivers.
#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64, stream: u64) -> R { let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03)); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u() % n } }
    /// lo..=hi
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 { lo + self.n((hi - lo + 1) as u64) as i64 }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len() as u64) as usize] }
}

pub struct Args { pub seed: u64, pub thorough: bool, pub script: Option<String>, pub dir: Option<String>, pub scale: u64 }
impl Args {
    /// number of random cases in this tier
    pub fn num(&self, quick: u64, thorough: u64) -> u64 { (if self.thorough { thorough } else { quick }) * self.scale / 100 }
}
