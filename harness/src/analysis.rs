//! Analyses: single objects fed with samples, and whole directories analysed again and again.
use crate::header::{d1::D1, d2::D2, d3::D3, d4::D4, Ds};
use crate::util::*;
use moledyn::analysis::{Analysis, Bin, Pair, Var1, VarN, VarTime};
use moledyn::prelude::*;
use std::collections::{BTreeMap, HashMap as Map};

/// Settings of the bins. Times are counted in quarters.
#[derive(Clone)]
pub struct Set { pub kind: &'static str, pub nv: usize, min: i64, max: i64, bin: i64, n: usize, lbin: f64,
    /// every ensemble stands for so many of the same
    pub times: i64 }
pub fn qf(x: i64) -> f64 { x as f64 / 4.0 }
impl Set {
    pub fn gen(r: &mut R, kind: &'static str, dirs: bool) -> Set {
        let nv = if kind == "vec" { r.r(1, 3) as usize } else { 1 };
        let by_num = r.p(1, 2);
        let min = *r.pick(&[1i64, 2, 4, 8, 3, 5, 7, 20, 0]);
        let span = *r.pick(&[8i64, 16, 32, 64, 128, 256, 10, 24, 60, 100, 31]);
        let max = if r.p(1, 3) && min > 0 { (min * *r.pick(&[4, 8, 16, 32])).min(380) } else { (min + span).min(380) };
        let max = if max <= min { min + 8 } else { max };
        let _ = dirs;
        if by_num {
            let n = *r.pick(&[10usize, 11, 12, 16, 20, 32]);
            let m = if min == 0 { 1e-15 } else { qf(min) };
            Set { kind, nv, min, max, bin: 0, n, lbin: (qf(max) / m).powf(1.0 / n as f64), times: 1 }
        } else {
            Set { kind, nv, min, max, bin: *r.pick(&[1i64, 2, 4, 8, 3, 5, 12]), n: 0, lbin: *r.pick(&[2.0, 2.0, 4.0, 1.5, 1.25, 3.0, 1.1]), times: 1 }
        }
    }
    /// settings with small values, for many samples
    pub fn small(r: &mut R, kind: &'static str) -> Set {
        let min = *r.pick(&[1i64, 2, 4]);
        Set { kind, nv: if kind == "vec" { r.r(1, 3) as usize } else { 1 }, min, max: min + *r.pick(&[8, 16]), bin: *r.pick(&[1i64, 2, 4, 3]), n: 0, lbin: *r.pick(&[2.0, 1.5, 3.0]), times: 1 }
    }
    fn m(&self) -> f64 { if self.min == 0 { 1e-15 } else { qf(self.min) } }
    /// edges (1/1000 quarter) from the first that is visible, and geometric centres
    fn edges(&self) -> (Vec<i64>, Vec<i64>) {
        let (mut e, mut c, mut k) = (vec![], vec![], 0);
        loop {
            let (x, y) = (self.m() * self.lbin.powi(k), self.m() * self.lbin.powi(k + 1));
            if y * 4000.0 >= 500.0 || self.min > 0 {
                if e.is_empty() { e.push(fx(x, 4000.0)); }
                e.push(fx(y, 4000.0)); c.push(fx((x * y).sqrt(), 4000.0));
            }
            k += 1;
            if x > qf(self.max) * 1.05 + 1.0 { break; }
        }
        (e, c)
    }
    /// a directory analysis turns a number of bins into sizes first
    pub fn cfg(&self, dirs: bool) -> J {
        let (bn, bd) = if self.n > 0 { (self.max - self.min, self.n as i64) } else { (self.bin, 1) };
        let pow2 = |x: f64| x.log2() == x.log2().round();
        let xq = self.min > 0 && bn % bd == 0 && pow2((bn / bd) as f64);
        let xl = self.n == 0 && self.min > 0 && pow2(self.lbin) && pow2(qf(self.min));
        let (e, c) = self.edges();
        J::new().s("kind", self.kind).i("times", self.times).i("nv", self.nv as i64).i("min", self.min).i("max", self.max).i("bn", bn).i("bd", bd)
            .i("n", if dirs { 0 } else { self.n as i64 }).b("xq", xq).b("xl", xl).v("edges", &e).v("mids", &c)
    }
    fn apply<B: Bin>(&self, b: &mut B) -> Result<(), Error> {
        if self.n > 0 { b.update_from_num_bin(qf(self.min), qf(self.max), self.n)?; } else { b.update_from_bin_size(qf(self.min), qf(self.max), qf(self.bin), self.lbin)?; }
        b.allocate_vectors();
        Ok(())
    }
    pub fn args(&self, r: &mut R, dir: &str) -> Vec<String> {
        let mut v = vec![];
        if self.kind == "vec" { v.push(self.nv.to_string()); }
        let t = |r: &mut R, x: f64| if r.p(1, 2) { format!("{}", x) } else { format!("{:e}", x) };
        v.push(t(r, qf(self.min))); v.push(t(r, qf(self.max)));
        if self.n > 0 { v.push(self.n.to_string()); } else { v.push(t(r, qf(self.bin))); v.push(t(r, self.lbin)); }
        v.push(dir.to_string());
        v
    }
    pub fn time(&self, r: &mut R) -> i64 {
        let x = match r.n(10) {
            0 => self.min, 1 => self.max, 2 => self.min - 1, 3 => self.max + 1,
            4 if self.bin > 0 => self.min + self.bin * r.r(0, 6), 5 => self.min * (1 << r.n(5)),
            6 => self.max * 2, _ => r.r(self.min, self.max),
        };
        if x == 0 && self.min == 0 { 1 } else { x.max(-3).min(400) }
    }
}
const NAMES: [&str; 6] = ["long_term_stddev", "long_term_mean", "ensemble", "meantime", "stddev", "mean"];
/// names of a header line, which may stand without space between them
pub fn columns(line: &str, known: &[String]) -> Vec<String> {
    let mut all: Vec<String> = known.to_vec();
    all.extend(NAMES.iter().map(|s| s.to_string()));
    all.sort_by_key(|s| std::cmp::Reverse(s.len()));
    let (mut rest, mut out) = (line.trim(), vec![]);
    while !rest.is_empty() {
        match all.iter().find(|n| rest.starts_with(n.as_str())) {
            Some(n) => { out.push(n.clone()); rest = rest[n.len()..].trim_start(); }
            None => { out.push("?".into()); break; }
        }
    }
    out
}
fn num(s: &str) -> f64 { s.parse().unwrap_or(f64::NAN) }
/// a summary row under its columns: (values of the first columns), ensemble, means, deviations
fn summary(set: &Set, cols: &[String], row: &str, points: f64) -> (Vec<(String, String)>, J) {
    let toks: Vec<&str> = row.split_whitespace().collect();
    let (mut head, mut ens, mut mean, mut sd) = (vec![], -1i64, vec![], vec![]);
    let (mut mi, mut si) = (usize::MAX, usize::MAX);
    for (i, c) in cols.iter().enumerate() {
        let t = toks.get(i).copied().unwrap_or("x");
        match c.as_str() {
            "ensemble" => ens = t.parse::<i64>().unwrap_or(-1),
            "mean" | "meantime" | "long_term_mean" => mi = i,
            "stddev" | "long_term_stddev" => si = i,
            _ => head.push((c.clone(), t.to_string())),
        }
    }
    for j in 0..set.nv {
        let off = if set.kind == "vec" { 2 * j } else { 0 };
        mean.push(fx(num(toks.get(mi.saturating_add(off)).copied().unwrap_or("x")), 4096.0));
        sd.push(fx(num(toks.get(si.saturating_add(off)).copied().unwrap_or("x")) * points, 256.0));
    }
    let want = cols.len() + if set.kind == "vec" { 2 * (set.nv - 1) } else { 0 };
    (head, J::new().i("ens", if toks.len() == want { ens } else { -2 }).v("mean", &mean).v("sd", &sd))
}
/// exported histogram: rows; points: samples in a bin are needed to scale its deviation
fn hist(set: &Set, text: &str) -> Vec<J> {
    text.lines().map(|l| {
        let t: Vec<f64> = l.split_whitespace().map(num).collect();
        let c = fx(t.first().copied().unwrap_or(f64::NAN), 4000.0);
        let g = |i: usize| t.get(i).copied().unwrap_or(f64::NAN);
        if set.kind == "proc" {
            J::new().i("c", if t.len() == 4 { c } else { BIG }).v("n", &[fx(g(1), 1.0)]).i("m", fx(g(2), 4096.0)).i("s", fx(g(3) * g(1) / set.times as f64, 256.0))
        } else {
            let n: Vec<i64> = (0..set.nv).map(|j| fx(g(1 + 2 * j), 1.0)).collect();
            let d: Vec<i64> = (0..set.nv).map(|j| fx(g(2 + 2 * j), 1e5)).collect();
            J::new().i("c", if t.len() == 1 + 2 * set.nv { c } else { BIG }).v("n", &n).v("d", &d)
        }
    }).collect()
}
fn nudge(x: f64, e: i64) -> f64 { match e { 0 => x, e if e > 0 => f64::from_bits(if x >= 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 }), _ => f64::from_bits(if x > 0.0 { x.to_bits() - 1 } else { x.to_bits() + 1 }) } }
fn sample(set: &Set, r: &mut R) -> (i64, i64) {
    if set.min > 0 && r.p(1, 10) { return (*r.pick(&[set.min, set.max]), *r.pick(&[-1, 1])); }
    (set.time(r), 0)
}
enum An { T(TimeAnalysis), V(TimeVecAnalysis), P(ProcessAnalysis) }
impl An {
    fn new(set: &Set) -> Result<An, Error> {
        Ok(match set.kind {
            "time" => { let mut a = TimeAnalysis::default(); set.apply(&mut a)?; An::T(a) }
            "vec" => { let mut a = TimeVecAnalysis::default(); set.apply(&mut a)?; An::V(a) }
            _ => { let mut a = ProcessAnalysis::default(); set.apply(&mut a)?; An::P(a) }
        })
    }
    fn clear(&mut self) { match self { An::T(a) => a.clear(), An::V(a) => a.clear(), An::P(a) => a.clear() } }
    fn outputs(&mut self, prec: usize) -> Result<(String, String, String, String), Error> {
        fn go<A: Analysis>(a: &A, prec: usize) -> Result<(String, String, String, String), Error> {
            let (mut l, mut g) = (Vec::new(), Vec::new());
            a.export_distribution(prec, &mut l)?; a.export_log_scaled_distribution(prec, &mut g)?;
            Ok((A::export_form(prec), a.export_mean_stddev(prec)?, String::from_utf8_lossy(&l).into(), String::from_utf8_lossy(&g).into()))
        }
        match self { An::T(a) => { a.draw(); go(a, prec) } An::V(a) => { a.draw(); go(a, prec) } An::P(a) => { a.draw(); go(a, prec) } }
    }
}
pub fn run_bins(a: &Args) {
    for (ki, kind) in ["time", "vec", "proc"].iter().enumerate() { for i in 0..a.num(150, 1500) {
        let mut r = R::new(a.seed, 77_000_000 + ki as u64 * 1_000_000 + i);
        let mut set = Set::gen(&mut r, kind, false);
        let many = i % 30 == 29;
        if many { set = Set::small(&mut r, kind); }
        let bulk = i % 30 == 17;
        if bulk { set = Set::small(&mut r, kind); set.times = *r.pick(&[257, 5000, 70_000]); }
        if *kind == "vec" { set.nv = 10; } // the number of variables of a default analysis
        begin_case(format!("{}{}", kind, i), set.cfg(false));
        let mut an = match guard(|| An::new(&set)) { Ok(Ok(a)) => a, _ => { ev(J::op("panic").s("of", "new")); end_case(); continue; } };
        for round in 0..r.r(1, 3) {
            if round > 0 { if guard_ev("clear", || an.clear()).is_none() { break; } ev(J::op("clear")); }
            let n = if many { *r.pick(&[65i64, 130, 260, 400]) / if *kind == "time" { 1 } else { 2 } } else { *r.pick(&[1i64, 1, 2, 3, 5, 9, 15]) };
            let (mut points, mut dead) = (0.0, false);
            let mut fed: Ens = vec![];
            for _ in 0..n {
                match &mut an {
                    An::T(x) => { let s = sample(&set, &mut r); fed.push(vec![s]); dead |= guard_ev("add", || x.add_ensemble(nudge(qf(s.0), s.1))).is_none(); ev(J::op("add").raw("v", &format!("[[{},{}]]", s.0, s.1))); points += 1.0; }
                    An::V(x) => {
                        let s: Vec<(i64, i64)> = (0..set.nv).map(|_| sample(&set, &mut r)).collect();
                        fed.push(s.clone());
                        dead |= guard_ev("add", || x.add_ensemble(s.iter().map(|s| nudge(qf(s.0), s.1)).collect())).is_none();
                        let t: Vec<String> = s.iter().map(|s| format!("[{},{}]", s.0, s.1)).collect();
                        ev(J::op("add").raw("v", &format!("[{}]", t.join(",")))); points += 1.0;
                    }
                    An::P(x) => {
                        fed.push(vec![]);
                        for _ in 0..if many { r.r(1, 3) } else { r.r(1, 6) } {
                            let (t, v) = (set.time(&mut r), if r.p(1, 3) { 7 } else if many { r.r(-20, 20) } else { r.r(-200, 200) });
                            fed.last_mut().unwrap().push((t, v));
                            let p: Pair<f64> = format!("({},{})", qf(t), qf(v)).parse().unwrap();
                            dead |= guard_ev("add", || x.add_pair(p)).is_none();
                            ev(J::op("pt").v("v", &[t, v])); points += 1.0;
                        }
                        dead |= guard_ev("end", || x.add_ensemble()).is_none(); ev(J::op("endens"));
                    }
                }
            }
            if dead { break; }
            // all of it again and again
            if guard_ev("again", || for _ in 1..set.times { for e in &fed { match &mut an {
                An::T(x) => x.add_ensemble(nudge(qf(e[0].0), e[0].1)),
                An::V(x) => x.add_ensemble(e.iter().map(|s| nudge(qf(s.0), s.1)).collect()),
                An::P(x) => { for s in e { x.add_pair(format!("({},{})", qf(s.0), qf(s.1)).parse().unwrap()); } x.add_ensemble(); }
            } } }).is_none() { break; }
            let prec = *r.pick(&[0usize, 10, 15, 25]);
            match guard(|| an.outputs(prec)) {
                Ok(Ok((form, row, lin, log))) => {
                    let cols = columns(&form, &[]);
                    let (_, s) = summary(&set, &cols, &row, points);
                    ev(J::op("report").s("res", "ok").o("row", s).a("lin", hist(&set, &lin)).a("log", hist(&set, &log)));
                }
                Ok(Err(_)) => { ev(J::op("report").s("res", "err")); break; }
                Err(m) => { ev(J::op("report").s("res", "panic").s("msg", &m)); break; }
            }
        }
        // single samples just beside the edges of bins
        for _ in 0..8 {
            let (log, side) = (r.p(1, 2), *r.pick(&[-1i64, 1]));
            if log && set.min == 0 { continue; }
            let (lo, hi) = (qf(set.min), qf(set.max));
            let width = if set.n > 0 { (hi - lo) / set.n as f64 } else { qf(set.bin) };
            let most = if log { ((hi / lo).ln() / set.lbin.ln()).ceil() } else { ((hi - lo) / width).ceil() } as i64;
            let k = r.r(0, most + 1);
            let e = if log { lo * set.lbin.powi(k as i32) } else { lo + k as f64 * width };
            let x = e + side as f64 * e * *r.pick(&[1e-8, 1e-10, 1e-12]);
            if e == 0.0 || x < lo || x > hi { continue; }
            an.clear();
            let got = guard(|| {
                match &mut an { An::T(y) => y.add_ensemble(x), An::V(y) => y.add_ensemble(vec![x; set.nv]),
                    An::P(y) => { y.add_pair(format!("({:e},1)", x).parse().unwrap()); y.add_ensemble(); } }
                an.outputs(15)
            });
            match got {
                Ok(Ok((_, _, l, g))) => ev(J::op("edge").b("log", log).i("k", if side < 0 { k - 1 } else { k }).a("rows", hist(&set, if log { &g } else { &l }))),
                _ => ev(J::op("edge").b("log", log).i("k", -9).a("rows", vec![])),
            }
        }
        end_case();
        // arbitrary reals, also nearly equal ones
        begin_case(format!("{}-real{}", kind, i), set.cfg(false));
        let base = *r.pick(&[0.1, 1e8 / 3.0, 1e-9, 7.7, 123456.789, 3e15]);
        let tiny = *r.pick(&[0.0, 1e-16, 1e-12, 1e-3, 1.0]);
        let vals: Vec<f64> = (0..r.r(1, 40)).map(|_| base * (1.0 + tiny * r.n(1000) as f64 / 1000.0)).collect();
        an.clear();
        let got = guard(|| {
            for v in &vals { match &mut an { An::T(x) => x.add_ensemble(*v), An::V(x) => x.add_ensemble(vec![*v; set.nv]),
                An::P(x) => { x.add_pair(format!("({:e},{:e})", v, v).parse().unwrap()); x.add_ensemble(); } } }
            an.outputs(10)
        });
        match got {
            Ok(Ok((form, row, lin, log))) => {
                let cols = columns(&form, &[]);
                let toks: Vec<&str> = row.split_whitespace().collect();
                let at = |names: &[&str]| cols.iter().position(|c| names.contains(&c.as_str())).and_then(|i| toks.get(i)).map_or(f64::NAN, |s| num(s));
                let (m, s) = (at(&["mean", "meantime", "long_term_mean"]), at(&["stddev", "long_term_stddev"]));
                let n = vals.len() as f64;
                let m2 = vals.iter().sum::<f64>() / n;
                let s2 = (vals.iter().map(|v| (v - m2).powi(2)).sum::<f64>() / n).sqrt();
                let fin = toks.iter().all(|t| num(t).is_finite()) && lin.split_whitespace().chain(log.split_whitespace()).all(|t| num(t).is_finite());
                ev(J::op("real").b("fin", fin).b("mean", (m - m2).abs() <= 1e-9 * m2.abs()).b("sd", s >= 0.0 && (s - s2).abs() <= 1e-6 * m2.abs()));
            }
            Ok(Err(_)) => ev(J::op("real").b("fin", false)),
            Err(m) => ev(J::op("panic").s("msg", &m)),
        }
        end_case();
    } }
}

/// histograms of hundreds of filled bins
pub fn run_wide(a: &Args) {
    for (ki, kind) in ["time", "vec", "proc"].iter().enumerate() { for i in 0..a.num(4, 40) {
        let mut r = R::new(a.seed, 79_000_000 + ki as u64 * 1_000_000 + i);
        let min = r.r(1, 8);
        let max = min + r.r(200, 370);
        let (bin, n) = if r.p(1, 2) { (*r.pick(&[1i64, 1, 2]), 0) } else { (0, *r.pick(&[101usize, 128, 150, 200, 256, 355, 400])) };
        let lbin = if n > 0 { (max as f64 / min as f64).powf(1.0 / n as f64) } else { *r.pick(&[1.05, 1.03, 1.1]) };
        let set = Set { kind, nv: if *kind == "vec" { 10 } else { 1 }, min, max, bin, n, lbin, times: 1 };
        begin_case(format!("wide-{}{}", kind, i), set.cfg(false));
        let mut an = match guard(|| An::new(&set)) { Ok(Ok(a)) => a, _ => { ev(J::op("panic").s("of", "new")); end_case(); continue; } };
        let start = r.n((max - min) as u64) as i64;
        let count = if *kind == "vec" { (max - min) / 4 } else { max - min + r.r(0, 30) };
        let mut dead = false;
        for k in 0..count {
            let at = |j: i64| min + (start + k + j * 37) % (max - min);
            match &mut an {
                An::T(x) => { let t = at(0); dead |= guard_ev("add", || x.add_ensemble(qf(t))).is_none(); ev(J::op("add").raw("v", &format!("[[{},0]]", t))); }
                An::V(x) => {
                    let t: Vec<i64> = (0..10).map(at).collect();
                    dead |= guard_ev("add", || x.add_ensemble(t.iter().map(|t| qf(*t)).collect())).is_none();
                    let t: Vec<String> = t.iter().map(|s| format!("[{},0]", s)).collect();
                    ev(J::op("add").raw("v", &format!("[{}]", t.join(","))));
                }
                An::P(x) => {
                    let (t, v) = (at(0), r.r(-20, 20));
                    let p: Pair<f64> = format!("({},{})", qf(t), qf(v)).parse().unwrap();
                    dead |= guard_ev("add", || x.add_pair(p)).is_none();
                    ev(J::op("pt").v("v", &[t, v]));
                    if k % 50 == 49 || k == count - 1 { dead |= guard_ev("end", || x.add_ensemble()).is_none(); ev(J::op("endens")); }
                }
            }
        }
        if !dead {
            match guard(|| an.outputs(15)) {
                Ok(Ok((form, row, lin, log))) => { let (_, s) = summary(&set, &columns(&form, &[]), &row, count as f64); ev(J::op("report").s("res", "ok").o("row", s).a("lin", hist(&set, &lin)).a("log", hist(&set, &log))); }
                _ => ev(J::op("report").s("res", "err")),
            }
        }
        end_case();
    } }
}

// ---- whole directories ----------------------------------------------------------------------------
fn f(r: &mut R) -> String { let v = [1.0, 2.5, 10.0, 0.1, 3.0, 0.75, 12.125][r.n(7) as usize]; format!("{}", v) }
fn words_of(name: &str, r: &mut R) -> Vec<String> {
    let d = r.r(1, 3).to_string();
    let pos: Vec<String> = (0..2).map(|_| f(r)).collect();
    let (mt, it) = (if r.p(1, 5) { "Levy".to_string() } else { f(r) }, if r.p(1, 2) { "Uniform".to_string() } else { pos.join(",") });
    let n = r.r(1, 30).to_string();
    match name {
        "Cubic" => vec!["Periodic".into(), f(r), d], "Circ" => vec![f(r), d],
        "Cyl" => vec!["1".into(), "1".into(), f(r), f(r), d],
        "Bulk" => vec![pos.join(","), f(r)],
        "Indep" => vec![mt, it, n], "Merge" => vec![mt, it, f(r), f(r), n],
        "Exp" => vec![mt, it, f(r), d, f(r), n], "LJ" => vec![mt, it, f(r), f(r), n],
        "Const" => vec![f(r), "0".into()], "ExpStep" => vec!["0.001".into(), "1".into(), "20".into(), f(r)],
        "Var" => vec![n, r.n(9).to_string(), r.n(99).to_string(), "out".into()],
        "ParVar" => vec![n, r.n(99).to_string(), r.r(1, 8).to_string(), "out".into()],
        _ => vec![n, f(r), r.n(9).to_string(), r.n(99).to_string(), "out".into()],
    }
}
/// listed: which words of a component the data set lists as physical parameters
fn listed(name: &str) -> &'static [usize] {
    match name { "Cubic" => &[1, 2], "Circ" => &[0, 1], "Cyl" => &[2, 3, 4], "Bulk" => &[1], "Indep" => &[2], "Merge" => &[2, 3, 4], "Exp" => &[2, 3, 4, 5], "LJ" => &[2, 3, 4],
        "Const" => &[0, 1], "ExpStep" => &[0, 1, 2, 3], _ => &[] }
}
fn vary(w: &str, r: &mut R) -> String {
    if w.contains('.') || r.p(1, 2) && w.parse::<u32>().is_err() {
        let v: f64 = w.parse().unwrap();
        format!("{:e}", match r.n(5) { 0 => f64::from_bits(v.to_bits() + 1), 1 => v * (1.0 + 1e-13), 2 => v + 1e-7, 3 => v * 2.0, _ => v + 1.0 })
    } else {
        let v = w.parse::<f64>().map(|v| v as i64).unwrap_or(1);
        // numbers no floating point number tells apart
        if v < 1 << 53 && r.p(1, 3) { ((1i64 << *r.pick(&[53, 62])) + v).to_string() } else { (v + r.r(1, 3)).to_string() }
    }
}
pub fn value(canon: &str) -> String { if let Some(h) = canon.strip_prefix('f') { format!("{}", f64::from_bits(u64::from_str_radix(h, 16).unwrap())) } else { canon.to_string() } }
pub fn snapshot(root: &str) -> BTreeMap<String, Vec<u8>> {
    fn walk(p: &std::path::Path, root: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        let mut l: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        l.sort();
        for q in l {
            let k = q.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let meta = std::fs::symlink_metadata(&q);
            if meta.as_ref().map_or(false, |m| m.is_dir()) { out.insert(k, b"dir".to_vec()); walk(&q, root, out); }
            else { out.insert(k, std::fs::read(&q).unwrap_or_default()); }
        }
    }
    let mut out = BTreeMap::new();
    walk(std::path::Path::new(root), root, &mut out);
    out
}
pub type Ens = Vec<Vec<(i64, i64)>>;
pub fn ens_json(e: &Ens) -> String {
    let l: Vec<String> = e.iter().map(|x| { let p: Vec<String> = x.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect(); format!("[{}]", p.join(",")) }).collect();
    format!("[{}]", l.join(","))
}
pub fn ens_text(set: &Set, e: &Ens, r: &mut R) -> String {
    let mut s = String::new();
    for x in e {
        let l: Vec<String> = x.iter().map(|(a, b)| if set.kind == "proc" { if r.p(1, 2) { format!("({},{})", qf(*a), qf(*b)) } else { format!("({:e},{:e})", qf(*a), qf(*b)) } }
            else if r.p(1, 2) { format!("{}", qf(*a)) } else { format!("{:.5e}", qf(*a)) }).collect();
        s.push_str(&l.join(if r.p(1, 2) { "\t" } else { " " }));
        if r.p(1, 3) { s.push('\t'); }
        s.push_str(if r.p(1, 8) { "\r\n" } else { "\n" });
    }
    s
}
fn dirs_of<D: Ds + Copy>(a: &Args, which: [&str; 5], stream: u64, base: &str) {
    for (ki, kind) in ["time", "vec", "proc"].iter().enumerate() { for i in 0..a.num(14, 150) {
        let mut r = R::new(a.seed, 88_000_000 + stream * 100_000 + ki as u64 * 10_000 + i);
        // now and then: dozens of files, hundreds of samples, many configurations
        let many = i % 14 == 13;
        let bulk = i % 14 == 12 && stream as usize % 3 == ki;
        let mut set = if many || bulk { Set::small(&mut r, kind) } else { Set::gen(&mut r, kind, true) };
        if bulk { set.times = *r.pick(&[300, 6000, 20_000]); }
        let dir = format!("{}/{}{}-{}", base, kind, stream, i);
        std::fs::create_dir_all(&dir).unwrap();
        begin_case(format!("{}{}-{}", kind, stream, i), set.cfg(true));
        let sel = D::sel();
        let nphys = sel.len() - D::nsim();
        let draw = |r: &mut R| -> Vec<Vec<String>> { which.iter().map(|n| words_of(n, r)).collect() };
        let base_words = draw(&mut r);
        let mut variants = vec![base_words.clone()];
        for _ in 0..if many { r.r(8, 24) as u64 } else { r.n(4) } {
            let mut v = if r.p(1, 4) { draw(&mut r) } else { variants[r.n(variants.len() as u64) as usize].clone() };
            let c = loop { let c = r.n(5) as usize; if !listed(which[c]).is_empty() { break c; } };
            let k = *r.pick(listed(which[c]));
            v[c][k] = vary(&v[c][k], &mut r);
            variants.push(v);
        }
        let key_of = |w: &[Vec<String>]| -> Option<Vec<String>> { D::made(w).ok().map(|d| d.vals()[..nphys].to_vec()) };
        // names of result files take what the parameters need, up to what a file system allows
        let named = |k: &[String]| sel[..nphys].iter().zip(k).map(|(s, v)| format!("_{}_{}", s, value(v))).collect::<String>();
        let longest = variants.iter().filter_map(|v| key_of(v)).map(|k| named(&k).len() + 4).max().unwrap_or(0);
        let prefix = if r.p(1, 3) && longest < 250 { format!("{:x<1$}", "PRE", 255 - longest) } else { r.pick(&["PRE", "PRE", "P R.E", "1"]).to_string() };
        let mut names: Map<String, String> = Map::new();
        let mut live: Vec<(String, Vec<Vec<(i64, i64)>>, String)> = vec![];
        let mut count = 0;
        for step in 0..r.r(2, 9) {
            match if step == 0 { 0 } else { r.n(7) } {
                0 | 1 | 2 => {
                    // result files
                    for _ in 0..if many && live.len() < 150 { r.r(20, 50) } else { r.r(1, 4) } {
                        // half of many files share one configuration
                        let mut w = variants[if many && r.p(1, 2) { 0 } else { r.n(variants.len() as u64) as usize }].clone();
                        let s = words_of(which[4], &mut r); w[4] = s; // parameters of the simulation differ freely
                        let Some(key) = key_of(&w) else { continue };
                        let total: usize = live.iter().filter(|l| l.2 == key.join("|")).map(|l| l.1.iter().map(|e| if *kind == "proc" { e.len() } else { 1 }).sum::<usize>()).sum();
                        let nens = if r.p(1, 8) { 0 } else { r.r(1, 6) };
                        if total + 30 > if many { 400 } else { 95 } { continue; }
                        let ens: Ens = (0..nens).map(|_| match *kind {
                            "proc" => (0..r.r(1, 5)).map(|_| (set.time(&mut r), if r.p(1, 3) { 7 } else if many { r.r(-20, 20) } else { r.r(-200, 200) })).collect(),
                            "vec" => (0..set.nv).map(|_| (set.time(&mut r), 0)).collect(),
                            _ => vec![(set.time(&mut r), 0)] }).collect();
                        let name = if r.p(1, 6) && !live.is_empty() { live[r.n(live.len() as u64) as usize].0.clone() } else { count += 1; r.pick(&["res{}.dat", "{}", ".hidden{}", "a b{}.txt", "analysis_{}.dat", "brief_result{}.dat", "res{}.dat", "res{}~", "#res{}#", "res{}.bak", "res{}.tmp", "res{}.csv", "res{}.", "-res{}", "\u{f6}{}.dat", "RES{}.DAT", "res{}.dat.gz", "core.{}", "*{}", "_{}", "data{}.log"]).replace("{}", &count.to_string()) };
                        let mut text = format!("=== DESCRIPTIONS ===\n{}", D::print(&w, *r.pick(&[0usize, 15])).unwrap_or_default());
                        if nens > 0 || r.p(1, 2) { text.push_str("========== DATA STARTS ==========\n"); }
                        text.push_str(&ens_text(&set, &ens, &mut r).repeat(set.times as usize));
                        std::fs::write(format!("{}/{}", dir, name), text).unwrap();
                        live.retain(|l| l.0 != name);
                        let k = key.join("|");
                        names.insert(format!("{}{}.dat", prefix, named(&key)), k.clone());
                        live.push((name.clone(), ens.clone(), k.clone()));
                        ev(J::op("file").s("name", &name).s("key", &k).raw("ens", &ens_json(&ens)));
                    }
                }
                3 => {
                    // what is no result of this simulation
                    count += 1;
                    let name = format!("other{}.dat", count);
                    let p = format!("{}/{}", dir, name);
                    match r.n(8) {
                        0 => std::fs::write(&p, "").unwrap(),
                        1 => std::fs::write(&p, [0xffu8, 0xfe, 0, 10, 0x80, 10, 0xc3, 0x28, 10]).unwrap(),
                        2 => { let t = format!("=== DESCRIPTIONS ===\n{}", D::print(&variants[0], 15).unwrap_or_default()); let n = t.lines().count(); let keep = r.n(n as u64 - 1) as usize;
                            std::fs::write(&p, t.lines().take(keep).map(|l| format!("{}\n", l)).collect::<String>()).unwrap() }
                        3 => std::fs::write(&p, "1.0\n2.0\n3.5\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n17\n18\n19\n20\n21\n").unwrap(),
                        4 => { // results of another simulation
                            let t = if stream == 1 { D2::print(&["Circ", "Bulk", "Merge", "ExpStep", "Process"].map(|n| words_of(n, &mut r)), 15) } else { D1::print(&["Cubic", "Bulk", "Indep", "Const", "Var"].map(|n| words_of(n, &mut r)), 15) };
                            std::fs::write(&p, format!("=== DESCRIPTIONS ===\n{}=== DATA STARTS ===\n1.5\n2\n", t.unwrap_or_default())).unwrap() }
                        5 | 6 => { // a subdirectory with results in it
                            std::fs::create_dir_all(&p).unwrap();
                            let _ = std::fs::write(format!("{}/inner.dat", p), format!("=== DESCRIPTIONS ===\n{}=== DATA STARTS ===\n1\n", D::print(&variants[0], 15).unwrap_or_default())); }
                        _ => { let _ = std::os::unix::fs::symlink("/nonexistent/x", &p); }
                    }
                    ev(J::op("other").s("name", &name));
                }
                4 => {
                    // output directories that are there already
                    let day = |d: i64| chrono_day(d);
                    if r.p(1, 6) {
                        // many of them
                        let top = *r.pick(&[12, 12, 40, 110]);
                        for k in 1..=top {
                            let name = if k == 1 { format!("analysis_{}", day(0)) } else { format!("analysis_{}_{}", day(0), k) };
                            if std::fs::create_dir(format!("{}/{}", dir, name)).is_ok() {
                                std::fs::write(format!("{}/{}/brief_result.dat", dir, name), "earlier result\n").unwrap();
                                ev(J::op("other").s("name", &name));
                            }
                        }
                        continue;
                    }
                    let name = format!("analysis_{}{}", day(*r.pick(&[0i64, 0, 0, 1])), r.pick(&["", "", "_2", "_3", "_4", "_10", "_1"]));
                    let p = format!("{}/{}", dir, name);
                    if !std::path::Path::new(&p).exists() {
                        if r.p(1, 4) { std::fs::write(&p, "not a directory").unwrap(); } else {
                            std::fs::create_dir_all(format!("{}/linear_distribution", p)).unwrap();
                            std::fs::write(format!("{}/brief_result.dat", p), "earlier result\n").unwrap();
                            std::fs::write(format!("{}/brief_data.dat", p), "earlier result\n").unwrap();
                        }
                        ev(J::op("other").s("name", &name));
                    }
                }
                5 if !live.is_empty() => {
                    let (name, _, _) = live.remove(r.n(live.len() as u64) as usize);
                    std::fs::remove_file(format!("{}/{}", dir, name)).unwrap();
                    ev(J::op("rm").s("name", &name));
                }
                _ => {}
            }
            if r.p(1, 2) || step == 0 { for _ in 0..r.r(1, 2) { if !analyze::<D>(&set, &dir, &sel[..nphys], &prefix, &names, &live, &mut r) { break; } } }
        }
        analyze::<D>(&set, &dir, &sel[..nphys], &prefix, &names, &live, &mut r);
        end_case();
        std::fs::remove_dir_all(&dir).unwrap();
    } }
}
fn chrono_day(plus: i64) -> String {
    let secs = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let z = secs / 86400 + plus + 719468;
    let era = z / 146097; let doe = z - era * 146097; let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let (d, m) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    format!("{:04}{:02}{:02}", yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
fn analyze<D: Ds + Copy>(set: &Set, dir: &str, phys: &[String], prefix: &str, names: &Map<String, String>, live: &[(String, Ens, String)], r: &mut R) -> bool {
    let args = set.args(r, dir);
    analyze_by(set, dir, phys, names, live, J::op("analyze"), || match guard(|| match set.kind { "time" => TimeAnalysis::analyze::<D>(&args, 15, prefix), "vec" => TimeVecAnalysis::analyze::<D>(&args, 15, prefix), _ => ProcessAnalysis::analyze::<D>(&args, 15, prefix) }) { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" })
}
/// runs an analysis of dir and records everything it did there
pub fn analyze_by(set: &Set, dir: &str, phys: &[String], names: &Map<String, String>, live: &[(String, Ens, String)], j: J, run: impl FnOnce() -> &'static str) -> bool {
    let before = snapshot(dir);
    let res = run();
    let after = snapshot(dir);
    let top = |k: &String| !k.contains('/');
    let made: Vec<String> = after.keys().filter(|k| top(k) && !before.contains_key(*k)).cloned().collect();
    let touched: Vec<String> = before.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| k.clone())
        .chain(after.keys().filter(|k| !before.contains_key(*k) && !made.iter().any(|m| *k == m || k.starts_with(&format!("{}/", m)))).cloned()).collect();
    let j = j.s("res", res).vs("made", &made).vs("touched", &touched);
    if res != "ok" || made.len() != 1 { ev(j.b("seen", false)); return false; }
    let out = &made[0];
    let get = |p: &str| after.get(&format!("{}/{}", out, p)).map(|b| String::from_utf8_lossy(b).to_string());
    let text = get("brief_result.dat").or(get("brief_data.dat")).unwrap_or_default();
    let mut lines = text.lines();
    let cols = columns(lines.next().unwrap_or(""), phys);
    let points: Map<&String, f64> = live.iter().fold(Map::new(), |mut m, (_, e, k)| { *m.entry(k).or_insert(0.0) += if set.kind == "proc" { e.iter().map(|x| x.len()).sum::<usize>() } else { e.len() } as f64; m });
    let mut rows = vec![];
    for l in lines {
        let (head, _) = summary(set, &cols, l, 1.0);
        // the values under the names of the parameters
        let key: Vec<String> = phys.iter().map(|p| head.iter().find(|h| h.0 == *p).map_or("?".into(), |h| h.1.clone())).collect();
        let key = names.values().find(|k| k.split('|').zip(&key).all(|(c, t)| same(c, t))).cloned().unwrap_or(format!("? {}", key.join("|")));
        let (_, s) = summary(set, &cols, l, points.get(&key).copied().unwrap_or(0.0));
        rows.push(s.s("key", &key));
    }
    let files = |sub: &str| -> Vec<J> {
        let pre = format!("{}/{}/", out, sub);
        after.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| {
            let n = &k[pre.len()..];
            J::new().s("key", names.get(n).map_or(n, |s| s.as_str())).a("rows", hist(set, &String::from_utf8_lossy(v)))
        }).collect()
    };
    ev(j.b("seen", true).a("rows", rows).a("lin", files("linear_distribution")).a("log", files("logarithmic_distribution")));
    true
}
fn same(canon: &str, tok: &str) -> bool {
    if let Some(h) = canon.strip_prefix('f') { tok.parse::<f64>().map_or(false, |v| v == f64::from_bits(u64::from_str_radix(h, 16).unwrap())) } else { tok == canon }
}
pub fn run_dirs(a: &Args) {
    let base = a.dir.clone().expect("--dir");
    dirs_of::<D1>(a, ["Cubic", "Bulk", "Indep", "Const", "Var"], 1, &base);
    dirs_of::<D2>(a, ["Circ", "Bulk", "Merge", "ExpStep", "Process"], 2, &base);
    dirs_of::<D3>(a, ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 3, &base);
    dirs_of::<D4>(a, ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 4, &base);
}
