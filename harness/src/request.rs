//! Requests made to analyses: bins asked for by size or by number, command words, whole directories.
use crate::analysis::{columns, qf, snapshot};
use crate::header::{d1::D1, Ds};
use crate::util::*;
use moledyn::analysis::{Analysis, Bin, Var1, VarN, VarTime};
use moledyn::prelude::*;

trait Feed: Analysis + Bin + Default + Clone + PartialEq { fn one(&mut self, x: f64); fn close(&mut self); }
impl Feed for TimeAnalysis { fn one(&mut self, x: f64) { self.add_ensemble(x); } fn close(&mut self) { self.draw(); } }
impl Feed for TimeVecAnalysis { fn one(&mut self, x: f64) { self.add_ensemble(vec![x; 10]); } fn close(&mut self) { self.draw(); } }
impl Feed for ProcessAnalysis { fn one(&mut self, x: f64) { self.add_pair(format!("({:e},{:e})", x, x).parse().unwrap()); self.add_ensemble(); } fn close(&mut self) { self.draw(); } }

fn rows<A: Analysis>(a: &A) -> Result<(Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<f64>, Vec<String>), Error> {
    let (mut l, mut g) = (Vec::new(), Vec::new());
    a.export_distribution(12, &mut l)?; a.export_log_scaled_distribution(12, &mut g)?;
    let t = |b: Vec<u8>| String::from_utf8_lossy(&b).lines().map(|l| l.split_whitespace().map(|w| w.parse().unwrap_or(f64::NAN)).collect()).collect();
    let s = a.export_mean_stddev(12)?.split_whitespace().map(|w| w.parse().unwrap_or(f64::NAN)).collect();
    Ok((t(l), t(g), s, columns(&A::export_form(12), &[])))
}
fn objects<A: Feed>(kind: &str, a: &Args, stream: u64) {
    for i in 0..a.num(60, 1500) {
        let mut r = R::new(a.seed, 0x310000 + stream * 0x10000 + i);
        begin_case(format!("{}{}", kind, i), J::new().s("kind", kind));
        let mut o: Vec<A> = vec![A::default(), A::default(), A::default()];
        let mut asked: Vec<(usize, Vec<i64>)> = vec![];
        for _ in 0..r.r(4, 14) {
            let j = r.n(3) as usize;
            let again = !asked.is_empty() && r.p(1, 4);
            let (form, v) = if again { asked[r.n(asked.len() as u64) as usize].clone() } else {
                let lo = *r.pick(&[0i64, 0, 1, 2, 4, 20, -1]);
                let hi = match r.n(8) { 0 => lo, 1 => lo - 1, 2 => 0, 3 => lo + 1, _ => lo + r.r(1, 200) };
                match r.n(3) {
                    0 => (0, vec![lo, hi, *r.pick(&[1i64, 2, 40, 1000, 0, 3, -1, 4]), *r.pick(&[5i64, 6, 8, 40, 4, 3, 0, -5, 5, 6])]),
                    1 => (1, vec![lo, hi, *r.pick(&[10i64, 11, 20, 100, 9, 1, 0, 5, 10, 12])]),
                    _ => (2, vec![lo, hi, *r.pick(&[10i64, 11, 20, 100, 9, 1, 0, 5, 10, 12])]),
                }
            };
            let before = o[j].clone();
            let f = |k: usize| qf(v[k]);
            match form {
                0 => { let Some(res) = guard_ev("size", || o[j].update_from_bin_size(f(0), f(1), f(2), f(3)).is_ok()) else { break };
                    ev(J::op("size").i("i", j as i64 + 1).v("a", &v).b("ok", res).b("same", o[j] == before)); }
                1 => { let Some(res) = guard_ev("num", || o[j].update_from_num_bin(f(0), f(1), v[2] as usize).is_ok()) else { break };
                    ev(J::op("num").i("i", j as i64 + 1).v("a", &v).b("ok", res).b("same", o[j] == before)); }
                _ => { let Some(res) = guard_ev("conv", || A::convert_num_bin_to_bin_size(f(0), f(1), v[2] as usize)) else { break };
                    let n = v[2] as f64;
                    // the sizes fill the range: n steps from the lower to the upper end
                    let fills = res.as_ref().map_or(false, |(b, q)| { let lo = if v[0] == 0 { 1e-15 } else { f(0) };
                        (lo + n * b - f(1)).abs() <= 1e-9 * f(1) && (lo * q.powf(n) - f(1)).abs() <= 1e-9 * f(1) });
                    ev(J::op("conv").v("a", &v).b("ok", res.is_ok()).b("fills", fills)); }
            }
            if form < 2 && !again { asked.push((form, v)); }
            if r.p(1, 8) { o[j] = A::default(); ev(J::op("fresh").i("i", j as i64 + 1)); }
            for _ in 0..2 { let (x, y) = (r.n(3) as usize, r.n(3) as usize); ev(J::op("eq").i("i", x as i64 + 1).i("j", y as i64 + 1).b("eq", o[x] == o[y])); }
        }
        end_case();
    }
    // an analysis as it comes, without any request
    for (i, x) in [1.5, 3.25e7, 2.5e9, 7.7e11, 1e-15, 9.99e12, 1e13].iter().enumerate() {
        begin_case(format!("{}-default{}", kind, i), J::new().s("kind", kind));
        let mut d = A::default();
        let Some((empty, cleared)) = guard_ev("empty", || { let r = rows(&d).map_or(99, |t| t.0.len() + t.1.len()); let mut c = d.clone(); c.clear(); (r, c == d) }) else { end_case(); continue };
        ev(J::op("empty").i("rows", empty as i64).b("clear", cleared));
        if let Some(Ok((l, g, s, form))) = guard_ev("seen", || { d.one(*x); d.close(); rows(&d) }) {
            let fin = l.iter().chain(&g).flatten().chain(&s).all(|v| v.is_finite());
            let at = |names: &[&str]| form.iter().position(|c| names.contains(&c.as_str())).and_then(|i| s.get(i)).copied().unwrap_or(f64::NAN);
            ev(J::op("seen").b("fin", fin).i("rows", if l.len() == g.len() { l.len() as i64 } else { -1 })
                .i("n", if l.iter().chain(&g).all(|r| r.get(1) == Some(&1.0)) { 1 } else { 0 })
                .i("ens", exact(at(&["ensemble"]), 1.0))
                .b("mean", (at(&["mean", "meantime", "long_term_mean"]) - x).abs() <= 1e-9 * x));
        } else { ev(J::op("seen").b("fin", false)); }
        end_case();
    }
}
fn directories<A: Feed>(kind: &str, a: &Args, stream: u64, base: &str) {
    let dir = format!("{}/req-{}", base, kind);
    for i in 0..a.num(120, 1500) {
        let mut r = R::new(a.seed, 0x3100000 + stream * 0x10000 + i);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let w: Vec<Vec<String>> = [vec!["Periodic", "10", "2"], vec!["0,0", "1"], vec!["1", "Uniform", "3"], vec!["0.1", "0"], vec!["3", "1", "5", "out"]].iter().map(|v| v.iter().map(|s| s.to_string()).collect()).collect();
        let data = match kind { "time" => "1.5\n2\n", "vec" => "1.5 2\n2 3.25\n", _ => "(1,2) (2,3)\n(1.5,-1)\n" };
        if r.p(3, 4) { std::fs::write(format!("{}/res.dat", dir), format!("=== DESCRIPTIONS ===\n{}========== DATA STARTS ==========\n{}", D1::print(&w, 15).unwrap_or_default(), data)).unwrap(); }
        begin_case(format!("{}-dir{}", kind, i), J::new().s("kind", kind));
        for _ in 0..r.r(1, 4) {
            let num = |q: i64, r: &mut R| -> (String, J) {
                let x = qf(q);
                let t = if r.p(1, 3) { format!("{:e}", x) } else { format!("{}", x) };
                let u: Result<usize, _> = t.parse();
                (t, J::new().b("r", true).i("q", q).b("u", u.is_ok()).i("n", u.unwrap_or(0) as i64))
            };
            let mut ws: Vec<(String, J)> = vec![];
            if kind == "vec" { ws.push(num(8, &mut r)); }
            let lo = *r.pick(&[0i64, 1, 4, 4, 2, -1]);
            let hi = match r.n(8) { 0 => lo, 1 => lo - 1, _ => lo + r.r(1, 40) };
            ws.push(num(lo, &mut r)); ws.push(num(hi, &mut r));
            if r.p(1, 2) { let n = *r.pick(&[10i64, 12, 20, 9, 0, 10, -3]); ws.push(num(4 * n, &mut r)); }
            else { let b = *r.pick(&[1i64, 2, 4, 0, -1, 2]); ws.push(num(b, &mut r)); let q = *r.pick(&[5i64, 6, 8, 4, 3, -8, 5, 0]); ws.push(num(q, &mut r)); }
            if r.p(1, 4) {
                let k = r.n(ws.len() as u64) as usize;
                let t = r.pick(&["x", "", "1,5", "0x10", "1.5.2", " ", "--1", "1 2", "Uniform", "ten", "NaN", "nan", "-nan"]).to_string();
                ws[k] = (t, J::new().b("r", false).i("q", 0).b("u", false).i("n", 0));
            }
            let wrong = r.p(1, 8);
            let mut args: Vec<String> = ws.iter().map(|w| w.0.clone()).collect();
            if wrong { match r.n(3) { 0 => args.truncate(r.n(if kind == "vec" { 4 } else { 3 }) as usize), 1 => { args.push("7".into()); args.push("7".into()); } _ => args.clear() } }
            if !wrong || r.p(1, 2) || args.len() >= 5 { args.push(dir.clone()); }
            if wrong && { let o = if kind == "vec" { 1 } else { 0 }; args.len() == 4 + o || args.len() == 5 + o } { continue; }
            let before = snapshot(&dir);
            let res = match guard(|| A::analyze::<D1>(&args, 15, "PRE")) { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
            let after = snapshot(&dir);
            let made: Vec<String> = after.keys().filter(|k| !k.contains('/') && !before.contains_key(*k)).cloned().collect();
            let touched: Vec<String> = before.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| k.clone())
                .chain(after.keys().filter(|k| !before.contains_key(*k) && !made.iter().any(|m| *k == m || k.starts_with(&format!("{}/", m)))).cloned()).collect();
            let j = J::op(if wrong { "count" } else { "analyze" }).s("res", res).vs("made", &made).vs("touched", &touched).vs("given", &args);
            ev(if wrong { j } else { j.a("words", ws.into_iter().map(|w| w.1).collect()) });
        }
        end_case();
    }
    let _ = std::fs::remove_dir_all(&dir);
}
pub fn run_request(a: &Args) {
    objects::<TimeAnalysis>("time", a, 1); objects::<TimeVecAnalysis>("vec", a, 2); objects::<ProcessAnalysis>("proc", a, 3);
    let base = a.dir.clone().expect("--dir");
    directories::<TimeAnalysis>("time", a, 1, &base); directories::<TimeVecAnalysis>("vec", a, 2, &base); directories::<ProcessAnalysis>("proc", a, 3, &base);
}
