//! Refusals and the reasons they name: C33.
use crate::agents::Ag;
use crate::geom::Sh;
use crate::util::*;
use moledyn::analysis::{Bin, Pair};
use moledyn::error::{Category, ErrorCode};
use moledyn::prelude::*;

fn codes() -> Vec<(&'static str, Error)> {
    let c = |e| Error::make_error_syntax(e);
    vec![("InvalidDimension", c(ErrorCode::InvalidDimension)), ("InvalidType", c(ErrorCode::InvalidType)), ("InvalidConfiguration", c(ErrorCode::InvalidConfiguration)),
        ("InvalidNumberOfArguments", c(ErrorCode::InvalidNumberOfArguments)), ("InvalidArgumentInput", c(ErrorCode::InvalidArgumentInput)), ("InvalidFormat", c(ErrorCode::InvalidFormat)),
        ("InvalidFile", c(ErrorCode::InvalidFile)), ("TooLargeTimeStep", c(ErrorCode::TooLargeTimeStep)), ("FeatureNotProvided", c(ErrorCode::FeatureNotProvided)), ("UnexpectedEnd", c(ErrorCode::UnexpectedEnd))]
}
/// the name of the reason an error gives, by the text it is shown with
fn named(e: &Error) -> String {
    let t = format!("{}", e);
    codes().into_iter().find(|(_, c)| format!("{}", c) == t).map_or(if e.is_io() { "io".into() } else { t }, |(n, _)| n.into())
}
fn ask<T>(j: J, what: &str, f: impl FnOnce() -> Result<T, Error>) {
    let j = j.s("what", what);
    match guard(f) { Ok(Ok(_)) => ev(j.s("res", "ok").s("reason", "")), Ok(Err(e)) => ev(j.s("res", "err").s("reason", &named(&e))), Err(m) => ev(j.s("res", "panic").s("reason", &m)) }
}
fn dims(d: usize, ds: &[usize]) -> J { J::op("ask").i("d", d as i64).v("ds", &ds.iter().map(|x| *x as i64).collect::<Vec<_>>()) }
fn other(r: &mut R, d: usize) -> usize { if r.p(1, 2) { d } else { r.r(0, 5) as usize } }
fn at(r: &mut R, n: usize) -> Position<f64> { Position::new((0..n).map(|_| r.r(-8, 8) as f64 / 64.0).collect()) }

fn places(r: &mut R) {
    let s = Sh::random(r, 4, true);
    let sys = s.make(1.0);
    let mut rng: Pcg64 = moledyn::random_mod::rng_seed(r.u() as u128);
    for _ in 0..6 {
        let (a, b) = (other(r, s.dim), other(r, s.dim));
        // a step of a thousandth stays inside or is brought back; one of a hundred times the extension cannot be
        let far = r.p(1, 3);
        let mut p = at(r, a);
        let mut dp = Position::new(vec![if far { 200.0 * (s.l + s.r) } else { 0.001 }; b]);
        ask(dims(s.dim, &[a, b]).b("far", far), "move", || sys.check_bc(&mut p, &mut dp));
        let (n, m) = (other(r, s.dim), other(r, s.dim)); let (p, mut q) = (at(r, n), at(r, m));
        ask(dims(s.dim, &[p.dim()]), "inside", || sys.check_inclusion(&p));
        ask(dims(s.dim, &[q.dim()]), "draw", || sys.random_pos_to_vec(&mut rng, &mut q));
        let t = ContBulkTarget::new(at(r, s.dim), 0.25);
        let n = other(r, s.dim); let p = at(r, n);
        ask(dims(s.dim, &[p.dim()]), "find", || t.check_find(&p));
        let n = other(r, s.dim); let (x, y) = (at(r, s.dim), at(r, n));
        ask(dims(s.dim, &[y.dim()]), "distance", || x.distance(&y));
        ask(dims(s.dim, &[y.dim()]), "product", || x.inner_product(&y));
        let f = |p: &Position<f64>| Position::<i32>::new(p.iter().map(|z| (*z * 64.0) as i32).collect());
        ask(dims(s.dim, &[y.dim()]), "distance", || f(&x).distance(&f(&y)));
        ask(dims(s.dim, &[y.dim()]), "taxi", || f(&x).taxi_distance(&f(&y)));
        if s.shape == 1 {
            let c = ContCircSystem::new(s.r, s.dim);
            for k in 0..2 {
                let (n, m) = (other(r, s.dim), other(r, s.dim)); let (mut p, mut d) = (at(r, n), at(r, m));
                let far = r.p(1, 3);
                if far { d = Position::new(vec![200.0 * s.r; d.dim()]); }
                ask(dims(s.dim, &[p.dim(), d.dim()]).b("far", far), "move", || if k == 0 { moledyn::system_mod::cont_circ::check_bc_exact(c.clone(), &mut p, &mut d) } else { moledyn::system_mod::cont_circ::check_bc_first_order(c.clone(), &mut p, &mut d) });
            }
        }
    }
}
fn kinds<A: Ag>(r: &mut R) {
    let mut rng: Pcg64 = moledyn::random_mod::rng_seed(r.u() as u128);
    for _ in 0..6 {
        let d = r.r(1, 4) as usize;
        let levy = r.p(1, 3);
        let mt = if levy { MoveType::Levy } else { MoveType::Brownian(1.0) };
        let (x, y) = (A::mk(at(r, d).coordinate, mt), { let n = other(r, d).max(1); A::mk((0..n).map(|i| i as f64 + 3.0).collect(), MoveType::Brownian(1.0)) });
        ask(dims(d, &[y.dim()]), "apart", || x.mutual_displacement(&y));
        ask(dims(d, &[y.dim()]), "apart", || x.mutual_distance(&y));
        let n = other(r, d); let mut v = at(r, n);
        ask(dims(d, &[y.dim(), v.dim()]), "apart", || x.mutual_displacement_to_vec(&y, &mut v));
        ask(dims(d, &[]).b("levy", levy), "jump", || x.random_move(&mut rng, 0.5));
        let n = other(r, d); let mut v = at(r, n);
        ask(dims(d, &[v.dim()]).b("levy", levy), "jump", || x.random_move_to_vec(&mut rng, 0.5, &mut v));
    }
}
fn mergers(r: &mut R) {
    for _ in 0..6 {
        let levy = r.p(1, 2);
        let mk = |l: bool| ContPassiveMergeAgent::new(if l { MoveType::Levy } else { MoveType::Brownian(1.0) }, Position::new(vec![0.0]), 0.25, 0.5);
        let (mut a, b) = (mk(levy), mk(r.p(1, 2)));
        ask(dims(1, &[]).b("levy", levy), "jump", || a.merge(&b));
        ask(dims(1, &[]).b("levy", levy), "jump", || a.add_size(2));
        let n = r.r(2, 6) as usize;
        let mut l = LinkedList::from((0..n).map(|_| mk(false)).collect::<Vec<_>>());
        let dead = r.n(n as u64) as usize;
        l.del(dead).unwrap();
        let (i, j) = (r.n(n as u64 + 3) as usize, r.n(n as u64 + 3) as usize);
        let gone = |k: usize| k >= n || k == dead;
        ask(J::op("ask").b("bad", gone(i) || gone(j) || i == j), "value", || l.merge(i, j));
        let mut l = LinkedList::from((0..n).map(|_| mk(false)).collect::<Vec<_>>());
        l.del(dead).unwrap();
        ask(J::op("ask").b("bad", gone(i)), "value", || l.del(i));
    }
}
fn clocks(r: &mut R) {
    let val = |r: &mut R| *r.pick(&[-1.0, -1e-9, 0.0, 1e-18, 0.5, 1.0, 2.0, 8.0]);
    for _ in 0..8 {
        let (a, b, n) = (val(r), val(r), r.n(4) as usize);
        ask(J::op("ask").b("bad", a < 1e-15), "value", || ConstStep::new(a));
        ask(J::op("ask").b("bad", a < 1e-15 || b < a || n == 0), "value", || ExponentialStep::new(a, b, n));
        let mut c = ConstStep::new(0.5).unwrap();
        ask(J::op("ask").b("bad", a < 0.0), "value", || c.set_tmax(a));
        let mut e = ExponentialStep::new(0.5, 2.0, 10).unwrap();
        ask(J::op("ask").b("bad", a < 0.0), "value", || e.set_tmax(a));
        ask(J::op("ask").b("bad", b <= 1.0), "value", || e.set_inc(b));
        let lo = r.r(-1, 4) as f64; let hi = r.r(-1, 9) as f64; let bins = r.r(0, 20) as usize;
        let bad = lo < 0.0 || hi <= lo || hi <= 0.0 || bins < 10;
        ask(J::op("ask").b("bad", bad), "value", || TimeAnalysis::default().update_from_num_bin(lo, hi, bins));
        ask(J::op("ask").b("bad", bad), "value", || TimeVecAnalysis::convert_num_bin_to_bin_size(lo, hi, bins));
        let (w, q) = (val(r), val(r));
        ask(J::op("ask").b("bad", lo < 0.0 || hi <= lo || hi <= 0.0 || w <= 0.0 || q <= 1.0), "value", || if w > 0.0 && w < 1e-3 { ProcessAnalysis::default().update_from_bin_size(lo, hi, 0.5, q) } else { ProcessAnalysis::default().update_from_bin_size(lo, hi, w, q) });
    }
}
fn texts(r: &mut R) {
    let words: [(&str, bool); 12] = [("1,2", false), ("1,x", true), ("", true), ("1,2,", true), ("x", true), ("-1.5,2e3", false), ("1 2", true), ("0x1", true), (",", true), ("1,,2", true), ("NaN,y", true), ("3,4,5", false)];
    let (t, bad) = *r.pick(&words); let j = J::op("ask").b("bad", bad).s("text", t);
    ask(j, "value", || t.parse::<Position<f64>>());
    for (t, bad) in [("Levy", false), ("levi", true), ("1.5", false), ("Brownian", true), ("Brownian with D = x", true)] { ask(J::op("ask").b("bad", bad).s("text", t), "value", || t.parse::<MoveType>()); }
    for (t, bad) in [("Periodic", false), ("Reflective?", true), ("2", false), ("-2", true), ("1.5", true)] { ask(J::op("ask").b("bad", bad).s("text", t), "value", || t.parse::<BoundaryCond>()); }
    for (t, bad) in [("0.5", false), ("x", true), ("1 2", true), ("1 2 3", false), ("1 2 3.5", true), ("1 x 3", true), ("1 2 3 4", true), ("1,2,3", true)] { ask(J::op("ask").b("bad", bad).s("text", t), "value", || t.parse::<TimeType>()); }
    for (t, bad) in [("Uniform", false), ("Unifrom", true), ("1,2", false), ("1,y", true)] { ask(J::op("ask").b("bad", bad).s("text", t), "value", || t.parse::<InitType<f64>>()); }
    // pairs: two numbers, no more and no less
    for _ in 0..6 {
        let n = r.n(5) as usize;
        let bad = if n > 0 { r.n(n as u64 + 1).min(1) as usize } else { 0 };
        let mut w: Vec<String> = (0..n).map(|i| format!("{}.5", i)).collect();
        if bad > 0 { let k = r.n(n as u64) as usize; w[k] = "word".into(); }
        // an empty pair has one component that is no number
        let (n2, bad2) = if n == 0 { (1, 1) } else { (n, bad) };
        let t = format!("({})", w.join(","));
        ask(J::op("ask").i("need", 2).i("got", n2 as i64).i("bad", bad2 as i64), "words", || t.parse::<Pair<f64>>());
    }
}
fn words_of<T, A: Argument<T>>(r: &mut R, good: &[&str], free: &[usize]) {
    for _ in 0..4 {
        let mut w: Vec<String> = good.iter().map(|s| s.to_string()).collect();
        let mut bad = 0;
        for k in 0..w.len() { if !free.contains(&k) && r.p(1, 6) { w[k] = ["?", "", "1;2", "one"][r.n(4) as usize].into(); bad += 1; } }
        match r.n(6) { 0 => { w.pop(); bad = 0; } 1 => { w.push("1".into()); bad = 0; } 2 if w.len() > 1 => { w.truncate(1); bad = 0; } _ => {} }
        ask(J::op("ask").i("need", good.len() as i64).i("got", w.len() as i64).i("bad", bad), "words", || A::read_args_from_vec(&w));
    }
}
fn lines_of<T, A: Argument<T>>(r: &mut R, dir: &str, text: &str, free: &[&str], typed: Option<&str>) {
    for _ in 0..5 {
        let mut ls: Vec<Vec<u8>> = text.lines().map(|l| l.as_bytes().to_vec()).collect();
        let mut what: Vec<String> = vec!["good".into(); ls.len()];
        for k in 0..ls.len() {
            if !r.p(1, 5) { continue; }
            let l = String::from_utf8(ls[k].clone()).unwrap();
            let (name, val) = { let mut i = l.splitn(2, ':'); (i.next().unwrap().to_string(), i.next().unwrap().to_string()) };
            let (l2, w) = match r.n(6) {
                0 => (format!("{}x:{}", name.trim_end(), val), "name"),
                1 => (format!("{} {}", name, val.replace(':', " ")), "colon"),
                2 => (String::new(), "colon"),
                3 if !free.contains(&name.trim()) => (format!("{}: ?!", name), "value"),
                4 if k == 0 && typed.is_some() => (format!("{}: {}", name, typed.unwrap()), "kind"),
                5 => (l.clone(), "bytes"),
                _ => continue };
            ls[k] = l2.into_bytes(); what[k] = w.into();
            if w == "bytes" { ls[k].extend_from_slice(b"\xff\xfe"); }
        }
        if r.p(1, 5) { let n = r.n(ls.len() as u64) as usize; ls.truncate(n); for k in n..what.len() { what[k] = "missing".into(); } }
        let p = format!("{}/head", dir);
        let mut b = vec![];
        for l in &ls { b.extend(l); b.push(b'\n'); }
        std::fs::write(&p, &b).unwrap();
        use std::io::BufRead;
        let mut reader = std::io::BufReader::new(std::fs::File::open(&p).unwrap()).lines();
        ask(J::op("ask").vs("lines", &what), "header", || A::read_args_from_lines(&mut reader));
    }
}
/// words for an analysis of the (empty) results below a directory
fn analyses(r: &mut R, dir: &str) {
    for _ in 0..6 {
        let kind = r.n(3);
        let d = format!("{}/results", dir);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        let by_size = r.p(1, 2);
        let mut w: Vec<String> = vec![];
        if kind == 1 { w.push("2".into()); }
        let first = w.len();
        let (lo, hi) = (r.r(0, 3) as f64, r.r(-1, 6) as f64);
        let mut range = hi <= lo || hi <= 0.0;
        w.push(lo.to_string()); w.push(hi.to_string());
        if by_size { w.push("0.5".into()); w.push(if r.p(1, 5) { range = true; "1" } else { "1.5" }.into()); } else { w.push(if r.p(1, 5) { range = true; "9" } else { "10" }.into()); }
        let mut bad = 0;
        for k in 0..w.len() { if r.p(1, 8) { w[k] = "many".into(); bad += 1; } }
        w.push(d.clone());
        let needs = if kind == 1 { [5, 6] } else { [4, 5] };
        if r.p(1, 4) { let n = *r.pick(&[0usize, 1, 2, 3, 7, 8]); w = (0..n).map(|_| d.clone()).collect(); bad = 0; range = false; }
        let j = J::op("ask").v("needs", &needs).i("got", w.len() as i64).i("bad", bad).b("range", range);
        ask(j, "analysis", || match kind { 0 => TimeAnalysis::analyze::<crate::header::d1::D1>(&w, 15, "PRE"), 1 => TimeVecAnalysis::analyze::<crate::header::d1::D1>(&w, 15, "PRE"), _ => ProcessAnalysis::analyze::<crate::header::d1::D1>(&w, 15, "PRE") });
    }
    let _ = std::fs::remove_dir_all(format!("{}/results", dir));
}
pub fn run_reason(a: &Args) {
    let dir = a.dir.clone().expect("--dir");
    // what kinds of errors there are, and how they compare
    begin_case("kinds", J::new());
    let mut all = codes();
    for (i, k) in [std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::Other].iter().enumerate() { all.push((["io1", "io2", "io3"][i], Error::make_error_io(std::io::Error::new(*k, format!("failure {}", i))))); }
    all.push(("msg1", Error::make_error_msg("something else".into()))); all.push(("msg2", Error::make_error_msg("another thing".into())));
    for (n, e) in &all {
        let c = match e.classify() { Category::Io => "io", Category::Data => "data", Category::Syntax => "syntax" };
        ev(J::op("kind").s("code", n).s("class", c).b("io", e.is_io()).b("data", e.is_data()).b("syntax", e.is_syntax()));
        for (m, f) in &all { ev(J::op("same").s("a", n).s("b", m).b("eq", e == f).b("text", format!("{}", e) == format!("{}", f))); }
    }
    end_case();
    for i in 0..a.num(300, 6000) {
        let mut r = R::new(a.seed, 0x330000 + i);
        begin_case(format!("reason-{}", i), J::new());
        match i % 6 {
            0 => places(&mut r),
            1 => { kinds::<ContPassiveIndepAgent>(&mut r); kinds::<ContPassiveMergeAgent>(&mut r); }
            2 => { kinds::<ContPassiveExpAgent>(&mut r); kinds::<ContPassiveLJAgent>(&mut r); mergers(&mut r); }
            3 => { clocks(&mut r); texts(&mut r); analyses(&mut r, &dir); }
            4 => {
                words_of::<_, ContCubicSystem>(&mut r, &["Periodic", "1.5", "2"], &[]);
                words_of::<_, ContCircSystem>(&mut r, &["1.5", "2"], &[]);
                words_of::<_, ContCylindricalSystem>(&mut r, &["1", "1", "1.5", "2.5", "2"], &[]);
                words_of::<_, ContBulkTarget>(&mut r, &["0,0", "1.5"], &[]);
                words_of::<_, ContPassiveIndepAgent>(&mut r, &["1.5", "Uniform", "2"], &[]);
                words_of::<_, ContPassiveExpAgent>(&mut r, &["1.5", "0,0", "0.5", "2", "1.5", "1"], &[]);
                words_of::<_, ContPassiveLJAgent>(&mut r, &["1.5", "0,0", "0.5", "1.5", "1"], &[]);
                words_of::<_, ContPassiveMergeAgent>(&mut r, &["Levy", "0,0", "0.5", "0.5", "1"], &[]);
                words_of::<_, ConstStep>(&mut r, &["0.1", "0"], &[]);
                words_of::<_, ExponentialStep>(&mut r, &["0.1", "1.0", "10", "0"], &[]);
                words_of::<_, VariableSimulation>(&mut r, &["1", "2", "3", "out"], &[3]);
            }
            _ => {
                let sys = format!("{}", SystemType::Lattice);
                let agent = format!("{}", AgentType::ContinuousPassiveInteracting);
                lines_of::<_, ContCubicSystem>(&mut r, &dir, &ContCubicSystemArguments::new(BoundaryCond::Periodic, 1.5, 2).print_configuration(15), &[], Some(&sys));
                lines_of::<_, ContCircSystem>(&mut r, &dir, &ContCircSystemArguments::new(1.5, 2).print_configuration(9), &[], Some(&sys));
                lines_of::<_, ContBulkTarget>(&mut r, &dir, &ContBulkTargetArguments::new(Position::new(vec![0.0, 1.0]), 2.0).print_configuration(20), &[], Some(&format!("{}", TargetType::ContinuousAtBoundary)));
                lines_of::<_, ContPassiveIndepAgent>(&mut r, &dir, &ContPassiveIndepAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, 3).print_configuration(12), &[], Some(&agent));
                lines_of::<_, ConstStep>(&mut r, &dir, &ConstStepArguments::new(0.1, 0.0).print_configuration(12), &[], None);
                lines_of::<_, ExponentialStep>(&mut r, &dir, &ExponentialStepArguments::new(0.1, 1.0, 10, 0.0).print_configuration(12), &[], None);
                lines_of::<_, VariableSimulation>(&mut r, &dir, &VariableSimulationArguments::new(1, 2, 3, "out".into()).print_configuration(12), &["output_dir"], None);
            }
        }
        end_case();
    }
}
