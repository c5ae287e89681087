//! Text forms of the argument types: C28.
use crate::util::*;
use moledyn::analysis::Pair;
use moledyn::prelude::*;

fn cf(x: f64) -> String { if x.is_nan() { "NaN".into() } else { format!("{:016x}", x.to_bits()) } }
fn vj(v: &str, a: &[String]) -> J { J::new().s("v", v).vs("a", a) }
fn real(r: &mut R) -> f64 {
    let x = match r.n(9) {
        0 => r.r(0, 9) as f64, 1 => r.r(-1000, 1000) as f64 / 8.0, 2 => r.r(1, 99999) as f64 * 1e-7, 3 => f64::from_bits(r.u() >> 2),
        4 => r.r(1, 999) as f64 * 1e18, 5 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1.0 / 3.0, f64::EPSILON, 1e15, 1e16, 1e-5, 123456789.125]),
        6 => r.r(-99, 99) as f64 / 10.0, _ => (r.u() % 1000000007) as f64 / 1e5 };
    if r.p(1, 6) { -x } else { x }
}
fn size(r: &mut R) -> usize { match r.n(4) { 0 => r.r(1, 9) as usize, 1 => r.r(0, 100) as usize, 2 => r.n(1 << 50) as usize, _ => r.r(1, 20) as usize } }

trait Txt: Sized + FromStr + Clone {
    const TY: &'static str;
    const SHOWS: bool = true;
    fn gen(r: &mut R) -> Self;
    fn val(&self) -> J;
    fn text(&self) -> String;
}
macro_rules! plain { ($t:ident) => { fn text(&self) -> String { format!("{}", self) } } }
impl Txt for MoveType {
    const TY: &'static str = "move";
    fn gen(r: &mut R) -> Self { if r.p(1, 8) { MoveType::Levy } else { MoveType::Brownian(real(r)) } }
    fn val(&self) -> J { match self { MoveType::Brownian(c) => vj("Brownian", &[cf(*c)]), MoveType::Levy => vj("Levy", &[]) } }
    plain!(x);
}
impl Txt for InitType<f64> {
    const TY: &'static str = "init";
    fn gen(r: &mut R) -> Self { if r.p(1, 8) { InitType::Uniform } else { let n = r.r(1, 6); InitType::SpecificPosition(Position::new((0..n).map(|_| real(r)).collect())) } }
    fn val(&self) -> J { match self { InitType::Uniform => vj("Uniform", &[]), InitType::SpecificPosition(p) => vj("At", &p.iter().map(|x| cf(*x)).collect::<Vec<_>>()) } }
    plain!(x);
}
impl Txt for InitType<i32> {
    const TY: &'static str = "initi";
    fn gen(r: &mut R) -> Self { if r.p(1, 8) { InitType::Uniform } else { let n = r.r(1, 6); InitType::SpecificPosition(Position::new((0..n).map(|_| r.u() as i32 >> r.n(31)).collect())) } }
    fn val(&self) -> J { match self { InitType::Uniform => vj("Uniform", &[]), InitType::SpecificPosition(p) => vj("At", &p.iter().map(|x| x.to_string()).collect::<Vec<_>>()) } }
    plain!(x);
}
impl Txt for InteractType {
    const TY: &'static str = "interact";
    fn gen(r: &mut R) -> Self { match r.n(6) { 0 => InteractType::Coulomb2D, 1 => InteractType::Coulomb3D, 2 | 3 => InteractType::LennardJones(real(r)), _ => InteractType::Exponential(size(r), real(r)) } }
    fn val(&self) -> J { match self { InteractType::Exponential(d, g) => vj("Exponential", &[d.to_string(), cf(*g)]), InteractType::Coulomb2D => vj("Coulomb2D", &[]),
        InteractType::Coulomb3D => vj("Coulomb3D", &[]), InteractType::LennardJones(a) => vj("LennardJones", &[cf(*a)]) } }
    plain!(x);
}
impl Txt for TimeType {
    const TY: &'static str = "time";
    fn gen(r: &mut R) -> Self {
        let mut six = || -> f64 { format!("{}e{}", r.r(1, 999999), r.r(-40, 40)).parse().unwrap() };
        let (a, b) = (six(), six());
        if r.p(1, 3) { TimeType::Constant(a) } else { TimeType::Exponential(a, b, size(r)) } }
    fn val(&self) -> J { match self { TimeType::Constant(a) => vj("Constant", &[cf(*a)]), TimeType::Exponential(a, b, n) => vj("Exponential", &[cf(*a), cf(*b), n.to_string()]) } }
    plain!(x);
}
impl Txt for SystemType {
    const TY: &'static str = "system";
    fn gen(r: &mut R) -> Self { match r.n(7) { 0 => SystemType::ContinuousCircular, 1 => SystemType::ContinuousRectangular, 2 => SystemType::Lattice, 3 => SystemType::Network, _ => SystemType::ContinuousCylindrical(size(r)) } }
    fn val(&self) -> J { match self { SystemType::ContinuousCircular => vj("Circular", &[]), SystemType::ContinuousRectangular => vj("Rectangular", &[]), SystemType::Lattice => vj("Lattice", &[]),
        SystemType::Network => vj("Network", &[]), SystemType::ContinuousCylindrical(d) => vj("Cylindrical", &[d.to_string()]) } }
    plain!(x);
}
impl Txt for BoundaryCond {
    const TY: &'static str = "bound";
    fn gen(r: &mut R) -> Self { match r.n(5) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(size(r)) } }
    fn val(&self) -> J { match self { BoundaryCond::Periodic => vj("Periodic", &[]), BoundaryCond::Reflection => vj("Reflective", &[]), BoundaryCond::Mixed(d) => vj("Mixed", &[d.to_string()]) } }
    plain!(x);
}
impl Txt for TargetType {
    const TY: &'static str = "target";
    fn gen(r: &mut R) -> Self { *r.pick(&[TargetType::ContinuousInBulk, TargetType::ContinuousAtBoundary, TargetType::LatticeInBulk, TargetType::LatticeAtBoundary, TargetType::NetworkSingleNode]) }
    fn val(&self) -> J { vj(&format!("{:?}", self), &[]) }
    plain!(x);
}
impl Txt for AgentType {
    const TY: &'static str = "agent";
    fn gen(r: &mut R) -> Self { use AgentType::*; *r.pick(&[ContinuousPassiveIndependent, ContinuousPassiveInteracting, ContinuousActiveIndependent, ContinuousActiveInteracting,
        LatticePassiveIndependent, LatticePassiveInteracting, LatticeActiveIndependent, LatticeActiveInteracting, NetworkPassiveIndependent, NetworkPassiveInteracting, NetworkActiveIndependent, NetworkActiveInteracting]) }
    fn val(&self) -> J { vj(&format!("{:?}", self), &[]) }
    plain!(x);
}
impl Txt for Position<f64> {
    const TY: &'static str = "pos";
    fn gen(r: &mut R) -> Self { let n = if r.p(1, 10) { r.r(7, 40) } else { r.r(1, 6) }; Position::new((0..n).map(|_| real(r)).collect()) }
    fn val(&self) -> J { vj("Pos", &self.iter().map(|x| cf(*x)).collect::<Vec<_>>()) }
    plain!(x);
}
impl Txt for Position<i32> {
    const TY: &'static str = "posi";
    fn gen(r: &mut R) -> Self { let n = if r.p(1, 10) { r.r(7, 40) } else { r.r(1, 6) }; Position::new((0..n).map(|_| r.u() as i32 >> r.n(31)).collect()) }
    fn val(&self) -> J { vj("Pos", &self.iter().map(|x| x.to_string()).collect::<Vec<_>>()) }
    plain!(x);
}
impl Txt for Pair<f64> {
    const TY: &'static str = "pair";
    const SHOWS: bool = false;
    fn gen(_: &mut R) -> Self { unreachable!() }
    fn val(&self) -> J {
        let s = format!("{:?}", self);
        let s = s.trim_start_matches("Pair(").trim_end_matches(')');
        vj("Pair", &s.split(", ").map(|x| x.parse::<f64>().map_or("?".into(), cf)).collect::<Vec<_>>()) }
    fn text(&self) -> String { unreachable!() }
}

fn read<T: Txt>(s: &str) -> Option<Option<T>> { guard_ev(T::TY, || s.parse::<T>().ok()) }
fn log_read<T: Txt>(op: &str, s: &str) {
    if let Some(x) = read::<T>(s) {
        let j = J::op(op).s("text", s).b("ok", x.is_some());
        ev(match &x { Some(v) => j.o("val", v.val()), None => j });
    }
}
/// one word of a short form
fn word(r: &mut R) -> String {
    match r.n(14) {
        0 => "x".into(), 1 => "".into(), 2 => "1.5.2".into(), 3 => "2x".into(), 4 => "--3".into(), 5 => "1e5".into(), 6 => "-4".into(), 7 => "0".into(), 8 => "4.0".into(),
        9 => size(r).to_string(), 10 => "+3".into(), 11 => r.r(1, 9).to_string(), _ => real(r).to_string() }
}
fn short<T: Txt>(r: &mut R) {
    let names = ["Levy", "Uniform", "Exponential", "Coulomb2D", "Coulomb3D", "LennardJones", "Circular", "Rectangular", "Lattice", "Network", "Reflective", "Periodic", "Foo", "uniform", "Cubic"];
    let mine: &[&str] = match T::TY { "move" => &["Levy"], "init" | "initi" => &["Uniform"], "interact" => &["Exponential", "Coulomb2D", "Coulomb3D", "LennardJones"],
        "system" => &["Circular", "Rectangular", "Lattice", "Network"], "bound" => &["Reflective", "Periodic"], _ => &[] };
    let mut name = match r.n(4) { 0 if !mine.is_empty() => r.pick(mine).to_string(), 1 if r.p(1, 4) => r.pick(&names).to_string(), _ => String::new() };
    // a name that is nearly one
    if !name.is_empty() && r.p(1, 4) { name = match r.n(5) { 0 => format!("{}{}", name, r.pick(&["s", "x", "ly", "flight", "2", "_", "4D"])), 1 => name[..name.len() - 1].into(), 2 => name[1..].into(),
        3 => name.to_lowercase(), _ => format!("{}{}", r.pick(&["a", "Non", "1"]), name) }; }
    let many = |r: &mut R, n: i64| -> Vec<String> { (0..n).map(|_| if r.p(2, 3) { if r.p(1, 2) { size(r).to_string() } else { real(r).to_string() } } else { word(r) }).collect() };
    let (args, text) = match T::TY {
        "interact" => {
            name = r.pick(&["Exponential", "Exponential", "LennardJones", "Coulomb2D", "Coulomb3D", "Foo", ""]).to_string();
            let n = match name.as_str() { "Exponential" => 2, "LennardJones" => 1, _ => 0 };
            let n = if n > 0 && r.p(1, 4) { r.r(0, 4) } else { n };
            let mut a = many(r, n);
            if name == "Exponential" && n == 2 && r.p(1, 2) { a[0] = size(r).to_string(); }
            let near = n > 0 && r.p(1, 8);
            if near { name = r.pick(&["Exponentials", "Exp", "exponential", "Lennard", "LennardJones6", "XLennardJones", "Coulomb", "Coulomb4D"]).to_string(); }
            let t = if n == 0 { name.clone() } else { format!("{}({})", name, a.join(",")) };
            (a, t)
        }
        "pos" | "posi" | "pair" | "init" | "initi" if name.is_empty() => {
            let n = if T::TY == "pair" && r.p(2, 3) { 2 } else { r.r(1, 5) };
            let mut a = many(r, n);
            if T::TY == "posi" || T::TY == "initi" || r.p(1, 2) { for x in a.iter_mut() { if r.p(7, 8) { *x = r.r(-99, 99).to_string(); } } }
            let sep = if T::TY == "pair" || r.p(1, 2) { "," } else { ":" };
            let sep = if T::TY.starts_with("pos") && r.p(1, 4) { " , " } else { sep };
            let t = a.join(sep);
            (a, match r.n(3) { 0 => format!("({})", t), _ => t })
        }
        _ if name.is_empty() => { let n = match T::TY { "time" => *r.pick(&[1, 2, 3, 3, 4]), _ => r.r(1, 2) };
            let mut a = many(r, n);
            if n == 3 && r.p(1, 2) { a[2] = size(r).to_string(); }
            // an empty word is no word
            for x in a.iter_mut() { if x.is_empty() { *x = "x".into(); } }
            if (T::TY == "system" || T::TY == "bound") && n > 1 { a.truncate(1); }
            let t = a.join(" "); (a, t) }
        _ => (vec![], name.clone()),
    };
    // whole numbers: signed for integer coordinates, counts otherwise
    let k: Vec<String> = args.iter().map(|x| { let x = x.trim();
        if T::TY == "posi" || T::TY == "initi" { x.parse::<i32>().map_or(String::new(), |v| v.to_string()) } else { x.parse::<usize>().map_or(String::new(), |v| v.to_string()) } }).collect();
    let f: Vec<String> = args.iter().map(|x| x.trim().parse::<f64>().map_or(String::new(), cf)).collect();
    if let Some(x) = read::<T>(&text) {
        let z: Vec<&str> = k.iter().map(|x| if x == "0" { "true" } else { "false" }).collect();
        let j = J::op("short").s("text", &text).s("name", &name).vs("a", &f).vs("k", &k).raw("zero", &format!("[{}]", z.join(","))).b("ok", x.is_some());
        ev(match &x { Some(v) => j.o("val", v.val()), None => j });
    }
}
fn digits(w: &str) -> bool { w.chars().any(|c| c.is_ascii_digit()) }
fn mutate(r: &mut R, s: &str) -> String {
    let mut w: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
    match r.n(9) {
        0 => { let i = r.n(w.len() as u64) as usize; w.remove(i); w.join(" ") }
        1 => { let i = r.n(w.len() as u64) as usize; let x = w[i].clone(); w.insert(i, x); w.join(" ") }
        2 => { let (i, j) = (r.n(w.len() as u64) as usize, r.n(w.len() as u64) as usize); w.swap(i, j); w.join(" ") }
        3 => { let i = r.n(w.len() as u64) as usize; w.truncate(i); w.join(" ") }
        4 => { let mut c: Vec<char> = s.chars().collect(); if !c.is_empty() { let i = r.n(c.len() as u64) as usize; c[i] = *r.pick(&['é', '(', ')', ',', ':', ' ', '9', '.', '-', 'ㄱ', '\t']); } c.into_iter().collect() }
        5 => { let c: Vec<char> = s.chars().collect(); c[..r.n(c.len() as u64 + 1) as usize].iter().collect() }
        6 => { let i = r.n(w.len() as u64) as usize; w[i] = r.pick(&["é", "0", "..", "0.", "한국", "(", "()", ",", ",,", "1,2", "Exponential(", "Exponential", "LennardJones()", "Mixed", "Brownian", "Continuous", "Coulomb", "Constant"]).to_string(); w.join(" ") }
        7 => format!(" {}  ", s.replace(' ', "  ")),
        _ => r.pick(&["", " ", "()", "(", ",", ":", "Exponential(", "Exponential()", "Exponential(1)", "LennardJones", "LennardJones(", "Mixed", "Mixed a b", "Mixed a b c", "Continuous", "Continuous Cylindrical", "Continuous Cylindrical a é",
                      "Brownian", "Brownian a b c", "Constant", "Exponential a", "Initialize all", "Initialize all agents at", "a all", "Coulomb", "Coulomb a b", "Lennard", "Mixed a b é한", "1,2,3", "(1)", "1", "Mixed x y 0..", "Continuous Cylindrical x 0.."]).to_string(),
    }
}
fn cases<T: Txt>(a: &Args, stream: u64) where T: Txt {
    for i in 0..a.num(40, 600) {
        let mut r = R::new(a.seed, i + (stream << 40));
        begin_case(format!("texts-{}-{}", T::TY, i), J::new().s("ty", T::TY));
        let mut seen: Vec<String> = vec![];
        for _ in 0..25 {
            if T::SHOWS {
                let v = T::gen(&mut r);
                let t = match guard_ev("show", || v.text()) { Some(t) => t, None => break };
                ev(J::op("show").s("text", &t).o("val", v.val()));
                seen.push(t.clone());
                log_read::<T>("read", &t);
                let w: Vec<&str> = t.split_whitespace().collect();
                if let Some(k) = w.iter().position(|x| digits(x)) {
                    let bad = *r.pick(&["x", "one", "1.2.3", "é", "0..x", "--1"]);
                    let s: Vec<&str> = w.iter().map(|x| if digits(x) { bad } else { *x }).collect();
                    log_read::<T>("spoil", &s.join(" "));
                    log_read::<T>("spoil", &w[..k].join(" "));
                    // the dimension of a Coulomb potential is part of its name
                    if t.starts_with("Coulomb") { let bad = *r.pick(&["0", "1", "4", "5", "22", "32", "-2", "2.5", "D"]);
                        let s: Vec<&str> = w.iter().map(|x| if digits(x) { bad } else { *x }).collect(); log_read::<T>("spoil", &s.join(" ")); }
                }
                if r.p(1, 3) { let t = r.pick(&seen).clone(); log_read::<T>("read", &t); }
            }
            if !matches!(T::TY, "target" | "agent") { short::<T>(&mut r); }
            let base = if seen.is_empty() { word(&mut r) } else { r.pick(&seen).clone() };
            let m = mutate(&mut r, &base);
            if let Some(x) = read::<T>(&m) {
                let j = J::op("any").s("text", &m).b("ok", x.is_some());
                match &x {
                    Some(v) if T::SHOWS && T::TY != "time" => {
                        let again = match guard_ev("show", || v.text()) { Some(t) => t, None => break };
                        // an empty place list has no readable text
                        match read::<T>(&again) { Some(Some(y)) => ev(j.o("val", v.val()).o("again", y.val())), Some(None) => ev(j.o("val", v.val()).s("again", "refused")), None => break }
                    }
                    Some(v) => ev(j.o("val", v.val()).o("again", v.val())),
                    None => ev(j),
                }
            }
        }
        log_read::<T>("spoil", "");
        end_case();
    }
}
fn dev(a: f64, b: f64) -> i64 { if a == b { 0 } else { fx((a - b) / a, 1e8) } }

pub fn run_texts(a: &Args) {
    cases::<MoveType>(a, 81); cases::<InitType<f64>>(a, 82); cases::<InitType<i32>>(a, 83); cases::<InteractType>(a, 84); cases::<TimeType>(a, 85);
    cases::<SystemType>(a, 86); cases::<BoundaryCond>(a, 87); cases::<TargetType>(a, 88); cases::<AgentType>(a, 89); cases::<Position<f64>>(a, 90);
    cases::<Position<i32>>(a, 91); cases::<Pair<f64>>(a, 92);
    for i in 0..a.num(20, 200) {
        let mut r = R::new(a.seed, i + (93 << 40));
        begin_case(format!("texts-extra-{}", i), J::new().s("ty", "time"));
        for _ in 0..20 {
            let (x, y, n) = (real(&mut r).abs(), real(&mut r).abs(), size(&mut r));
            if x > 1e-300 && y > 1e-300 && x < 1e300 && y < 1e300 {
                let t = if r.p(1, 2) { TimeType::Constant(x) } else { TimeType::Exponential(x, y, n) };
                if let Some(res) = read::<TimeType>(&format!("{}", t)) {
                    ev(match (res, t) {
                        (Some(TimeType::Constant(p)), TimeType::Constant(_)) => J::op("near").b("ok", true).v("dev", &[dev(x, p)]),
                        (Some(TimeType::Exponential(p, q, m)), TimeType::Exponential(..)) => J::op("near").b("ok", m == n).v("dev", &[dev(x, p), dev(y, q)]),
                        _ => J::op("near").b("ok", false).v("dev", &[]) });
                }
            }
            let v = InteractType::gen(&mut r);
            if let Some(x) = guard_ev("f64::from", || f64::from(v)) { ev(J::op("num").o("val", v.val()).s("n", &cf(x)).s("zero", &cf(0.0))); }
        }
        end_case();
        // places in exponent form read back too
        begin_case(format!("texts-lower-{}", i), J::new().s("ty", "pos"));
        for _ in 0..10 {
            let p = Position::<f64>::gen(&mut r);
            if let Some(t) = guard_ev("show", || format!("{:e}", p)) { ev(J::op("show").s("text", &t).o("val", p.val())); log_read::<Position<f64>>("read", &t); }
        }
        end_case();
        begin_case(format!("texts-lower5-{}", i), J::new().s("ty", "pos"));
        for _ in 0..10 {
            let n = r.r(1, 7);
            let p: Position<f64> = Position::new((0..n).map(|_| format!("{}e{}", r.r(-999999, 999999), r.r(-30, 30)).parse().unwrap()).collect());
            if let Some(t) = guard_ev("show", || format!("{:.5e}", p)) { ev(J::op("show").s("text", &t).o("val", p.val())); log_read::<Position<f64>>("read", &t); }
        }
        end_case();
    }
}
