//! Interactions along walks in the distance (C25) and frequencies of draws (C26).
use crate::agents::*;
use crate::geom::Sh;
use crate::util::*;
use moledyn::prelude::*;
use moledyn::random_mod::*;

fn walk<A: Ag + Interaction<f64, f64>>(id: String, r: &mut R, kind: &str, range: f64, how: &str, a: &A) {
    begin_case(id, J::new().s("kind", kind).s("how", how).s("agent", &a.conf()));
    let (lo, hi) = match (kind, r.n(3)) { ("exp", 0) => (1e-5, 600.0), ("exp", _) => (1e-3, 30.0), (_, 0) => (0.02, 1000.0), _ => (0.55, 12.0) };
    let mut x: f64 = if r.p(1, 3) { 1.0 } else { lo * (hi / lo as f64).powf(r.n(1000) as f64 / 1000.0) };
    for _ in 0..60 {
        // a short or a long step, inwards or outwards
        let f = match r.n(4) { 0 | 1 => 1e-6, 2 => 1e-3, _ => 0.3 };
        let mut y = if r.p(1, 2) { x * (1.0 + f) } else { x / (1.0 + f) };
        if y > hi { y = x / (1.0 + f); }
        if y < lo { y = x * (1.0 + f); }
        let (r0, r1) = (x * range, y * range);
        let got = guard_ev("interaction", || (a.potential(r0), a.potential(r1), a.force(r0), a.force(r1)));
        let (u0, u1, f0, f1) = match got { Some(g) => g, None => break };
        // everything in units of the largest force (or energy per distance) around
        let m = f0.abs().max(f1.abs()).max(u0.abs() / r0).max(u1.abs() / r1);
        let g = if m == 0.0 { 0.0 } else { 1e8 / m };
        let slope = (u0 - u1) / (r1 - r0);
        ev(J::op("step").i("x0", fx(x, 1e6)).i("x1", fx(y, 1e6)).s("by", match f { f if f < 1e-5 => "short", f if f < 1e-2 => "mid", _ => "long" })
            .i("a", fx(f0, g)).i("b", fx(f1, g)).i("s", fx(slope, g)));
        if r.p(1, 12) { x = lo * (hi / lo as f64).powf(r.n(1000) as f64 / 1000.0); ev(J::op("jump").i("x", fx(x, 1e6))); } else { x = y; }
    }
    end_case();
}

pub fn run_force(a: &Args) {
    for i in 0..a.num(400, 6000) {
        let mut r = R::new(a.seed, i + (10 << 40));
        let mut rng: Pcg64 = rng_seed(r.u() as u128);
        let dim = r.r(1, 9) as usize;
        let range = (1.0 + r.n(8000) as f64 / 1000.0) * 10f64.powi(r.r(-4, 3) as i32);
        let strength = match r.n(8) { 0 => -1.0, 1 => 1.0, _ => 1.0 + r.n(9000) as f64 / 1000.0 } * 10f64.powi(r.r(-6, 6) as i32);
        let mt = MoveType::Brownian(1.0);
        let sys = Sh { shape: r.n(3) as u8, d: dim, dim, l: 9.0, r: 9.0, args: true }.make(1.0);
        let t = ContBulkTarget::new(Position::new(vec![0.0; dim]), 1.0);
        let how = *r.pick(&["new", "uniform", "args", "renewed", "moved"]);
        if r.p(1, 2) {
            let it = InteractType::Exponential(dim, range);
            let args = |it2: InitType<f64>| ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it2, gamma: range, exp_dim: dim, strength, num_agent: 3 });
            let x = guard_ev("make", || match how {
                "new" => Some(ContPassiveExpAgent::new(it, mt, Position::new(vec![0.5; dim]), strength)),
                "uniform" => ContPassiveExpAgent::new_uniform(&*sys, &t, &mut rng, it, mt, strength).ok(),
                "args" => args(InitType::SpecificPosition(Position::new(vec![0.5; dim]))).pop(),
                "renewed" => args(InitType::Uniform).pop().and_then(|mut y| y.renew_uniform(&*sys, &t, &mut rng).ok().map(|_| y)),
                // an agent built for another dimension and placed into this system
                _ => { let d2 = dim % 9 + 1; let mut y = ContPassiveExpAgent::new(InteractType::Exponential(d2, range), mt, Position::new(vec![0.5; d2]), strength); y.renew_uniform(&*sys, &t, &mut rng).ok().map(|_| y) }
            });
            match x { Some(Some(y)) => walk(format!("exp-{}", i), &mut r, "exp", range, how, &y), _ => { begin_case(format!("exp-{}", i), J::new()); ev(J::op("refused").s("how", how)); end_case(); } }
        } else {
            let it = InteractType::LennardJones(range);
            let args = |it2: InitType<f64>| ContPassiveLJAgent::convert_from(&ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it2, ptl_size: range, strength, num_agent: 3 });
            let x = guard_ev("make", || match how {
                "new" => Some(ContPassiveLJAgent::new(it, mt, Position::new(vec![0.5; dim]), strength)),
                "uniform" => ContPassiveLJAgent::new_uniform(&*sys, &t, &mut rng, it, mt, strength).ok(),
                "args" => args(InitType::SpecificPosition(Position::new(vec![0.5; dim]))).pop(),
                "renewed" => args(InitType::Uniform).pop().and_then(|mut y| y.renew_uniform(&*sys, &t, &mut rng).ok().map(|_| y)),
                _ => { let d2 = dim % 9 + 1; let mut y = ContPassiveLJAgent::new(it, mt, Position::new(vec![0.5; d2]), strength); y.renew_uniform(&*sys, &t, &mut rng).ok().map(|_| y) }
            });
            match x { Some(Some(y)) => walk(format!("lj-{}", i), &mut r, "lj", range, how, &y), _ => { begin_case(format!("lj-{}", i), J::new()); ev(J::op("refused").s("how", how)); end_case(); } }
        }
    }
}

// ------------------------------------------------------------------- frequencies
/// A source delivers numbers that ought to be uniform in (0,1) ("flat") or standard normal ("bell"), several per draw.
struct Src { name: String, law: &'static str, vars: usize, draw: Box<dyn FnMut() -> Option<Vec<f64>> + Send> }
const CELLS: usize = 16;
const EDGE: [f64; 15] = [-2.5, -2.0, -1.6, -1.2, -0.8, -0.5, -0.25, 0.0, 0.25, 0.5, 0.8, 1.2, 1.6, 2.0, 2.5];
const QUART: [f64; 3] = [-0.674489750196082, 0.0, 0.674489750196082];
fn cell(law: &str, x: f64) -> Option<usize> {
    if law == "flat" { if x >= 0.0 && x <= 1.0 { Some(((x * CELLS as f64) as usize).min(CELLS - 1)) } else { None } }
    else if x.is_finite() { Some(EDGE.iter().filter(|e| **e <= x).count()) } else { None }
}
fn quarter(law: &str, x: f64) -> usize {
    if law == "flat" { ((x * 4.0).max(0.0) as usize).min(3) } else { QUART.iter().filter(|e| **e <= x).count() }
}
/// counts far out: the ends of the interval, or the wings of the bell
const TAILS: usize = 7;
fn tails(law: &str, x: f64, t: &mut [i64]) {
    if law == "flat" {
        if x < 1e-4 { t[0] += 1; if x < 1e-5 { t[2] += 1; } }
        if x > 1.0 - 1e-4 { t[1] += 1; if x > 1.0 - 1e-5 { t[2] += 1; } }
    } else if x < -3.0 { t[0] += 1; if x < -3.5 { t[2] += 1; } if x < -4.0 { t[4] += 1; } if x < -4.5 { t[6] += 1; } }
    else if x > 3.0 { t[1] += 1; if x > 3.5 { t[3] += 1; } if x > 4.0 { t[5] += 1; } if x > 4.5 { t[6] += 1; } }
}
const BATCH: usize = 200_000;
const BATCHES: usize = 20;
/// counts of the cells of every variable and of pairs of variables: (what, cells) per batch
fn count(mut s: Src) -> (String, &'static str, usize, Vec<Vec<Vec<i64>>>) {
    let v = s.vars;
    // tables: v one-dimensional, v*(v-1)/2 pairs within a draw, v with the previous draw
    let nt = v + v * (v - 1) / 2 + v;
    let mut out = vec![];
    let mut prev: Option<Vec<f64>> = None;
    for _ in 0..BATCHES {
        let mut t = vec![vec![0i64; CELLS + 1 + TAILS]; nt];
        for _ in 0..BATCH {
            let x = match (s.draw)() { Some(x) if x.len() == v => x, _ => { for u in t.iter_mut() { u[CELLS] += 1; } continue; } };
            let mut k = 0;
            for i in 0..v { t[k][cell(s.law, x[i]).unwrap_or(CELLS)] += 1; tails(s.law, x[i], &mut t[k][CELLS + 1..]); k += 1; }
            for i in 0..v { for j in 0..i { t[k][4 * quarter(s.law, x[i]) + quarter(s.law, x[j])] += 1; k += 1; } }
            let p = prev.as_ref().unwrap_or(&x);
            for i in 0..v { t[k][4 * quarter(s.law, p[(i + 1) % v]) + quarter(s.law, x[i])] += 1; k += 1; }
            prev = Some(x);
        }
        out.push(t);
    }
    (s.name, s.law, v, out)
}
/// numbers that are independent and uniform when p is uniform over the system
fn flatten(s: &Sh, p: &[f64]) -> Vec<f64> {
    let k = s.radial();
    let mut o = vec![];
    if k == 1 { o.push((p[0] / s.r + 1.0) / 2.0); }
    if k >= 2 {
        let n: f64 = p[..k].iter().map(|x| x * x).sum::<f64>().sqrt();
        o.push((n / s.r).powi(k as i32));
        o.push(p[1].atan2(p[0]) / (2.0 * std::f64::consts::PI) + 0.5);
        if k >= 3 { o.push((p[2] / n + 1.0) / 2.0); if k > 3 { *o.last_mut().unwrap() = p[3].atan2(p[2]) / (2.0 * std::f64::consts::PI) + 0.5; } }
    }
    for i in k..s.dim { o.push((p[i] / s.l + 1.0) / 2.0); }
    o
}

pub fn run_freq(a: &Args) {
    let rounds = if a.thorough { 4 } else { 1 };
    for round in 0..rounds {
        let mut r = R::new(a.seed, round + (11 << 40));
        let mut src: Vec<Src> = vec![];
        let mut add = |name: String, law: &'static str, vars: usize, draw: Box<dyn FnMut() -> Option<Vec<f64>> + Send>| src.push(Src { name, law, vars, draw });
        let mut g = || -> Pcg64 { rng_seed(r.u() as u128) };
        { let mut x = g(); add("get_uniform".into(), "flat", 1, Box::new(move || Some(vec![get_uniform(&mut x)]))); }
        { let mut x = g(); add("get_gaussian".into(), "bell", 1, Box::new(move || Some(vec![get_gaussian(&mut x)]))); }
        { let mut x = g(); add("mixed".into(), "bell", 1, Box::new(move || { get_uniform(&mut x); Some(vec![get_gaussian(&mut x)]) })); }
        { let mut x = g(); add("get_uniform_vec".into(), "flat", 3, Box::new(move || Some(get_uniform_vec(&mut x, 3).coordinate))); }
        { let mut x = g(); add("get_gaussian_vec".into(), "bell", 3, Box::new(move || Some(get_gaussian_vec(&mut x, 3).coordinate))); }
        { let mut x = g(); let mut v = Position::new(vec![0.0; 3]); add("get_uniform_to_vec".into(), "flat", 3, Box::new(move || { get_uniform_to_vec(&mut x, &mut v); Some(v.coordinate.clone()) })); }
        { let mut x = g(); let mut v = Position::new(vec![0.0; 3]); add("get_gaussian_to_vec".into(), "bell", 3, Box::new(move || { get_gaussian_to_vec(&mut x, &mut v); Some(v.coordinate.clone()) })); }
        { let mut x = g(); let mut v = Position::new(vec![0.0; 2]); add("get_uniform_to_vec_nonstandard".into(), "flat", 2, Box::new(move || { v.clear(); get_uniform_to_vec_nonstandard(&mut x, &mut v, -3.0, 5.0); Some(v.iter().map(|y| (y + 3.0) / 8.0).collect()) })); }
        { let mut x = g(); let mut v = Position::new(vec![0.0; 2]); add("get_gaussian_to_vec_nonstandard".into(), "bell", 2, Box::new(move || { v.clear(); get_gaussian_to_vec_nonstandard(&mut x, &mut v, 2.0, 0.25); Some(v.iter().map(|y| (y - 2.0) / 0.25).collect()) })); }
        let shapes = [Sh { shape: 0, d: 1, dim: 2, l: 3.0, r: 1.0, args: false }, Sh { shape: 0, d: 0, dim: 3, l: 0.5, r: 1.0, args: true },
            Sh { shape: 1, d: 1, dim: 1, l: 1.0, r: 4.0, args: false }, Sh { shape: 1, d: 2, dim: 2, l: 1.0, r: 4.0, args: true }, Sh { shape: 1, d: 3, dim: 3, l: 1.0, r: 0.25, args: false }, Sh { shape: 1, d: 4, dim: 4, l: 1.0, r: 2.0, args: true },
            Sh { shape: 2, d: 1, dim: 2, l: 2.0, r: 0.5, args: true }, Sh { shape: 2, d: 2, dim: 3, l: 10.0, r: 1.0, args: false }, Sh { shape: 2, d: 3, dim: 4, l: 0.5, r: 3.0, args: true }];
        for (k, s) in shapes.iter().enumerate() {
            for way in 0..2 {
                let s = *s; let mut x = g();
                let mut v = Position::new(vec![0.0; s.dim]);
                let sys: std::sync::Arc<dyn Fn(&mut Pcg64, &mut Position<f64>) -> Option<Vec<f64>> + Send + Sync> = {
                    std::sync::Arc::new(move |x: &mut Pcg64, v: &mut Position<f64>| {
                        thread_local! { static S: std::cell::RefCell<Option<(usize, Box<dyn SystemCore<f64>>)>> = std::cell::RefCell::new(None); }
                        S.with(|c| { let mut c = c.borrow_mut();
                            if c.as_ref().map_or(true, |y| y.0 != k) { *c = Some((k, s.make(1.0))); }
                            let y = &c.as_ref().unwrap().1;
                            if way == 0 { y.random_pos(x).ok().map(|p| p.coordinate) } else { y.random_pos_to_vec(x, v).ok().map(|_| v.coordinate.clone()) } })
                    })
                };
                let n = flatten(&s, &vec![0.1; s.dim]).len();
                add(format!("{} {}", ["random_pos", "random_pos_to_vec"][way], s.cfg().done()), "flat", n, Box::new(move || sys(&mut x, &mut v).map(|p| flatten(&s, &p))));
            }
        }
        // displacements and placement of agents of every kind
        fn agent<A: Ag + Send + 'static>(add: &mut dyn FnMut(String, &'static str, usize, Box<dyn FnMut() -> Option<Vec<f64>> + Send>), mut x: Pcg64, mut y: Pcg64, mut z: Pcg64) {
            let a1 = A::mk(vec![0.0; 2], MoveType::Brownian(2.0)); let mut a2 = a1.clone(); let a3 = a1.clone();
            let len = (2.0f64 * 2.0 * 0.125).sqrt();
            add(format!("random_move {}", A::KIND), "bell", 2, Box::new(move || a1.random_move(&mut x, 0.125).ok().map(|d| d.iter().map(|q| q / len).collect())));
            let mut v = Position::new(vec![0.0; 2]);
            add(format!("random_move_to_vec {}", A::KIND), "bell", 2, Box::new(move || { v.clear(); a3.random_move_to_vec(&mut y, 0.125, &mut v).ok().map(|_| v.iter().map(|q| q / len).collect()) }));
            // a target so small that it takes nothing away
            let t = ContBulkTarget::new(Position::new(vec![0.0; 2]), 1e-5);
            let sys = ContCircSystem::new(4.0, 2);
            let s = Sh { shape: 1, d: 2, dim: 2, l: 1.0, r: 4.0, args: false };
            add(format!("renew_uniform {}", A::KIND), "flat", 2, Box::new(move || a2.renew(&sys, &t, &mut z).ok().map(|_| flatten(&s, &a2.pos().coordinate))));
        }
        agent::<ContPassiveIndepAgent>(&mut add, g(), g(), g());
        agent::<ContPassiveMergeAgent>(&mut add, g(), g(), g());
        agent::<ContPassiveExpAgent>(&mut add, g(), g(), g());
        agent::<ContPassiveLJAgent>(&mut add, g(), g(), g());
        // same seed arithmetic as a program that numbers its sets: streams of neighbouring seeds
        { let base = r.u() as u128; let mut k = 0u128; let mut cur = rng_seed(base); let mut left = 0;
          add("neighbouring seeds".into(), "flat", 1, Box::new(move || { if left == 0 { cur = rng_seed(base + k * 7919); for _ in 0..3 { get_uniform(&mut cur); } k += 1; left = 500; } left -= 1; Some(vec![get_uniform(&mut cur)]) })); }
        let mut todo: Vec<Option<Src>> = src.into_iter().map(Some).collect();
        let n = todo.len();
        let mut res: Vec<Option<(String, &'static str, usize, Vec<Vec<Vec<i64>>>)>> = (0..n).map(|_| None).collect();
        let beats = std::sync::atomic::AtomicBool::new(true);
        std::thread::scope(|sc| {
            let (tx, rx) = std::sync::mpsc::channel();
            let queue = std::sync::Mutex::new(todo.iter_mut().enumerate().map(|(i, s)| (i, s.take().unwrap())).collect::<Vec<_>>());
            let queue = std::sync::Arc::new(queue);
            for _ in 0..8 { let tx = tx.clone(); let queue = queue.clone();
                sc.spawn(move || loop {
                    let (i, s) = match queue.lock().unwrap().pop() { Some(x) => x, None => break };
                    let name = s.name.clone();
                    let out = guard(move || count(s));
                    tx.send((i, out.map_err(|m| (name, m)))).ok();
                }); }
            drop(tx);
            for (i, out) in rx { beat(); match out { Ok(o) => res[i] = Some(o), Err((name, m)) => { begin_case(format!("freq-{}-{}", round, i), J::new().s("name", &name).s("law", "flat").s("form", "one")); ev(J::op("panic").s("msg", &m)); end_case(); } } }
        });
        beats.store(false, std::sync::atomic::Ordering::Relaxed);
        for (i, o) in res.into_iter().enumerate() {
            if let Some((name, law, v, batches)) = o {
                for t in 0..batches[0].len() {
                    let form = if t < v { "one" } else { "two" };
                    begin_case(format!("freq-{}-{}-{}", round, i, t), J::new().s("name", &name).s("law", law).s("form", form));
                    for b in &batches { ev(J::op("batch").i("n", BATCH as i64).v("cells", &b[t][..CELLS + 1]).v("tails", &b[t][CELLS + 1..])); }
                    ev(J::op("end"));
                    end_case();
                }
            }
        }
    }
}
