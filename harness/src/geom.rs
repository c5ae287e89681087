//! Systems, boundaries, targets and placements: C07, C08, C09.
use crate::agents::*;
use crate::util::*;
use moledyn::prelude::*;

#[derive(Clone, Copy, Debug)]
pub struct Sh { pub shape: u8, pub d: usize, pub dim: usize, pub l: f64, pub r: f64, pub args: bool }
impl Sh {
    /// shape 0 cubic (d coordinates reflect), 1 circular, 2 cylinder (d radial)
    pub fn make(&self, unit: f64) -> Box<dyn SystemCore<f64>> {
        let (l, r) = (self.l * unit, self.r * unit);
        match self.shape {
            0 => {
                let bc = if self.d == self.dim && self.args { BoundaryCond::Reflection } else if self.d == 0 && !self.args { BoundaryCond::Periodic }
                    else { BoundaryCond::Mixed(self.d) };
                let bc = if self.d == self.dim && !self.args && self.dim % 2 == 0 { BoundaryCond::Reflection } else { bc };
                if self.args { Box::new(ContCubicSystem::convert_from(&ContCubicSystemArguments { sys_type: SystemType::ContinuousRectangular, bctype: bc, sys_size: l, dim: self.dim })) }
                else { Box::new(ContCubicSystem::new(bc, l, self.dim)) }
            }
            1 => if self.args { Box::new(ContCircSystem::convert_from(&ContCircSystemArguments { sys_type: SystemType::ContinuousCircular, bctype: BoundaryCond::Reflection, sys_size: r, dim: self.dim })) }
                 else { Box::new(ContCircSystem::new(r, self.dim)) },
            _ => if self.args { Box::new(ContCylindricalSystem::convert_from(&ContCylindricalSystemArguments { sys_type: SystemType::ContinuousCylindrical(self.d), bctype: BoundaryCond::Mixed(self.d), sys_radius: r, sys_length: l, dim: self.dim })) }
                 else { Box::new(ContCylindricalSystem::new(self.d, r, l, self.dim)) },
        }
    }
    pub fn cfg(&self) -> J {
        J::new().s("shape", ["cubic", "circ", "cyl"][self.shape as usize]).i("d", self.d as i64).i("dim", self.dim as i64)
            .i("L", self.l as i64).i("R", self.r as i64).b("args", self.args)
    }
    pub fn radial(&self) -> usize { match self.shape { 0 => 0, 1 => self.dim, _ => self.d } }
    pub fn ext(&self, i: usize) -> f64 { if i < self.radial() { self.r } else { self.l } }
    pub fn random(r: &mut R, maxdim: i64, small: bool) -> Sh {
        let shape = r.n(3) as u8;
        let dim = r.r(1, maxdim) as usize;
        let hi = if small { 9 } else { 40 };
        let (l, rad) = (if r.p(1, 4) { 1 } else { r.r(1, if small { 12 } else { 100 }) } as f64, if r.p(1, 4) { 1 } else { r.r(1, hi) } as f64);
        let d = match shape { 0 => *r.pick(&[0, dim, r.clone().n(dim as u64 + 1) as usize]), 1 => dim, _ => r.n(dim as u64 + 1) as usize };
        Sh { shape, d, dim, l, r: rad, args: r.p(1, 2) }
    }
}
fn unit(r: &mut R) -> f64 { *r.pick(&[1.0, 1.0, 0.5, 4.0, 1024.0, 1.0 / 1048576.0, 0.0078125]) }
fn isqrt(n: i64) -> i64 { let mut w = (n as f64).sqrt() as i64; while w * w > n { w -= 1; } while (w + 1) * (w + 1) <= n { w += 1; } w }
fn inside(s: &Sh, p: &[i64]) -> bool {
    let k = s.radial();
    p[..k].iter().map(|x| x * x).sum::<i64>() <= (s.r as i64).pow(2) && p[k..].iter().all(|x| x.abs() <= s.l as i64)
}

fn one_move(s: &Sh, sys: &dyn SystemCore<f64>, u: f64, pos: &mut Position<f64>, p: Vec<i64>, dp: Vec<i64>, cont: bool) -> bool {
    let mut d = Position::new(dp.iter().map(|x| *x as f64 * u).collect());
    if !cont { *pos = Position::new(p.iter().map(|x| *x as f64 * u).collect()); }
    let ok = match guard_ev("check_bc", || sys.check_bc(pos, &mut d).is_ok()) { Some(o) => o, None => return false };
    let k = s.radial();
    let sq: i64 = (0..k).map(|i| (p[i] + dp[i]).pow(2)).sum();
    let q: Vec<i64> = pos.iter().map(|x| exact(*x / u, 1.0)).collect();
    let qm: Vec<i64> = pos.iter().map(|x| fx(*x / u, 1000.0)).collect();
    ev(J::op("move").v("p", &p).v("dp", &dp).b("cont", cont).b("ok", ok).v("q", &q).v("qm", &qm).i("w", isqrt(256 * sq)));
    ok
}

pub fn run_move(a: &Args) {
    // exhaustive small moves in one and two dimensions
    let mut shapes = vec![];
    for dim in 1..=2usize {
        for d in 0..=dim {
            shapes.push(Sh { shape: 0, d, dim, l: 2.0, r: 1.0, args: d % 2 == 0 });
            shapes.push(Sh { shape: 2, d, dim, l: 2.0, r: 5.0, args: d % 2 == 1 });
        }
        shapes.push(Sh { shape: 1, d: dim, dim, l: 1.0, r: 5.0, args: dim == 1 });
    }
    for (n, s) in shapes.iter().enumerate() {
        begin_case(format!("grid-{}", n), s.cfg());
        let sys = match guard_ev("make", || s.make(1.0)) { Some(x) => x, None => { end_case(); continue; } };
        let mut pos = Position::new(vec![0.0; s.dim]);
        let mut targets = vec![];
        let e: Vec<i64> = (0..s.dim).map(|i| 3 * s.ext(i) as i64 + 1).collect();
        for x in -e[0]..=e[0] { if s.dim == 1 { targets.push(vec![x]); } else { for y in -e[1]..=e[1] { targets.push(vec![x, y]); } } }
        let mut r = R::new(7, n as u64);
        for t in targets {
            // any start inside will do: the result is determined by where the move leads
            let p: Vec<i64> = loop { let p: Vec<i64> = (0..s.dim).map(|i| r.r(-s.ext(i) as i64, s.ext(i) as i64)).collect(); if inside(s, &p) { break p; } };
            let dp = (0..s.dim).map(|i| t[i] - p[i]).collect();
            one_move(s, &*sys, 1.0, &mut pos, p, dp, false);
        }
        end_case();
    }
    for i in 0..a.num(1200, 20000) {
        let mut r = R::new(a.seed, i + (1 << 40));
        let small = r.p(1, 2); let maxdim = if r.p(1, 10) { 9 } else { 5 }; let s = Sh::random(&mut r, maxdim, small);
        let u = unit(&mut r);
        begin_case(format!("move-{}", i), s.cfg());
        let sys = match guard_ev("make", || s.make(u)) { Some(x) => x, None => { end_case(); continue; } };
        let mut pos = Position::new(vec![0.0; s.dim]);
        let mut cur: Option<Vec<i64>> = None;
        let far = *r.pick(&[1.0, 1.9, 2.2, 4.0]);
        for _ in 0..30 {
            let cont = cur.is_some() && r.p(3, 4);
            let p: Vec<i64> = if cont { cur.clone().unwrap() } else {
                loop { let mut p: Vec<i64> = (0..s.dim).map(|i| r.r(-s.ext(i) as i64, s.ext(i) as i64)).collect();
                       if s.radial() > 3 { for i in 0..s.radial() { p[i] /= r.r(1, 3); } }
                       if inside(&s, &p) { break p; }
                       if r.p(1, 20) { break vec![0; s.dim]; } } };
            let dp: Vec<i64> = (0..s.dim).map(|i| { let m = (s.ext(i) * far) as i64 + 1; match r.n(6) { 0 => 0, 1 => m, 2 => -m, _ => r.r(-m, m) } }).collect();
            let ok = one_move(&s, &*sys, u, &mut pos, p, dp, cont);
            let q: Vec<i64> = pos.iter().map(|x| exact(*x / u, 1.0)).collect();
            cur = if ok && q.iter().all(|x| x.abs() < 100000) { Some(q) } else { None };
        }
        for _ in 0..2 {
            let (a1, b1) = (r.r(0, 6) as usize, r.r(0, 6) as usize);
            if a1 == s.dim && b1 == s.dim { continue; }
            let mut x = Position::new(vec![0.25 * u; a1]); let mut y = Position::new(vec![0.125 * u; b1]);
            if let Some(ok) = guard_ev("check_bc", || sys.check_bc(&mut x, &mut y).is_ok()) { ev(J::op("wrong").i("pd", a1 as i64).i("dd", b1 as i64).b("ok", ok)); }
        }
        end_case();
    }
}

fn yn(r: Result<bool, Error>) -> &'static str { match r { Ok(true) => "yes", Ok(false) => "no", Err(_) => "err" } }

pub fn run_member(a: &Args) {
    for i in 0..a.num(1500, 20000) {
        let mut r = R::new(a.seed, i + (2 << 40));
        let small = r.p(3, 4); let maxdim = if r.p(1, 10) { 12 } else { 6 }; let s = Sh::random(&mut r, maxdim, small);
        let u = unit(&mut r);
        begin_case(format!("member-{}", i), s.cfg());
        let sys = match guard_ev("make", || s.make(u)) { Some(x) => x, None => { end_case(); continue; } };
        // on an axis, at the wall and a few representable numbers beside it
        let near = |x: f64, e: i64| f64::from_bits((x.abs().to_bits() as i64 + e) as u64).copysign(x);
        for _ in 0..4 {
            let (j, e, neg) = (r.n(s.dim as u64) as usize, *r.pick(&[-4i64, -3, 0, 3, 4]), r.p(1, 2));
            let mut p = vec![0.0; s.dim];
            p[j] = near(s.ext(j) * u, e) * if neg { -1.0 } else { 1.0 };
            if let Some(res) = guard_ev("check_inclusion", || sys.check_inclusion(&Position::new(p))) { ev(J::op("inedge").i("j", j as i64).i("e", e).b("neg", neg).s("r", yn(res))); }
            let size = r.r(1, 9) as f64 * u;
            let mut p = vec![0.0; s.dim];
            p[j] = near(size, e) * if neg { -1.0 } else { 1.0 };
            let tg = ContBulkTarget::new(Position::new(vec![0.0; s.dim]), size);
            if let Some(res) = guard_ev("check_find", || tg.check_find(&Position::new(p))) { ev(J::op("findedge").i("j", j as i64).i("e", e).b("neg", neg).s("r", yn(res))); }
        }
        for _ in 0..40 {
            let dim = if r.p(1, 10) { r.r(0, 7) as usize } else { s.dim };
            let mut p: Vec<i64> = (0..dim).map(|i| if i >= s.dim { r.r(-3, 3) } else {
                let e = s.ext(i) as i64; match r.n(8) { 0 => e, 1 => -e, 2 => e + 1, 3 => 0, _ => r.r(-e - 1, e + 1) } }).collect();
            // a radial vector close to the surface: shrink at random until near
            if dim == s.dim && s.radial() > 1 && r.p(1, 2) {
                let k = s.radial(); let r2 = (s.r * s.r) as i64;
                for _ in 0..60 {
                    let q: i64 = p[..k].iter().map(|x| x * x).sum();
                    if (q - r2).abs() <= 1 { break; }
                    let j = r.n(k as u64) as usize;
                    let st = if p[j] == 0 { 1 } else { p[j].signum() };
                    if q > r2 { p[j] -= st } else { p[j] += st }
                }
            }
            let pos = Position::new(p.iter().map(|x| *x as f64 * u).collect());
            if let Some(res) = guard_ev("check_inclusion", || sys.check_inclusion(&pos)) { ev(J::op("in").v("p", &p).s("r", yn(res))); }
            // target
            let td = r.r(1, 4) as usize;
            let t: Vec<i64> = (0..td).map(|_| r.r(-9, 9)).collect();
            let size = r.r(0, 9);
            let ad = if r.p(1, 10) { r.r(0, 5) as usize } else { td };
            let q: Vec<i64> = (0..ad).map(|i| if i < td { t[i] + match r.n(4) { 0 => size, 1 => -size, 2 => 0, _ => r.r(-size - 1, size + 1) } } else { 0 }).collect();
            let f = |v: &[i64]| Position::new(v.iter().map(|x| *x as f64 * u).collect());
            let tg = if r.p(1, 2) { ContBulkTarget::new(f(&t), size as f64 * u) }
                     else { ContBulkTarget::convert_from(&ContBulkTargetArguments { target_type: TargetType::ContinuousInBulk, target_pos: f(&t), target_size: size as f64 * u }) };
            if let Some(res) = guard_ev("check_find", || tg.check_find(&f(&q))) { ev(J::op("find").v("t", &t).i("size", size).v("p", &q).s("r", yn(res))); }
        }
        end_case();
    }
}

fn scaled(s: &Sh, p: &Position<f64>) -> Vec<i64> {
    p.iter().enumerate().map(|(i, x)| fx(*x / if i < s.dim { s.ext(i) } else { 1.0 }, 10000.0).max(-15000).min(15000)).collect()
}
/// size of a target around t that leaves about one in rare of the system free
fn tight(s: &Sh, t: &[f64], rare: usize, r: &mut R) -> f64 {
    let k = s.radial();
    let mut d: Vec<f64> = (0..rare * 2).map(|_| loop {
        let p: Vec<f64> = (0..s.dim).map(|i| (r.r(-1000000, 1000000) as f64 / 1000000.5) * s.ext(i)).collect();
        if p[..k].iter().map(|x| x * x).sum::<f64>() < s.r * s.r { break p.iter().zip(t).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt(); }
    }).collect();
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    d[rare * 2 - 3]
}
fn place_agents<A: Ag>(s: &Sh, sys: &dyn SystemCore<f64>, r: &mut R, rng: &mut Pcg64, rare: usize) {
    let ts = 0.9 * s.r.min(s.l.min(if s.radial() == s.dim { s.r } else { s.l })).min(if s.radial() == 0 { s.l } else { s.r }) * *r.pick(&[0.05, 0.5, 1.0]);
    let tp: Vec<f64> = (0..s.dim).map(|i| match r.n(3) { 0 => 0.0, 1 => s.ext(i) * 0.5, _ => -s.ext(i) }).collect();
    let ts = if rare > 0 { tight(s, &tp, rare, r) } else { ts };
    let t = ContBulkTarget::new(Position::new(tp.clone()), ts);
    let g = |p: &Position<f64>| -> Vec<i64> { p.iter().enumerate().map(|(i, x)| fx((*x - tp.get(i).unwrap_or(&0.0)) / ts, 1000.0).max(-9000).min(9000)).collect() };
    let log = |op: &str, a: &A, ok: bool, same: bool| {
        ev(J::op(op).s("kind", A::KIND).b("ok", ok).b("lib", sys.check_inclusion(a.pos()) == Ok(true)).b("hit", t.check_find(a.pos()) != Ok(false))
            .v("u", &scaled(s, a.pos())).v("g", &g(a.pos())).i("dim", a.dim() as i64).b("same", same));
    };
    let mt = MoveType::Brownian(0.75);
    for _ in 0..if rare > 2000 { 1 } else { 4 } {
        if let Some(x) = guard_ev("new_uniform", || A::mk_uniform(sys, &t, rng, s.dim, mt)) {
            match x { Ok(a) => { let same = a.mtype() == mt; log("new", &a, true, same) } Err(_) => ev(J::op("new").b("ok", false)) }
        }
        let d0 = r.r(1, 5) as usize;
        let mut list: Vec<A> = vec![A::mk(vec![0.5; s.dim], mt), A::mk(vec![0.5; d0], mt)];
        list.extend(A::from_args(InitType::Uniform, mt, s.dim, 2));
        list.extend(A::from_args(InitType::SpecificPosition(Position::new(vec![0.1; s.dim])), mt, s.dim, 1));
        for a in list.iter_mut() {
            for _ in 0..2 {
                let before = a.conf(); let m0 = a.mtype();
                if let Some(x) = guard_ev("renew_uniform", || a.renew(sys, &t, rng)) {
                    let same = a.conf() == before && (A::KIND == "merge" || a.mtype() == m0);
                    log("renew", a, x.is_ok(), same);
                }
            }
        }
    }
    let bad = ContBulkTarget::new(Position::new(vec![0.0; s.dim + 1]), ts);
    let mut a = A::mk(vec![0.5; s.dim], mt);
    if let Some(x) = guard_ev("renew_uniform", || a.renew(sys, &bad, rng)) { ev(J::op("noplace").b("ok", x.is_ok())); }
    if let Some(x) = guard_ev("new_uniform", || A::mk_uniform(sys, &bad, rng, s.dim, mt)) { ev(J::op("noplace").b("ok", x.is_ok())); }
}

pub fn run_place(a: &Args) {
    for i in 0..a.num(90, 500) {
        let mut r = R::new(a.seed, i + (3 << 40));
        let maxdim = if i % 15 == 7 { 8 } else { 5 };
        let mut s = Sh::random(&mut r, maxdim, true);
        // real sizes and extreme aspect ratios
        let f = |r: &mut R| *r.pick(&[0.05, 0.3, 1.0, 7.7, 250.0]);
        s.l *= f(&mut r); s.r *= f(&mut r);
        begin_case(format!("place-{}", i), s.cfg().s("sizes", &format!("{} {}", s.l, s.r)));
        let sys = match guard_ev("make", || s.make(1.0)) { Some(x) => x, None => { end_case(); continue; } };
        let mut rng: Pcg64 = rng_seed(r.u() as u128);
        flavour(*r.pick(&[1.0, -1.0, 0.125, -1e-6, 1e9]), *r.pick(&[1.0, 0.01, 3.0]));
        let draws = if a.thorough { 900 } else { 420 };
        let mut v = Position::new(vec![77.0; s.dim]);
        for k in 0..draws {
            match guard_ev("random_pos", || sys.random_pos(&mut rng)) {
                Some(Ok(p)) => ev(J::op("pos").b("ok", true).b("lib", sys.check_inclusion(&p) == Ok(true)).v("u", &scaled(&s, &p))),
                Some(Err(_)) => ev(J::op("pos").b("ok", false)), None => break }
            if k % 3 == 0 { v = Position::new(vec![77.0 + s.l; s.dim]); }
            let ok = match guard_ev("random_pos_to_vec", || sys.random_pos_to_vec(&mut rng, &mut v)) { Some(x) => x.is_ok(), None => break };
            ev(J::op("vec").b("ok", ok).b("lib", sys.check_inclusion(&v) == Ok(true)).v("u", &scaled(&s, &v)));
        }
        ev(J::op("end"));
        for d in [0, s.dim + 1, s.dim + 3] {
            let mut w = Position::new(vec![0.0; d]);
            if let Some(x) = guard_ev("random_pos_to_vec", || sys.random_pos_to_vec(&mut rng, &mut w)) { ev(J::op("badvec").b("ok", x.is_ok())); }
            if let Some(x) = guard_ev("position_out_of_system_to_vec", || sys.position_out_of_system_to_vec(&mut w)) { ev(J::op("badvec").b("ok", x.is_ok())); }
        }
        if let Some(o) = guard_ev("position_out_of_system", || sys.position_out_of_system()) {
            ev(J::op("out").b("ok", true).b("lib", sys.check_inclusion(&o) != Ok(false)).v("u", &scaled(&s, &o)));
        }
        let mut o = Position::new(vec![0.0; s.dim]);
        if let Some(x) = guard_ev("position_out_of_system_to_vec", || sys.position_out_of_system_to_vec(&mut o)) {
            ev(J::op("out").b("ok", x.is_ok()).b("lib", sys.check_inclusion(&o) != Ok(false)).v("u", &scaled(&s, &o)));
        }
        // a target that fills the system but for one place in rare
        let rare = match i % 6 { _ if s.dim > 5 => 0, 1 => 150, 3 if s.dim <= 3 => 1500, 5 if s.dim <= 3 && i % 12 == 5 => 15000, _ => 0 };
        place_agents::<ContPassiveIndepAgent>(&s, &*sys, &mut r, &mut rng, rare);
        place_agents::<ContPassiveMergeAgent>(&s, &*sys, &mut r, &mut rng, rare);
        place_agents::<ContPassiveExpAgent>(&s, &*sys, &mut r, &mut rng, rare);
        place_agents::<ContPassiveLJAgent>(&s, &*sys, &mut r, &mut rng, rare);
        end_case();
    }
}
