//! The exact and the first order reflection of circular systems: C27.
use crate::util::*;
use moledyn::prelude::*;
use moledyn::system_mod::cont_circ::{check_bc_exact, check_bc_first_order};

fn dot(a: &[i64], b: &[i64]) -> i64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
/// an integer vector of length exactly r0, with random signs and order
fn hit(r: &mut R, r0: i64, dim: usize) -> Vec<i64> {
    fn go(r: &mut R, left: i64, k: usize, out: &mut Vec<i64>) -> bool {
        let s = (left as f64).sqrt() as i64;
        if k == 1 { if s * s == left { out.push(s); return true } return false }
        let mut c: Vec<i64> = (0..=s).collect();
        for i in (1..c.len()).rev() { let j = r.n(i as u64 + 1) as usize; c.swap(i, j); }
        for x in c { out.push(x); if go(r, left - x * x, k - 1, out) { return true } out.pop(); }
        false
    }
    let mut v = vec![];
    assert!(go(r, r0 * r0, dim, &mut v));
    for x in v.iter_mut() { if r.p(1, 2) { *x = -*x; } }
    for i in (1..dim).rev() { let j = r.n(i as u64 + 1) as usize; v.swap(i, j); }
    v
}
fn pos(v: &[i64], u: f64) -> Position<f64> { Position::new(v.iter().map(|x| *x as f64 * u).collect()) }
fn sys(r: &mut R, size: f64, dim: usize) -> ContCircSystem {
    if r.p(1, 2) { ContCircSystem::new(size, dim) }
    else { ContCircSystem::convert_from(&ContCircSystemArguments { sys_type: SystemType::ContinuousCircular, bctype: BoundaryCond::Reflection, sys_size: size, dim }) }
}
type F = fn(ContCircSystem, &mut Position<f64>, &mut Position<f64>) -> Result<(), Error>;

pub fn run_reflect(a: &Args) {
    for i in 0..a.num(2500, 30000) {
        let mut r = R::new(a.seed, i + (71 << 40));
        let dim = if r.p(1, 12) { r.r(5, 9) } else { r.r(1, 4) } as usize;
        let r0 = *r.pick(&[1i64, 3, 5, 7, 9, 11, 13, 17]);
        let u = *r.pick(&[1.0, 1.0, 0.5, 4.0, 1024.0, 1.0 / 1048576.0]);
        begin_case(format!("reflect-{}", i), J::new().i("R", r0).i("dim", dim as i64).s("unit", &format!("{}", u)));
        for _ in 0..8 {
            let s = sys(&mut r, r0 as f64 * u, dim);
            let h = hit(&mut r, r0, dim);
            let m = *r.pick(&[1, 2, 3]);
            let v: Vec<i64> = loop { let v: Vec<i64> = (0..dim).map(|_| r.r(-m, m)).collect(); if dot(&v, &h) > 0 { break v } };
            let amax = 2 * dot(&h, &v) / dot(&v, &v);
            let aa = match r.n(4) { 0 => 0, 1 => amax, _ => r.r(0, amax) };
            let b = r.r(1, *r.clone().pick(&[1, 3, (amax + 1).min(12)]));
            let p: Vec<i64> = (0..dim).map(|k| h[k] - aa * v[k]).collect();
            let dp: Vec<i64> = (0..dim).map(|k| (aa + b) * v[k]).collect();
            let (mut x, mut d) = (pos(&p, u), pos(&dp, u));
            if let Some(res) = guard_ev("check_bc_exact", || check_bc_exact(s, &mut x, &mut d).is_ok()) {
                ev(J::op("hit").v("h", &h).v("v", &v).i("a", aa).i("b", b).v("p", &p).b("ok", res)
                    .v("qm", &x.iter().map(|y| fx(*y / u, 1000.0)).collect::<Vec<_>>()));
            }
            // a step that stays inside
            let q: Vec<i64> = if r.p(1, 3) { h.clone() } else { (0..dim).map(|_| r.r(-r0, r0)).collect() };
            if dot(&q, &q) <= r0 * r0 {
                let dp: Vec<i64> = (0..dim).map(|k| q[k] - p[k]).collect();
                for (n, f) in [("check_bc_exact", check_bc_exact as F), ("check_bc_first_order", check_bc_first_order as F)] {
                    let (mut x, mut d) = (pos(&p, u), pos(&dp, u));
                    let s = sys(&mut r, r0 as f64 * u, dim);
                    if let Some(res) = guard_ev(n, || f(s, &mut x, &mut d).is_ok()) {
                        ev(J::op("stay").s("of", n).v("p", &p).v("dp", &dp).b("ok", res).v("q", &x.iter().map(|y| exact(*y / u, 1.0)).collect::<Vec<_>>()));
                    }
                }
            }
        }
        // small steps near the surface: first order against exact
        for _ in 0..4 {
            let size = r0 as f64 * u;
            let h = hit(&mut r, r0, dim);
            let n: Vec<f64> = h.iter().map(|x| *x as f64 / r0 as f64).collect();
            let b1000 = *r.pick(&[2i64, 4, 8, 16]);
            let b = b1000 as f64 / 1000.0;
            let dir: Vec<f64> = loop {
                let g: Vec<f64> = (0..dim).map(|_| r.r(-1000, 1000) as f64).collect();
                let l = g.iter().map(|x| x * x).sum::<f64>().sqrt();
                if l < 1.0 { continue }
                let g: Vec<f64> = g.iter().zip(&n).map(|(x, y)| x / l + if dim > 4 { 1.5 * y } else { 0.0 }).collect();
                let l = g.iter().map(|x| x * x).sum::<f64>().sqrt();
                let g: Vec<f64> = g.iter().map(|x| x / l).collect();
                if g.iter().zip(&n).map(|(x, y)| x * y).sum::<f64>() > 0.5 { break g }
            };
            let t = r.r(50, 950) as f64 / 1000.0;
            let p: Vec<f64> = (0..dim).map(|k| (n[k] - t * b * dir[k]) * size).collect();
            let dp: Vec<f64> = (0..dim).map(|k| b * dir[k] * size).collect();
            let (s1, s2) = (sys(&mut r, size, dim), sys(&mut r, size, dim));
            let (mut x1, mut d1, mut x2, mut d2) = (Position::new(p.clone()), Position::new(dp.clone()), Position::new(p.clone()), Position::new(dp.clone()));
            let (o1, o2) = match (guard_ev("check_bc_exact", || check_bc_exact(s1, &mut x1, &mut d1).is_ok()), guard_ev("check_bc_first_order", || check_bc_first_order(s2, &mut x2, &mut d2).is_ok())) {
                (Some(x), Some(y)) => (x, y), _ => break };
            let len = x2.iter().map(|x| x * x).sum::<f64>().sqrt() / size;
            let depth = 1.0 - x1.iter().map(|x| x * x).sum::<f64>().sqrt() / size;
            ev(J::op("first").i("b1000", b1000).b("ok", o2).b("inside", len <= 1.0 + 1e-9).i("depth", if o1 { fx(depth, 1e6) } else { -1 })
                .v("diff", &x1.iter().zip(x2.iter()).map(|(x, y)| fx((x - y) / size, 1e6)).collect::<Vec<_>>()));
        }
        for _ in 0..2 {
            let (pd, dd) = (r.r(0, 6) as usize, r.r(0, 6) as usize);
            let (pd, dd) = match r.n(3) { 0 => (dim, dd), 1 => (pd, dim), _ => (pd, dd) };
            if pd == dim && dd == dim { continue }
            for (n, f) in [("check_bc_exact", check_bc_exact as F), ("check_bc_first_order", check_bc_first_order as F)] {
                let s = sys(&mut r, r0 as f64 * u, dim);
                let (mut x, mut d) = (Position::new(vec![0.25 * u; pd]), Position::new(vec![0.125 * u; dd]));
                if let Some(res) = guard_ev(n, || f(s, &mut x, &mut d).is_ok()) { ev(J::op("wrong").s("of", n).i("pd", pd as i64).i("dd", dd as i64).b("ok", res)); }
            }
        }
        end_case();
    }
}
