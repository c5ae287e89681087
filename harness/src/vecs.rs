//! Vectors, pair displacements, random displacements and generators: C19, C20, C21, C23.
use crate::agents::*;
use crate::geom::Sh;
use crate::util::*;
use moledyn::prelude::*;
use moledyn::random_mod::*;

fn isqrt(n: i64) -> i64 { let mut w = (n as f64).sqrt() as i64; while w * w > n { w -= 1; } while (w + 1) * (w + 1) <= n { w += 1; } w }
fn rv(r: &mut R, n: usize, m: i64) -> Vec<i64> { (0..n).map(|_| match r.n(8) { 0 => 0, 1 => m, 2 => -m, _ => r.r(-m, m) }).collect() }

// ------------------------------------------------------------------ C23
macro_rules! vector_case { ($name:ident, $t:ty, $int:tt) => {
fn $name(id: String, r: &mut R) {
    let u: $t = *r.pick(if $int { &[1 as $t, 1 as $t, 20 as $t] } else { &[1 as $t, 64 as $t, 1024 as $t] });
    let u: $t = if !$int && r.p(1, 12) { (f64::from_bits((1023 + 380) << 52) as $t) } else { u };
    let u: $t = if !$int && r.p(1, 2) { (1 as $t) / u } else { u };
    let n = if r.p(1, 60) { r.r(41, 300) } else if r.p(1, 8) { r.r(7, 40) } else { r.r(0, 6) } as usize;
    let f = |v: &[i64]| -> Position<$t> { Position::new(v.iter().map(|a| (*a as $t) * u).collect()) };
    let g = |p: &Position<$t>| -> Vec<i64> { p.iter().map(|a| exact(*a as f64 / u as f64, 1.0)).collect() };
    let m64 = |d: f64| -> i64 { (d / u as f64 * 64.0 + 1e-7).floor() as i64 };
    let mut model = rv(r, n, 9);
    begin_case(id, J::new().s("type", stringify!($t)).v("x", &model));
    let mut x = f(&model);
    for _ in 0..30 {
        let bad = r.p(1, 8);
        let yd = if bad { if r.p(1, 3) { x.dim() + r.n(3) as usize } else { r.r(0, 6) as usize } } else { x.dim() };
        let y0 = rv(r, yd, 9);
        let mut y = f(&y0);
        match r.n(13) {
            12 => {
                // one side a million times the other, and yet it counts; then sums close to the largest integer
                let a = if r.p(1, 2) { r.r(1, 30) * 2 + 1 } else { r.r(10, 23000) * 2 + 1 };
                let (a, b) = if $int && u > 1 as $t { { let a = (a % 4000).max(3); (a, (a * a - 1) / 2) } } else { (a, (a * a - 1) / 2) };
                let n = r.r(2, 5) as usize;
                let mut d = vec![0i64; n];
                let i = r.n(n as u64) as usize; let k = (i + 1 + r.n(n as u64 - 1) as usize) % n;
                d[i] = if r.p(1, 2) { a } else { -a }; d[k] = if r.p(1, 2) { b } else { -b };
                let p0: Vec<i64> = if r.p(1, 2) { vec![0; n] } else { rv(r, n, 30) };
                let q0: Vec<i64> = p0.iter().zip(d.iter()).map(|(x, y)| x + y).collect();
                let (p, q, dv) = (f(&p0), f(&q0), f(&d));
                let m = match guard_ev("norm", || (dv.norm(), p.distance(&q).unwrap_or(-1.0), q.distance(&p).unwrap_or(-1.0))) { Some(m) => m, None => break };
                let whole = |v: f64| -> i64 { (v / u as f64).round() as i64 };
                let off = |v: f64| -> i64 { let w = v / u as f64; ((w - w.round()).abs() * 1000.0) as i64 };
                ev(J::op("far").v("d", &d).v("p", &p0).v("q", &q0).v("m", &[whole(m.0), whole(m.1), whole(m.2)]).v("off", &[off(m.0), off(m.1), off(m.2)]));
                vector_case!(@wide $int, r, n);
            }
            0 | 1 if yd == x.dim() => {
                let z = match guard_ev("add", || { let a1 = &x + &y; let a2 = &mut x + &mut y; x.mut_add(&y); (a1, a2) }) { Some(z) => z, None => break };
                ev(J::op("add").v("y", &y0).raw("alloc", &format!("[{:?},{:?}]", g(&z.0), g(&z.1))).v("inpl", &g(&x)).v("y2", &g(&y)));
            }
            2 | 3 if yd == x.dim() => {
                let z = match guard_ev("sub", || { let a1 = &x - &y; let a2 = &mut x - &mut y; x.mut_sub(&y); (a1, a2) }) { Some(z) => z, None => break };
                ev(J::op("sub").v("y", &y0).raw("alloc", &format!("[{:?},{:?}]", g(&z.0), g(&z.1))).v("inpl", &g(&x)).v("y2", &g(&y)));
            }
            0..=3 => {
                // of different dimension: every form has to refuse, and may change neither operand
                let mut refused = vec![guard(|| &x + &y).is_err(), guard(|| &mut x + &mut y).is_err(), guard(|| &x - &y).is_err(), guard(|| &mut x - &mut y).is_err()];
                refused.push(guard(|| x.mut_add(&y)).is_err());
                refused.push(guard(|| x.mut_sub(&y)).is_err());
                ev(J::op("mis").v("y", &y0).raw("refused", &format!("{:?}", refused)).v("x2", &g(&x)).v("y2", &g(&y)));
            }
            4 => {
                let s = r.r(-3, 3);
                let z = match guard_ev("mul", || { let a1 = x.scalar_mul(s as $t); x.mut_scalar_mul(s as $t); a1 }) { Some(z) => z, None => break };
                ev(J::op("mul").i("s", s).raw("alloc", &format!("[{:?}]", g(&z))).v("inpl", &g(&x)));
            }
            5 => { if guard_ev("clear", || x.clear()).is_none() { break; } ev(J::op("clear").v("inpl", &g(&x))); }
            6 => {
                // extreme lengths, where a square no longer fits a small integer
                if $int && r.p(1, 2) && x.dim() == 2 && u == 20 as $t { model = vec![r.r(-3000, 3000) * 3, 0]; model[1] = model[0] / 3 * 4; x = f(&model); ev(J::op("set").v("y", &model));
                    let o = f(&[0, 0]);
                    if let Some(Ok(d)) = guard_ev("dist", || x.distance(&o)) { ev(J::op("dist").v("y", &[0, 0]).b("ok", true).i("m", m64(d)).v("x2", &g(&x)).v("y2", &g(&o))); } }
                model = rv(r, x.dim(), 9); x = f(&model); ev(J::op("set").v("y", &model));
            }
            7 => { if let Some(d) = guard_ev("norm", || x.norm()) { ev(J::op("norm").i("m", m64(d)).v("x2", &g(&x))); } }
            8 | 9 => { if let Some(d) = guard_ev("dist", || x.distance(&y)) { ev(J::op("dist").v("y", &y0).b("ok", d.is_ok()).i("m", d.map_or(-1, |d| m64(d))).v("x2", &g(&x)).v("y2", &g(&y))); } }
            10 => { vector_case!(@last $int, x, y, y0, u, g); }
            _ => if x.dim() < 6 && y0.len() > 0 {
                let y1 = y0[..1].to_vec();
                if r.p(1, 2) { x.push(f(&y1)[0]); } else { x.extend(f(&y1)); }
                ev(J::op("push").v("y", &y1).v("inpl", &g(&x)));
            }
        }
        if x.iter().map(|a| (*a as f64 / u as f64).powi(2)).sum::<f64>() > 670.0 * 670.0 { model = rv(r, x.dim(), 9); x = f(&model); ev(J::op("set").v("y", &model)); }
    }
    end_case();
}
};
(@wide true, $r:ident, $n:ident) => {
    // the distance in steps of a lattice, as large as an integer gets
    let mut left = $r.r(1, 2000000000);
    let (mut p, mut q) = (vec![], vec![]);
    for _ in 0..$n { let d = if $r.p(1, 3) { left } else { $r.n(left as u64 + 1) as i64 }; left -= d;
        let a = -($r.n(d as u64 + 1) as i64); let (a, b) = (a, a + d); if $r.p(1, 2) { p.push(a); q.push(b); } else { p.push(b); q.push(a); } }
    let (x, y): (Position<i32>, Position<i32>) = (Position::new(p.iter().map(|v| *v as i32).collect()), Position::new(q.iter().map(|v| *v as i32).collect()));
    match guard_ev("taxi", || (x.taxi_distance(&y), y.taxi_distance(&x))) { None => break,
        Some(d) => ev(J::op("lattice").v("p", &p).v("q", &q).b("ok", d.0.is_ok() && d.1.is_ok()).v("m", &[d.0.map_or(-1, |v| v as i64), d.1.map_or(-1, |v| v as i64)])) }
};
(@wide false, $r:ident, $n:ident) => {};
(@last true, $x:ident, $y:ident, $y0:ident, $u:ident, $g:ident) => { if let Some(d) = guard_ev("taxi", || $x.taxi_distance(&$y)) {
    ev(J::op("taxi").v("y", &$y0).b("ok", d.is_ok()).i("m", d.map_or(-1, |d| (d / $u) as i64)).v("x2", &$g(&$x)).v("y2", &$g(&$y))); } };
(@last false, $x:ident, $y:ident, $y0:ident, $u:ident, $g:ident) => { if let Some(d) = guard_ev("dot", || $x.inner_product(&$y)) {
    ev(J::op("dot").v("y", &$y0).b("ok", d.is_ok()).i("m", d.map_or(-1, |d| exact(d / $u / $u, 1.0))).v("x2", &$g(&$x)).v("y2", &$g(&$y))); } };
}
vector_case!(vec_f, f64, false);
vector_case!(vec_i, i32, true);

pub fn run_vectors(a: &Args) {
    for i in 0..a.num(1500, 25000) {
        let mut r = R::new(a.seed, i + (4 << 40));
        if i % 3 == 0 { vec_i(format!("i32-{}", i), &mut r) } else { vec_f(format!("f64-{}", i), &mut r) }
    }
}

// ------------------------------------------------------------------ C21
fn disp_case<A: Ag>(id: String, r: &mut R) {
    begin_case(id, J::new().s("kind", A::KIND));
    let mt = MoveType::Brownian(1.0);
    for _ in 0..12 {
        let u = if r.p(1, 4) { 2f64.powi(r.r(-200, 200) as i32) } else { *r.pick(&[1.0, 0.25, 1024.0, 1.0 / 65536.0]) };
        let d1 = if r.p(1, 10) { r.r(5, 12) } else { r.r(1, 4) } as usize;
        let d2 = if r.p(1, 6) { r.r(1, 5) as usize } else { d1 };
        let m = *r.pick(if d1.max(d2) > 4 { &[3, 12, 12, 60] } else { &[3, 12, 60, 180] });
        let p = rv(r, d1, m);
        let mut q = rv(r, d2, m);
        // whole-number distances are checked sharply
        if d1 == d2 && d1 >= 2 && r.p(1, 3) { q = p.clone(); let k = r.r(1, 20); q[0] += 3 * k; q[d1 - 1] -= 4 * k; }
        if p == q { q[0] += 1; }
        let f = |v: &[i64]| -> Vec<f64> { v.iter().map(|a| *a as f64 * u).collect() };
        let (x, y) = (A::mk(f(&p), mt), A::mk(f(&q), mt));
        let (x0, y0) = (x.full(), y.full());
        let n: i64 = if d1 == d2 { p.iter().zip(q.iter()).map(|(a, b)| (b - a) * (b - a)).sum() } else { 0 };
        let e4 = |v: &Position<f64>| -> Vec<i64> { v.iter().map(|a| fx(*a, 10000.0)).collect() };
        let m64 = |d: f64| (d / u * 64.0 + 1e-7).floor() as i64;
        let z = match guard_ev("mutual_displacement", || (x.mutual_displacement(&y), y.mutual_displacement(&x))) { Some(z) => z, None => break };
        let kept = x.full() == x0 && y.full() == y0;
        let j = J::op("disp").v("p", &p).v("q", &q).i("w", isqrt(4096 * n)).b("kept", kept).b("ok", z.0.is_ok() && z.1.is_ok());
        ev(match (&z.0, &z.1) { (Ok(a1), Ok(b1)) => j.v("e", &e4(&a1.0)).i("m", m64(a1.1)).v("back", &e4(&b1.0)).i("mback", m64(b1.1)), _ => j });
        let vd = if r.p(1, 5) { r.r(0, 5) as usize } else { d1 };
        let mut v = Position::new(vec![*r.pick(&[0.0, 7.5, f64::MAX, -1.0]); vd]);
        let v0 = v.clone();
        let t = match guard_ev("mutual_displacement_to_vec", || x.mutual_displacement_to_vec(&y, &mut v)) { Some(t) => t, None => break };
        let kept = x.full() == x0 && y.full() == y0;
        let same = match (&z.0, &t) { (Ok(a1), Ok(d)) => a1.0.dim() == v.dim() && a1.0.iter().zip(v.iter()).all(|(a, b)| (a - b).abs() <= 1e-12) && (a1.1 - d).abs() <= 1e-12 * d, _ => false };
        ev(J::op("vec").v("p", &p).v("q", &q).i("vd", vd as i64).i("w", isqrt(4096 * n)).b("kept", kept).b("ok", t.is_ok()).b("same", same)
            .b("untouched", v == v0).v("e", &e4(&v)).i("m", t.map_or(-1, |d| m64(d))));
        let t = match guard_ev("mutual_distance", || x.mutual_distance(&y)) { Some(t) => t, None => break };
        ev(J::op("mdist").v("p", &p).v("q", &q).b("ok", t.is_ok()).b("kept", x.full() == x0 && y.full() == y0).i("m", t.map_or(-1, |d| m64(d))));
    }
    end_case();
}
pub fn run_disp(a: &Args) {
    for i in 0..a.num(1600, 24000) {
        let mut r = R::new(a.seed, i + (5 << 40));
        match i % 4 { 0 => disp_case::<ContPassiveIndepAgent>(format!("indep-{}", i), &mut r), 1 => disp_case::<ContPassiveMergeAgent>(format!("merge-{}", i), &mut r),
            2 => disp_case::<ContPassiveExpAgent>(format!("exp-{}", i), &mut r), _ => disp_case::<ContPassiveLJAgent>(format!("lj-{}", i), &mut r) }
    }
}

// ------------------------------------------------------------------ C20
fn move_case<A: Ag>(id: String, r: &mut R) {
    begin_case(id, J::new().s("kind", A::KIND));
    let mut rng: Pcg64 = rng_seed(r.u() as u128);
    let dim = if r.p(1, 12) { r.r(5, 16) } else { r.r(1, 4) } as usize;
    // lengths in units of q: steps of any order of magnitude
    let q: f64 = if r.p(1, 3) { 2f64.powi(r.r(-40, 40) as i32) } else { 1.0 };
    let mut base = vec![0i64; dim];
    let mut vec = Position::new(vec![0.0; dim]);
    ev(J::op("set").v("x", &base));
    for _ in 0..25 {
        // 2 D dt = n / 100
        let (d, dt, n) = match r.n(4) {
            0 => (0.5, 1.0, 100), 1 => { let k = r.r(1, 12); (0.5 * k as f64, k as f64, 100 * k * k) }
            2 => (2.0, 0.5625, 225), _ => { let a1 = r.r(1, 60); let b = r.r(1, 40); (a1 as f64 / 20.0, b as f64 / 10.0, a1 * b) } };
        let (d1, mut dt1) = match r.n(3) { 0 => (d * q, dt * q), 1 => (d, dt * q * q), _ => (d * q * q, dt) };
        let mut a = A::mk(vec![1.25 * q; dim], if r.p(1, 6) { MoveType::Levy } else { MoveType::Brownian(d1) });
        let mut n = n;
        if A::KIND == "merge" && r.p(1, 3) { if let Some((g, nn)) = merged::<A>(&a, dt) { a = g; n = nn; dt1 = dt * q * q; } }
        let mt = if let MoveType::Levy = a.mtype() { "levy" } else { "brownian" };
        let a0 = a.full();
        let w = isqrt(4096 * n);
        let mut twin = rng.clone();
        let g = get_gaussian_vec(&mut twin, dim);
        let gs: Vec<i64> = g.iter().map(|x| fx(*x, 1000.0)).collect();
        if r.p(1, 2) {
            let x = match guard_ev("random_move", || a.random_move(&mut rng, dt1)) { Some(x) => x, None => break };
            ev(J::op("rm").i("n", n).i("w", w).i("dim", dim as i64).s("mt", mt).v("g", &gs).b("kept", a.full() == a0).b("ok", x.is_ok())
                .v("x", &x.map_or(vec![], |p| p.iter().map(|y| fx(*y / q, 1000.0)).collect())));
        } else {
            if r.p(1, 3) {
                let d2 = if r.p(1, 3) { r.r(0, 5) as usize } else { dim };
                base = rv(r, d2, 50);
                vec = Position::new(base.iter().map(|x| *x as f64 * q).collect());
                ev(J::op("set").v("x", &base.iter().map(|x| x * 1000).collect::<Vec<_>>()));
            }
            let ok = match guard_ev("random_move_to_vec", || a.random_move_to_vec(&mut rng, dt1, &mut vec)) { Some(x) => x.is_ok(), None => break };
            ev(J::op("rmv").i("n", n).i("w", w).i("dim", dim as i64).s("mt", mt).v("g", &gs).b("kept", a.full() == a0).b("ok", ok)
                .v("x", &vec.iter().map(|y| fx(*y / q, 1000.0)).collect::<Vec<_>>()));
        }
    }
    end_case();
}
/// a merged agent of size four moves with coefficient 4^(-1/2)
fn merged<A: Ag>(a: &A, dt: f64) -> Option<(A, i64)> {
    let n = (dt * 100.0).round() as i64;
    if (n as f64 - dt * 100.0).abs() > 1e-9 { return None; }
    A::grown(a, 3).map(|g| (g, n))
}
pub fn run_randmove(a: &Args) {
    for i in 0..a.num(1600, 24000) {
        let mut r = R::new(a.seed, i + (6 << 40));
        match i % 4 { 0 => move_case::<ContPassiveIndepAgent>(format!("indep-{}", i), &mut r), 1 => move_case::<ContPassiveMergeAgent>(format!("merge-{}", i), &mut r),
            2 => move_case::<ContPassiveExpAgent>(format!("exp-{}", i), &mut r), _ => move_case::<ContPassiveLJAgent>(format!("lj-{}", i), &mut r) }
    }
}

// ------------------------------------------------------------------ C19
#[derive(Clone, Debug)]
enum Cl { U, N, Uv(usize), Nv(usize), Pos(usize), Place(usize, usize), Move(usize, usize) }
struct World { sys: Vec<Box<dyn SystemCore<f64>>>, dims: Vec<usize>, tgt: Vec<ContBulkTarget> }
fn world(r: &mut R) -> World {
    let mut w = World { sys: vec![], dims: vec![], tgt: vec![] };
    for shape in 0..3u8 {
        let dim = r.r(1, 3) as usize;
        let d = match shape { 0 => r.n(dim as u64 + 1) as usize, 1 => dim, _ => r.n(dim as u64 + 1) as usize };
        let s = Sh { shape, d, dim, l: r.r(1, 6) as f64, r: r.r(1, 6) as f64, args: r.p(1, 2) };
        w.sys.push(s.make(1.0)); w.dims.push(dim);
        w.tgt.push(ContBulkTarget::new(Position::new(vec![0.0; dim]), 0.5));
    }
    w
}
struct Out { val: Vec<f64>, base: Vec<i64>, off: i64, sc: i64, range: bool, ok: bool }
fn plain(v: Vec<f64>, range: bool) -> Out { let n = v.len(); Out { val: v, base: vec![0; n], off: 0, sc: 1, range, ok: true } }
fn draw_kind<A: Ag>(w: &World, k: usize, variant: u64, rng: &mut Pcg64) -> Result<Vec<f64>, Error> {
    let mt = MoveType::Brownian(0.5);
    let s = &*w.sys[k];
    match variant {
        0 => A::mk_uniform(s, &w.tgt[k], rng, w.dims[k], mt).map(|a| a.pos().coordinate.clone()),
        1 => { let mut a = A::mk(vec![0.25; w.dims[k]], mt); a.renew(s, &w.tgt[k], rng)?; Ok(a.pos().coordinate.clone()) }
        _ => { let mut a = A::from_args(InitType::Uniform, mt, w.dims[k], 1).remove(0); a.renew(s, &w.tgt[k], rng)?; Ok(a.pos().coordinate.clone()) }
    }
}
fn move_kind<A: Ag>(dim: usize, variant: u64, r: &mut R, rng: &mut Pcg64) -> Result<Out, Error> {
    let a = A::mk(vec![0.0; dim], MoveType::Brownian(2.0));
    let dt = 1.0;                                   // length 2
    if variant == 0 { let m = a.random_move(rng, dt)?; return Ok(Out { val: m.coordinate, base: vec![0; dim], off: 0, sc: 2, range: true, ok: true }); }
    let base = rv(r, dim, 20);
    let mut v = Position::new(base.iter().map(|x| *x as f64).collect());
    a.random_move_to_vec(rng, dt, &mut v)?;
    Ok(Out { val: v.coordinate, base, off: 0, sc: 2, range: true, ok: true })
}
fn draw(w: &World, c: &Cl, r: &mut R, rng: &mut Pcg64) -> Result<Out, Error> {
    let in01 = |v: &[f64]| v.iter().all(|x| *x > 0.0 && *x < 1.0);
    Ok(match c {
        Cl::U => { let x = get_uniform(rng); plain(vec![x], in01(&[x])) }
        Cl::N => { let x = get_gaussian(rng); plain(vec![x], x.is_finite()) }
        Cl::Uv(d) => match r.n(3) {
            0 => { let v = get_uniform_vec(rng, *d).coordinate; let o = in01(&v); plain(v, o) }
            1 => { let mut v = Position::new(rv(r, *d, 9).iter().map(|x| *x as f64).collect()); get_uniform_to_vec(rng, &mut v); let o = in01(&v.coordinate); plain(v.coordinate, o) }
            _ => {
                let base = rv(r, *d, 9); let (off, sc) = (r.r(-9, 9), r.r(1, 8));
                let mut v: Position<f64> = Position::new(base.iter().map(|x| *x as f64).collect());
                get_uniform_to_vec_nonstandard(rng, &mut v, off as f64, (off + sc) as f64);
                let o = v.iter().zip(base.iter()).all(|(x, b)| *x >= (*b + off) as f64 && *x <= (*b + off + sc) as f64);
                Out { val: v.coordinate, base, off, sc, range: o, ok: true }
            } },
        Cl::Nv(d) => match r.n(3) {
            0 => plain(get_gaussian_vec(rng, *d).coordinate, true),
            1 => { let mut v = Position::new(rv(r, *d, 9).iter().map(|x| *x as f64).collect()); get_gaussian_to_vec(rng, &mut v); plain(v.coordinate, true) }
            _ => {
                let base = rv(r, *d, 9); let (off, sc) = (r.r(-9, 9), r.r(0, 8));
                let mut v: Position<f64> = Position::new(base.iter().map(|x| *x as f64).collect());
                get_gaussian_to_vec_nonstandard(rng, &mut v, off as f64, sc as f64);
                Out { val: v.coordinate, base, off, sc, range: true, ok: true }
            } },
        Cl::Pos(k) => if r.p(1, 2) { plain(w.sys[*k].random_pos(rng)?.coordinate, true) } else {
            let mut v = Position::new(rv(r, w.dims[*k], 9).iter().map(|x| *x as f64).collect()); w.sys[*k].random_pos_to_vec(rng, &mut v)?; plain(v.coordinate, true) },
        Cl::Place(k, a) => { let vt = r.n(3); plain(match a { 0 => draw_kind::<ContPassiveIndepAgent>(w, *k, vt, rng)?, 1 => draw_kind::<ContPassiveMergeAgent>(w, *k, vt, rng)?,
            2 => draw_kind::<ContPassiveExpAgent>(w, *k, vt, rng)?, _ => draw_kind::<ContPassiveLJAgent>(w, *k, vt, rng)? }, true) }
        Cl::Move(d, a) => { let vt = r.n(2); match a { 0 => move_kind::<ContPassiveIndepAgent>(*d, vt, r, rng)?, 1 => move_kind::<ContPassiveMergeAgent>(*d, vt, r, rng)?,
            2 => move_kind::<ContPassiveExpAgent>(*d, vt, r, rng)?, _ => move_kind::<ContPassiveLJAgent>(*d, vt, r, rng)? } }
    })
}
/// a small simulation, everything it produces as bits
fn history(w: &World, seed: u128) -> Vec<u64> {
    let mut rng: Pcg64 = rng_seed(seed);
    let mut out = vec![];
    for k in 0..3 {
        let d = w.dims[k];
        let mut l = LinkedList::from(ContPassiveMergeAgent::from_args(InitType::Uniform, MoveType::Brownian(0.5), d, 4));
        for a in l.contents.iter_mut() { let _ = Ag::renew(a, &*w.sys[k], &w.tgt[k], &mut rng); }
        for _ in 0..10 {
            l.into_iter();
            let mut mv = Position::new(vec![0.0; d]);
            while let Some(n) = l.get_mut() {
                mv.clear();
                let _ = n.random_move_to_vec(&mut rng, 0.001, &mut mv);
                let _ = w.sys[k].check_bc(&mut n.pos, &mut mv);
                out.extend(n.pos.iter().map(|x| x.to_bits()));
            }
        }
        if let Ok(p) = w.sys[k].random_pos(&mut rng) { out.extend(p.iter().map(|x| x.to_bits())); }
        out.push(get_uniform(&mut rng).to_bits()); out.push(get_gaussian(&mut rng).to_bits());
    }
    out
}
/// one generator draws very often, then another of the same seed: hashes of stretches of 64 draws
fn marathon(i: u64, r: &mut R, many: usize) {
    let w = world(r);
    let c = [Cl::U, Cl::N, Cl::Uv(3), Cl::Nv(2), Cl::Pos(r.n(3) as usize), Cl::Move(2, r.n(4) as usize), Cl::Place(r.n(3) as usize, r.n(4) as usize)].into_iter().nth((i % 7) as usize).unwrap();
    let seed = r.u() as u128;
    begin_case(format!("draws-long{}", i), J::new().vs("seeds", &[seed.to_string(), seed.to_string()]));
    let mut made: Vec<Vec<i64>> = vec![vec![], vec![]];
    for g in 0..2 {
        let mut rng: Pcg64 = rng_seed(seed);
        let mut h = 0u64;
        let done = guard_ev("draw", || for k in 0..many {
            // the variant is a matter of the step, not of the generator
            let mut q = R::new(seed as u64, k as u64);
            if let Ok(o) = draw(&w, &c, &mut q, &mut rng) { for x in o.val { h = (h ^ x.to_bits()).wrapping_mul(0x100000001b3).rotate_left(23); } } else { h ^= 1; }
            if k % 64 == 63 || k + 1 == many { made[g].push((h >> 40) as i64); h = 0; }
        });
        if done.is_none() { break; }
    }
    ev(J::op("long").i("a", 1).i("b", 2).i("count", many as i64).v("first", &made[0]).v("second", &made[1]));
    end_case();
}
pub fn run_draws(a: &Args) {
    for i in 0..a.num(7, 56) { let mut r = R::new(a.seed, i + (77 << 40)); marathon(i, &mut r, if i % 7 < 2 { 24001 } else { 6007 }); }
    for i in 0..a.num(260, 4000) {
        let mut r = R::new(a.seed, i + (7 << 40));
        let s0 = ((r.u() as u128) << (if r.p(1, 2) { 64 } else { 0 })) | if r.p(1, 3) { r.n(100) as u128 } else { r.u() as u128 };
        let others = [s0.wrapping_add(1), s0 ^ (1 << 64), s0 ^ (1 << 127), s0 ^ (1 << 100), s0.wrapping_sub(1)];
        let seeds = vec![s0, s0, *r.pick(&others), s0];
        let names: Vec<String> = seeds.iter().map(|s| s.to_string()).collect();
        begin_case(format!("draws-{}", i), J::new().vs("seeds", &names));
        let w = world(&mut r);
        // some schedules run long and draw long vectors
        let (calls, most) = if i % 26 == 25 { (120, 40) } else { (14, 5) };
        let sched: Vec<Cl> = (0..calls).map(|_| match r.n(9) { 0 => Cl::U, 1 => Cl::N, 2 | 3 => Cl::Uv(r.r(0, most) as usize), 4 | 5 => Cl::Nv(r.r(0, most) as usize),
            6 => Cl::Pos(r.n(3) as usize), 7 => Cl::Place(r.n(3) as usize, r.n(4) as usize), _ => Cl::Move(r.r(1, 3) as usize, r.n(4) as usize) }).collect();
        let mut rngs: Vec<Pcg64> = seeds.iter().map(|s| rng_seed(*s)).collect();
        let mut at = vec![0usize; seeds.len()];
        'all: while at.iter().any(|k| *k < sched.len()) {
            let g = loop { let g = r.n(seeds.len() as u64) as usize; if at[g] < sched.len() { break g; } };
            for _ in 0..r.r(1, 4) {
                if at[g] >= sched.len() { break; }
                let c = &sched[at[g]]; at[g] += 1;
                let o = match guard_ev("draw", || draw(&w, c, &mut r, &mut rngs[g])) { Some(o) => o, None => break 'all };
                match o { Err(_) => ev(J::op("draw").b("ok", false)),
                    Ok(o) => ev(J::op("draw").i("g", g as i64 + 1).s("kind", &format!("{:?}", c)).b("ok", o.ok).b("range", o.range).v("base", &o.base).i("off", o.off).i("sc", o.sc)
                        .v("res", &o.val.iter().map(|x| fx(*x, 1e6)).collect::<Vec<_>>())) }
            }
        }
        if let Some((h1, h2, h3)) = guard_ev("history", || (history(&w, s0), history(&w, others[1]), history(&w, s0))) {
            ev(J::op("twin").b("equal", h1 == h3 && h1 != h2));
        }
        let mut sd = others.to_vec(); sd.push(s0); sd.push(s0);
        let first: Vec<String> = sd.iter().map(|s| { let mut g: Pcg64 = rng_seed(*s); format!("{:?}", (0..4).map(|_| get_uniform(&mut g).to_bits()).collect::<Vec<_>>()) }).collect();
        ev(J::op("start").vs("seeds", &sd.iter().map(|s| s.to_string()).collect::<Vec<_>>()).vs("first", &first));
        end_case();
    }
}
