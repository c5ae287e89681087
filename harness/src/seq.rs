//! Positions as sequences of coordinates: C30.
use crate::util::*;
use moledyn::prelude::*;
use std::fmt::LowerExp;

trait Num: Copy + Clone + Default + Display + LowerExp + FromStr + PartialEq + PartialOrd + std::fmt::Debug { fn of(k: i64) -> Self; fn back(self) -> i64; fn sum(self, k: i64) -> Self; }
impl Num for f64 { fn of(k: i64) -> f64 { k as f64 / 8.0 } fn back(self) -> i64 { exact(self, 8.0) } fn sum(self, k: i64) -> f64 { self + k as f64 / 8.0 } }
impl Num for i32 { fn of(k: i64) -> i32 { k as i32 } fn back(self) -> i64 { self as i64 } fn sum(self, k: i64) -> i32 { self + k as i32 } }

fn p<T: Num>(v: &[i64]) -> Position<T> { Position::new(v.iter().map(|x| T::of(*x)).collect()) }
fn g<'a, T: Num + 'a>(i: impl Iterator<Item = &'a T>) -> Vec<i64> { i.map(|x| x.back()).collect() }
fn words<T: Num>(s: &str) -> Vec<i64> { if s.is_empty() { return vec![] } s.split(',').map(|w| w.parse::<f64>().map_or(BIG, |x| if T::of(1).back() == 1 && T::of(8).to_string() == "8" { exact(x, 1.0) } else { exact(x, 8.0) })).collect() }
fn rv(r: &mut R, n: i64) -> Vec<i64> { (0..n).map(|_| match r.n(6) { 0 => 0, 1 => r.r(-100000, 100000) * 8, _ => r.r(-99, 99) }).collect() }

fn one<T: Num>(id: String, r: &mut R) {
    let n = match r.n(6) { 0 => 0, 1 => 1, 2 => r.r(7, 70), _ => r.r(1, 6) };
    let v = rv(r, n);
    begin_case(id, J::new().s("type", if T::of(8).to_string() == "8" { "i32" } else { "f64" }).v("x", &v));
    let mut x: Position<T> = p(&v);
    let mut y = x.clone();
    for _ in 0..30 {
        let d = x.dim();
        let go = (|| -> Option<()> {
            match r.n(17) {
                0 => { let k = r.r(-50, 50); guard_ev("push", || x.push(T::of(k)))?; ev(J::op("push").i("y", k).v("x2", &g(x.iter()))); }
                1 => { let m = r.r(0, 4); let w = rv(r, m); let q: Position<T> = p(&w);
                    guard_ev("extend", || if r.clone().p(1, 2) { x.extend(q.clone()) } else { x.extend(w.iter().map(|k| T::of(*k))) })?; ev(J::op("extend").v("y", &w).v("x2", &g(x.iter()))); }
                2 if d > 0 => { let i = r.n(d as u64) as usize; let got = guard_ev("index", || x[i])?; ev(J::op("at").i("i", i as i64 + 1).i("got", got.back())); }
                3 if d > 0 => { let i = r.n(d as u64) as usize; let k = r.r(-50, 50); guard_ev("index_mut", || x[i] = T::of(k))?; ev(J::op("put").i("i", i as i64 + 1).i("y", k).v("x2", &g(x.iter()))); }
                4 => { let a = r.n(d as u64 + 1) as usize; let b = a + r.n((d - a) as u64 + 1) as usize;
                    let got = guard_ev("range", || (x[a..b].to_vec(), x[..b].to_vec(), x[a..].to_vec()))?;
                    ev(J::op("ranges").i("a", a as i64).i("b", b as i64).v("mid", &g(got.0.iter())).v("to", &g(got.1.iter())).v("from", &g(got.2.iter()))); }
                5 => { let k = r.r(0, 3) as usize;
                    let over = guard(|| match k { 0 => { let _ = x[d]; } 1 => { let _ = x[d + 3]; } 2 => { let _ = &x[..d + 1]; } _ => { let _ = &x[d + 1..]; } }).is_err();
                    ev(J::op("beyond").b("refused", over)); }
                6 => { let got = guard_ev("iter", || (x.dim(), x.iter().cloned().collect::<Vec<T>>(), x.clone().into_iter().collect::<Vec<T>>(), x.iter_mut().map(|z| *z).collect::<Vec<T>>(), x.coordinate.clone()))?;
                    ev(J::op("all").i("dim", got.0 as i64).v("iter", &g(got.1.iter())).v("into", &g(got.2.iter())).v("mutable", &g(got.3.iter())).v("field", &g(got.4.iter()))); }
                7 => { let k = r.r(-9, 9); guard_ev("iter_mut", || for z in x.iter_mut() { *z = z.sum(k); })?; ev(J::op("shift").i("y", k).v("x2", &g(x.iter()))); }
                8 => { let (a, b) = guard_ev("into_iter", || { let mut it = x.clone().into_iter(); let f = it.next(); let l = it.next_back(); (f, l) })?;
                    ev(J::op("ends").b("some", a.is_some()).b("two", b.is_some()).i("first", a.map_or(0, |z| z.back())).i("last", b.map_or(0, |z| z.back()))); }
                9 if r.p(1, 2) => { guard_ev("clear", || x.clear())?; ev(J::op("clear").v("x2", &g(x.iter()))); }
                10 => { y = guard_ev("clone", || x.clone())?; ev(J::op("copy").v("y2", &g(y.iter()))); }
                11 => { std::mem::swap(&mut x, &mut y); ev(J::op("swap").v("x2", &g(x.iter())).v("y2", &g(y.iter()))); }
                12 => { let e = guard_ev("eq", || (x == y, x != y, y == x, x == x.clone()))?; ev(J::op("eq").b("eq", e.0).b("ne", e.1).b("qe", e.2).b("own", e.3)); }
                13 => { let s = guard_ev("Display", || format!("{}", x))?; ev(J::op("text").v("words", &words::<T>(&s)).b("plain", !s.contains(' ') && !s.contains('('))); }
                14 => { let (s, t) = guard_ev("LowerExp", || (format!("{:e}", x), format!("{:.2e}", p::<T>(&(0..d as i64).map(|k| k % 7 * 8).collect::<Vec<_>>()))))?;
                    ev(J::op("exp").v("words", &words::<T>(&s)).b("form", s.is_empty() || s.split(',').all(|w| w.contains('e'))).v("digits", &t.split(',').map(|w| w.find('e').unwrap_or(0) as i64).collect::<Vec<_>>())); }
                15 => { let s = guard_ev("Display", || format!("{}", x))?; let back = guard_ev("FromStr", || s.parse::<Position<T>>().ok())?;
                    ev(J::op("again").b("ok", back.is_some()).v("got", &back.map_or(vec![], |b| g(b.iter())))); }
                _ => { // a list of positions, cleared
                    let m = r.r(0, 5); let vs: Vec<Vec<i64>> = (0..m).map(|_| { let k = r.r(0, 4); rv(r, k) }).collect();
                    let mut l: LinkedList<Position<T>> = LinkedList::from(vs.iter().map(|v| p(v)).collect());
                    let mut dead = vec![];
                    for k in 0..m { if r.p(1, 3) { guard_ev("del", || l.del(k as usize).is_ok())?; dead.push(k + 1); } }
                    guard_ev("LinkedList::clear", || { if r.clone().p(1, 2) { l.into_double_iter(); } l.clear(); })?;
                    l.into_iter();
                    let mut seen = vec![]; while let Some((i, q)) = guard_ev("enumerate", || l.enumerate().map(|(i, q)| (i, q.clone())))? { seen.push((i as i64 + 1, g(q.iter()))); if seen.len() > 20 { break; } }
                    ev(J::op("list").raw("vs", &format!("{:?}", vs)).v("dead", &dead).v("order", &seen.iter().map(|s| s.0).collect::<Vec<_>>()).raw("now", &format!("{:?}", seen.iter().map(|s| s.1.clone()).collect::<Vec<_>>())));
                }
            }
            Some(())
        })();
        if go.is_none() { break; }
        if x.iter().any(|z| z.back().abs() > 100_000_000) { break; }
    }
    end_case();
}
pub fn run_seq(a: &Args) {
    // the empty one
    begin_case("default", J::new().s("type", "f64").v("x", &[]));
    if let Some(e) = guard_ev("default", || Position::<f64>::default()) { ev(J::op("all").i("dim", e.dim() as i64).v("iter", &g(e.iter())).v("into", &g(e.clone().into_iter().collect::<Vec<_>>().iter())).v("mutable", &g(e.iter())).v("field", &g(e.coordinate.iter()))); }
    end_case();
    for i in 0..a.num(2500, 40000) {
        let mut r = R::new(a.seed, i + (111 << 40));
        if i % 2 == 0 { one::<f64>(format!("seq-f64-{}", i), &mut r) } else { one::<i32>(format!("seq-i32-{}", i), &mut r) }
    }
}
