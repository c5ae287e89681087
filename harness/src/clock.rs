//! Time schemes: C05 (times) and C06 (steps).
use crate::util::*;
use moledyn::prelude::*;
use moledyn::time_mod::TimeDiffIterator;

/// one time unit of the logs is 1/SC of the clock's unit
#[derive(Clone, Copy)]
enum Ck { C(ConstStep), E(ExponentialStep) }
enum Df { C(TimeDiffIterator<ConstStep>), E(TimeDiffIterator<ExponentialStep>) }
impl Ck {
    fn next(&mut self) -> Option<f64> { match self { Ck::C(x) => x.next(), Ck::E(x) => x.next() } }
    fn dt(&self) -> f64 { match self { Ck::C(x) => x.dt(), Ck::E(x) => x.dt() } }
    fn now(&self) -> f64 { match self { Ck::C(x) => x.current_time(), Ck::E(x) => x.current_time() } }
    fn renew(&mut self) { match self { Ck::C(x) => x.renew(), Ck::E(x) => x.renew() } }
    fn set_tmax(&mut self, t: f64) -> bool { match self { Ck::C(x) => x.set_tmax(t).is_ok(), Ck::E(x) => x.set_tmax(t).is_ok() } }
    fn set_inc(&mut self, i: f64) -> bool { match self { Ck::C(_) => false, Ck::E(x) => x.set_inc(i).is_ok() } }
    fn grows(&self) -> bool { match self { Ck::C(_) => true, Ck::E(x) => x.inc > 1.0 } }
    fn diff(&self) -> Df { match self { Ck::C(x) => Df::C(x.into_diff()), Ck::E(x) => Df::E(x.into_diff()) } }
}
impl Df { fn next(&mut self) -> Option<(f64, f64)> { match self { Df::C(x) => x.next(), Df::E(x) => x.next() } } }

pub struct Sched { pub growing: bool, pub via_args: bool, pub dmin: f64, pub dmax: f64, pub len: usize, pub tmax: f64, pub num: i64, pub den: i64, pub te: i64, pub fine: bool }
impl Sched {
    fn make(&self) -> Result<Ck, Error> {
        if self.growing {
            if self.via_args {
                Ok(Ck::E(ExponentialStep::convert_from(&ExponentialStepArguments { dt_min: self.dmin, dt_max: self.dmax, length: self.len, tmax: self.tmax })))
            } else {
                let mut x = ExponentialStep::new(self.dmin, self.dmax, self.len)?;
                if self.tmax > 0.0 { x.set_tmax(self.tmax)?; }
                Ok(Ck::E(x))
            }
        } else if self.via_args {
            Ok(Ck::C(ConstStep::convert_from(&ConstStepArguments { dt: self.dmin, tmax: self.tmax })))
        } else {
            let mut x = ConstStep::new(self.dmin)?;
            if self.tmax > 0.0 { x.set_tmax(self.tmax)?; }
            Ok(Ck::C(x))
        }
    }
    fn cfg(&self, sc: f64) -> J {
        J::new().s("kind", if self.growing { "grow" } else { "const" }).s("via", if self.via_args { "args" } else { "new" })
            .i("dmin", fx(self.dmin, sc)).i("dmax", fx(self.dmax, sc)).i("len", if self.growing { self.len as i64 } else { 0 })
            .i("tmax", fx(self.tmax, sc)).i("te", self.te).i("num", self.num).i("den", self.den)
    }
}

/// the representable number e beyond x
fn beside(x: f64, e: i64) -> f64 { if x > 0.0 { f64::from_bits((x.to_bits() as i64 + e) as u64) } else { x } }
/// (schedule, log scale, whether factors are exact on the grid)
fn sched(r: &mut R, growing: bool, steps: bool) -> (Sched, f64, bool) {
    let via = r.p(1, 2);
    let te = *r.pick(&[0, 0, -1, 1]);
    if !growing {
        let den = *r.pick(&[1.0, 2.0, 8.0, 1024.0]);
        let d = r.r(1, 9) as f64 / den;
        let tm = if r.p(1, 5) { 0.0 } else { r.r(1, 60) as f64 / den };
        return (Sched { growing, via_args: via, dmin: d, dmax: d, len: 0, tmax: beside(tm, te), num: 1, den: 1, te, fine: true }, den, true);
    }
    let short = !via && r.p(1, 3);
    if via || short {
        // factor 1.2: five to the sixth units keep the first steps integral
        let u = 15625.0;
        let len = if via { r.r(10, 14) } else { r.r(1, 2) } as usize;
        let dmax = if r.p(1, 6) { u * 1.2 - 2.0 } else { u * *r.pick(&[1.0, 1.1, 1.2, 1.5, 1.728, 2.0, 2.4]) };
        let tm = if r.p(1, 4) { 0.0 } else { (u * r.r(1, 40) as f64) + 0.5 };
        (Sched { growing, via_args: via, dmin: u, dmax, len, tmax: tm, num: 6, den: 5, te: 0, fine: false }, 2.0, false)
    } else {
        let len = if r.p(1, 8) { r.r(14, 70) } else { r.r(3, 13) } as usize;
        let den = *r.pick(&[1.0, 4.0, 1024.0]);
        let d = 64.0 / den * *r.pick(&[1.0, 2.0]);
        let dmax = d * *r.pick(&[1.0, 1.5, 2.0, 2.5, 7.0, 30.0, 100.0, 1000.0][..if steps { 8 } else { 6 }]);
        // a cap just below what a stage would grow to
        let fine = steps == false && r.p(1, 2);         // every time on the grid exactly
        let te = if fine { te } else { 0 };
        let dmax = if !fine && r.p(1, 3) { let inc = if len >= 10 { 10.0 } else { len as f64 / 2.0 }; match r.n(3) { 0 => beside(d * inc, -1), 1 => d * inc - d / 512.0, _ => d * inc * inc - d / 512.0 } } else { dmax };
        let tm = match r.n(4) { 0 => 0.0, 1 => d * r.r(1, 60) as f64, _ => d * r.r(1, 3000) as f64 };
        let (num, dn) = if len >= 10 { (10, 1) } else { (len as i64, 2) };
        (Sched { growing, via_args: via, dmin: d, dmax, len, tmax: beside(tm, te), num, den: dn, te, fine }, den * 1024.0, true)
    }
}

fn one(id: String, r: &mut R, growing: bool, steps: bool, ops: usize, cap: usize) {
    let (s, mut sc, exact_grid) = sched(r, growing, steps);
    // keep the logged integers inside 32 bit: at most ~cap emissions of dmax
    while exact_grid && (s.dmax * (cap + 20) as f64).max(s.tmax) * sc > 1.9e9 && sc > 1.0 { sc /= 2.0; }
    begin_case(id, s.cfg(sc));
    let c = match guard_ev("make", || s.make()) { Some(Ok(c)) => c, Some(Err(_)) => { ev(J::op("refused")); end_case(); return; } None => { end_case(); return; } };
    let mut c = c;
    if steps { ev(J::op("new").i("d", fx(c.dt(), sc)).b("grows", c.grows())); }
    let mut df: Option<Df> = None;
    let mut withheld = false;
    let mut emitted = 0usize;
    for _ in 0..ops {
        let w = r.n(40);
        if w < 26 || (w < 34 && df.is_none()) {
            for _ in 0..(if cap > 300 { r.r(100, 700) } else if r.p(1, 3) { r.r(1, 12) } else { 1 }) {
                if emitted > cap { break; }
                emitted += 1;
                let x = match guard_ev("next", || c.next()) { Some(x) => x, None => { end_case(); return; } };
                withheld = x.is_none();
                ev(J::op("next").b("some", x.is_some()).b("capped", c.dt() <= s.dmax).i("t", fx(x.unwrap_or(-1.0), sc)).i("d", fx(c.dt(), sc)).i("now", fx(c.now(), sc)).b("grows", c.grows()));
            }
        } else if w < 34 {
            let d = df.as_mut().unwrap();
            for _ in 0..r.r(1, 10) {
                if emitted > cap { break; }
                emitted += 1;
                let x = match guard_ev("dnext", || d.next()) { Some(x) => x, None => { end_case(); return; } };
                ev(J::op("dnext").b("some", x.is_some()).b("capped", x.map_or(true, |y| y.1 <= s.dmax)).i("t", fx(x.map_or(-1.0, |y| y.0), sc)).i("d", fx(x.map_or(-1.0, |y| y.1), sc)));
            }
        } else if w < 36 {
            df = Some(c.diff());
            ev(J::op("diff"));
        } else if w < 37 {
            if guard_ev("renew", || c.renew()).is_none() { break; }
            withheld = false; emitted = 0;
            ev(J::op("renew").i("now", fx(c.now(), sc)).i("d", fx(c.dt(), sc)).b("grows", c.grows()));
        } else if w < 39 {
            let x = match r.n(4) { 0 => -(r.r(1, 50) as f64), 1 => 0.0,
                _ => if exact_grid { s.dmin * r.r(1, 200) as f64 } else { s.dmin * r.r(1, 60) as f64 + 0.5 } };
            let te = if s.fine && x > 0.0 { *r.pick(&[0, 0, -1, 1]) } else { 0 };
            let ok = match guard_ev("settmax", || c.set_tmax(beside(x, te))) { Some(o) => o, None => break };
            ev(J::op("settmax").i("x", fx(x, sc)).i("e", te).b("ok", ok).i("now", fx(c.now(), sc)));
        } else if growing && !withheld && df.is_none() {
            let cand: &[(i64, i64)] = if !exact_grid { &[(1, 1), (1, 2), (-2, 1), (0, 1), (6, 5), (3, 1), (100, 1)] }
                else if s.len < 3 { &[(1, 1)] } else { &[(1, 1), (1, 2), (0, 1), (-3, 1), (3, 2), (2, 1), (4, 1), (5, 1), (100, 1)] };
            let (n, d) = *r.pick(cand);
            // a factor of 1.2 on the 5^6 grid only; factors > 1.2 on long stages leave the grid
            if !exact_grid && s.len > 2 && n > d { continue; }
            let ok = match guard_ev("setinc", || c.set_inc(n as f64 / d as f64)) { Some(o) => o, None => break };
            ev(J::op("setinc").i("num", n).i("den", d).b("ok", ok).i("now", fx(c.now(), sc)).b("grows", c.grows()));
        }
    }
    end_case();
}

/// steps and limits that are no round numbers: the relation is evaluated here, in floating point
fn real(id: String, r: &mut R) {
    let growing = r.p(1, 2);
    let via = r.p(1, 2);
    let dmin = (1.0 + r.n(1000) as f64 / 333.0) * 10f64.powi(r.r(-13, 3) as i32);
    let dmax = dmin * (1.0 + r.n(900) as f64 / 7.0);
    let len = if via { r.r(10, 20) } else { r.r(1, 20) } as usize;
    let tmax = if r.p(1, 4) { 0.0 } else { dmin * (r.r(1, 400) as f64 + 0.37) };
    let s = Sched { growing, via_args: via, dmin, dmax: if growing { dmax } else { dmin }, len, tmax, num: 1, den: 1, te: 0, fine: false };
    begin_case(id, J::new().s("kind", if growing { "grow" } else { "const" }).b("via_args", via).s("text", &format!("{:e} {:e} {} {:e}", dmin, dmax, len, tmax)).i("tmax", 0).i("te", 0));
    let mut c = match guard_ev("make", || s.make()) { Some(Ok(c)) => c, Some(Err(_)) => { ev(J::op("refused")); end_case(); return; } None => { end_case(); return; } };
    for pass in 0..2 {
        let mut want = 0f64;
        let mut d = c.diff();
        for _ in 0..if r.p(1, 40) { 3000 } else { r.r(5, 250) } {
            let lim = if tmax > 0.0 { tmax } else { f64::MAX };
            // no verdict within rounding distance of the limit
            if (want - lim).abs() < 1e-9 * lim.min(1e300) { break; }
            let fits = want <= lim;
            let (x, dt) = if pass == 0 {
                match guard_ev("dnext", || d.next()) { Some(Some((t, dt))) => (Some(t), dt), Some(None) => (None, 0.0), None => { end_case(); return; } }
            } else {
                match guard_ev("next", || c.next()) { Some(t) => (t, c.dt()), None => { end_case(); return; } }
            };
            let t = x.unwrap_or(0.0);
            ev(J::op("real").b("some", x.is_some()).b("fits", fits)
                .b("adv", (t - want).abs() <= 1e-12 * want.abs()).b("pos", dt > 0.0).b("le", t <= lim));
            if x.is_none() { break; }
            want = t + dt;
        }
    }
    end_case();
}

pub fn run(a: &Args, steps: bool) {
    let n = a.num(1500, 12000);
    for i in 0..n {
        let mut r = R::new(a.seed, i + if steps { 1 << 32 } else { 0 });
        let growing = steps || r.p(2, 3);
        one(format!("{}-{}", if growing { "grow" } else { "const" }, i), &mut r, growing, steps, 60, 300);
    }
    // long runs: thousands of emissions of one clock
    for i in 0..a.num(10, 60) {
        let mut r = R::new(a.seed, i + if steps { 3 << 32 } else { 4 << 32 });
        let growing = steps || r.p(1, 2);
        one(format!("long-{}", i), &mut r, growing, steps, 14, 4000);
    }
    if !steps {
        for i in 0..a.num(400, 4000) { let mut r = R::new(a.seed, i + (2 << 32)); real(format!("real-{}", i), &mut r); }
    }
}
