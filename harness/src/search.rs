//! Whole search runs composed from the library's parts: C10.
use crate::agents::*;
use crate::geom::Sh;
use crate::util::*;
use moledyn::prelude::*;
use moledyn::time_mod::TimeDiffIterator;

enum Clk { C(ConstStep), E(ExponentialStep) }
enum Dif { C(TimeDiffIterator<ConstStep>), E(TimeDiffIterator<ExponentialStep>) }
impl Clk {
    fn next(&mut self) -> Option<(f64, f64)> { match self { Clk::C(x) => x.next().map(|t| (t, x.dt())), Clk::E(x) => x.next().map(|t| (t, x.dt())) } }
    fn renew(&mut self) { match self { Clk::C(x) => x.renew(), Clk::E(x) => x.renew() } }
    fn now(&self) -> f64 { match self { Clk::C(x) => x.current_time(), Clk::E(x) => x.current_time() } }
    fn diff(&self) -> Dif { match self { Clk::C(x) => Dif::C(x.into_diff()), Clk::E(x) => Dif::E(x.into_diff()) } }
}
impl Dif {
    fn next(&mut self) -> Option<(f64, f64)> { match self { Dif::C(x) => x.next(), Dif::E(x) => x.next() } }
    fn now(&self) -> f64 { match self { Dif::C(x) => x.timeiter.current_time(), Dif::E(x) => x.timeiter.current_time() } }
}
#[derive(Clone)]
struct Plan {
    s: Sh, u: f64, n: usize, kind: &'static str, all: bool, t: Vec<i64>, ts: i64, rad: i64, al: i64, d0: f64,
    growing: bool, dmin: f64, dmax: f64, len: usize, inc: f64, tmax: f64, sc: f64, first: bool, ticks: usize, args: bool,
}
fn clock(p: &Plan) -> Result<Clk, Error> {
    if p.growing {
        let mut x = ExponentialStep::new(p.dmin, p.dmax, p.len)?;
        if p.inc > 1.0 { x.set_inc(p.inc)?; }
        x.set_tmax(p.tmax)?;
        Ok(Clk::E(x))
    } else if p.args {
        Ok(Clk::C(ConstStep::convert_from(&ConstStepArguments { dt: p.dmin, tmax: p.tmax })))
    } else {
        let mut x = ConstStep::new(p.dmin)?;
        x.set_tmax(p.tmax)?;
        Ok(Clk::C(x))
    }
}
const FAR: i64 = 13500;
fn grid(p: &Plan, v: &Position<f64>) -> Vec<i64> { v.iter().map(|x| fx(*x / p.u, 1.0).max(-FAR).min(FAR)).collect() }
fn coeff(m: MoveType) -> i64 { match m { MoveType::Brownian(c) => fx(c, 1e6), _ => -1 } }
fn isqrt(n: i64) -> i64 { let mut w = (n as f64).sqrt() as i64; while w * w > n { w -= 1; } while (w + 1) * (w + 1) <= n { w += 1; } w }

/// what a program does to two colliding agents, to interacting agents, and how large an agent is
struct Ways<A> { merge: Option<fn(&mut LinkedList<A>, usize, usize) -> Result<(), Error>>, force: Option<fn(&A, f64) -> f64>, size: fn(&A) -> i64 }

fn show<A: Ag>(p: &Plan, list: &LinkedList<A>, w: &Ways<A>, j: J) -> J {
    let al: Vec<usize> = (0..list.contents.len()).filter(|i| list.links[*i].alive).collect();
    let ps: Vec<String> = al.iter().map(|i| format!("[{}]", grid(p, list.contents[*i].pos()).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
    j.v("al", &al.iter().map(|x| *x as i64).collect::<Vec<_>>()).raw("p", &format!("[{}]", ps.join(",")))
        .v("sz", &al.iter().map(|i| (w.size)(&list.contents[*i])).collect::<Vec<_>>())
        .v("dm", &al.iter().map(|i| coeff(list.contents[*i].mtype())).collect::<Vec<_>>())
}

/// one ensemble; None: the code under test panicked
fn one_run<A: Ag>(p: &Plan, r: &mut R, rng: &mut Pcg64, sys: &dyn SystemCore<f64>, target: &ContBulkTarget, list: &mut LinkedList<A>, clk: &mut Clk, w: &Ways<A>) -> Option<()> {
    let by_diff = r.p(1, 2);
    let mut df = if by_diff { Some(clk.diff()) } else { None };
    let by_vec = r.p(1, 2);
    let blind = r.p(1, 3);
    let mut moves = LinkedList::from(vec![Position::new(vec![0f64; p.s.dim]); p.n]);
    let mut dir = Position::new(vec![0f64; p.s.dim]);
    let cap = 0.4 * (0..p.s.dim).map(|i| p.s.ext(i)).fold(f64::MAX, f64::min) * p.u;
    let dlarge = p.d0.max(1.0).max((p.n as f64).powf(-(p.al as f64) / 4.0));
    let mut ticks = 0;
    loop {
        if ticks >= p.ticks { ev(J::op("over").s("why", "stop").i("t", 0)); return Some(()); }
        let x = guard_ev("next", || match df.as_mut() { Some(d) => d.next(), None => clk.next() })?;
        ev(J::op("emit").b("some", x.is_some()).i("t", fx(x.map_or(-1.0, |y| y.0), p.sc)).i("d", fx(x.map_or(-1.0, |y| y.1), p.sc)));
        let (time, dt) = match x { Some(y) => y, None => { ev(J::op("over").s("why", "time").i("t", 0)); return Some(()); } };
        let now = df.as_ref().map_or(clk.now(), |d| d.now());
        if time == 0.0 { continue; }
        ticks += 1;
        guard_ev("clear", || moves.clear())?;
        if let Some(force) = w.force {
            guard_ev("into_double_iter", || list.into_double_iter())?;
            let mut count = 0;
            loop {
                let got = guard_ev("enumerate_double", || list.enumerate_double().map(|(i, a, j, b)| {
                    let d = a.mutual_displacement_to_vec(b, &mut dir);
                    (i, j, d.map(|d| (force(a, d) * dt).min(cap).max(-cap)))
                }))?;
                let (i, j, f) = match got { None => break, Some(g) => g };
                let f = f.unwrap_or(f64::NAN);
                dir.mut_scalar_mul(f);
                moves.contents[i].mut_sub(&dir);
                moves.contents[j].mut_add(&dir);
                ev(J::op("pair").i("i", i as i64).i("j", j as i64).v("f", &grid(p, &dir)));
                count += 1; if count > 4000 { break; }
            }
            ev(J::op("pend"));
        }
        guard_ev("into_iter", || list.into_iter())?;
        let base = list.contents.as_ptr() as usize;
        let mut hit = false;
        let mut count = 0;
        loop {
            let got = guard_ev("enumerate_mut", || {
                let (i, agent) = if blind { match list.get_mut() { None => return None, Some(a) => ((a as *const A as usize - base) / std::mem::size_of::<A>(), a) } }
                                 else { match list.enumerate_mut() { None => return None, Some(x) => x } };
                let from = grid(p, agent.pos());
                let mut acc = moves.contents[i].clone();
                let a = grid(p, &acc);
                let drawn = if by_vec || w.force.is_some() { agent.random_move_to_vec(rng, dt, &mut acc).is_ok() }
                            else { match agent.random_move(rng, dt) { Ok(m) => { acc = m; true } Err(_) => false } };
                let mut capped = false;
                if w.force.is_some() {
                    let over = acc.norm() / cap;
                    if over > 1.0 { acc.mut_scalar_mul(1.0 / over); capped = true; }
                }
                let d = grid(p, &acc);
                let ok = sys.check_bc(agent.posm(), &mut acc).is_ok();
                let found = target.check_find(agent.pos());
                Some((i, from, a, d, drawn, capped, ok, found, grid(p, agent.pos())))
            })?;
            let (i, from, a, d, drawn, capped, ok, found, q) = match got { None => break, Some(g) => g };
            let k = p.s.radial();
            let sq: i64 = (0..k.min(from.len())).map(|i| (from[i] + d[i]).pow(2)).sum();
            let yes = found == Ok(true);
            let b = (8.0 * (2.0 * dlarge * dt).sqrt() / p.u) as i64 + 1;
            ev(J::op(if drawn && found.is_ok() { "move" } else { "moveerr" }).i("i", i as i64).v("p", &from).v("a", &a).v("d", &d).i("b", b.min(100000)).b("capped", capped)
                .b("ok", ok).v("q", &q).i("w", isqrt(sq)).b("hit", yes));
            if !ok { ev(J::op("over").s("why", "error").i("t", 0)); return Some(()); }
            if yes {
                if p.all { let ok = guard_ev("del", || list.del(i).is_ok())?; ev(J::op("take").i("i", i as i64).b("ok", ok)); }
                else { hit = true; break; }
            }
            count += 1; if count > 4000 { break; }
        }
        if hit { ev(J::op("over").s("why", "hit").i("t", fx(time, p.sc))); return Some(()); }
        ev(J::op("send"));
        if list.head.is_none() { ev(J::op("over").s("why", "empty").i("t", fx(time, p.sc))); return Some(()); }
        if let Some(merge) = w.merge {
            guard_ev("into_double_iter", || list.into_double_iter())?;
            let mut count = 0;
            let lim = 2.0 * p.rad as f64 * p.u;
            loop {
                let got = guard_ev("enumerate_double", || {
                    let direct = r.p(1, 2);
                    list.enumerate_double().map(|(i, a, j, b)| (i, j, if direct { a.pos().distance(b.pos()) } else { a.mutual_distance(b) }))
                })?;
                let (i, j, d) = match got { None => break, Some(g) => g };
                let near = d.map_or(false, |d| d < lim);
                let ok = if near { let (x, y) = if p.first { (i, j) } else { (j, i) }; guard_ev("merge", || merge(list, x, y).is_ok())? } else { true };
                ev(J::op("pair").i("i", i as i64).i("j", j as i64).b("m", near).b("ok", ok));
                count += 1; if count > 4000 { break; }
            }
            ev(J::op("pend"));
        }
        ev(show(p, list, w, J::op("snap").i("now", fx(now, p.sc))));
    }
}

fn program<A: Ag>(id: String, p: &Plan, r: &mut R, mk: &dyn Fn(&dyn SystemCore<f64>, &ContBulkTarget, &mut Pcg64) -> Result<A, Error>, many: &dyn Fn() -> Vec<A>, w: &Ways<A>) {
    begin_case(id, p.s.cfg().i("n", p.n as i64).s("kind", p.kind).s("style", if p.all { "all" } else { "first" }).v("t", &p.t).i("ts", p.ts).i("rad", p.rad)
        .i("al", p.al).i("d0", fx(p.d0, 1e6)).i("tmax", fx(p.tmax, p.sc)).s("absorber", if p.first { "first" } else { "second" })
        .s("clock", if p.growing { "grow" } else { "const" }));
    let body = |r: &mut R| -> Option<()> {
        let sys = guard_ev("system", || p.s.make(p.u))?;
        let target = guard_ev("target", || ContBulkTarget::new(Position::new(p.t.iter().map(|x| *x as f64 * p.u).collect()), p.ts as f64 * p.u))?;
        let mut rng: Pcg64 = rng_seed(r.u() as u128);
        let mut clk = guard_ev("clock", || clock(p))?.ok()?;
        let how = r.n(3);
        let mut list: LinkedList<A> = match how {
            0 => LinkedList::from(many()),
            1 => { let mut v = vec![]; for _ in 0..p.n { v.push(guard_ev("new_uniform", || mk(&*sys, &target, &mut rng))?.ok()?); } LinkedList::from(v) }
            _ => { let mut l = LinkedList::new(); for _ in 0..p.n { let a = guard_ev("new_uniform", || mk(&*sys, &target, &mut rng))?.ok()?; guard_ev("push", || l.push(a))?; } l }
        };
        for run in 0..4 {
            let mut ok = true;
            let renewed = run > 0 || how == 0;
            if renewed {
                let order = r.n(2);
                if order == 0 { ok &= guard_ev("connect_all", || list.connect_all().is_ok())?; }
                if order == 0 && r.p(1, 2) {
                    guard_ev("into_iter", || list.into_iter())?;
                    let mut k = 0;
                    while let Some(a) = list.get_mut() { ok &= guard_ev("renew_uniform", || a.renew(&*sys, &target, &mut rng).is_ok())?; k += 1; if k > 400 { break; } }
                } else {
                    for a in &mut list.contents { ok &= guard_ev("renew_uniform", || a.renew(&*sys, &target, &mut rng).is_ok())?; }
                }
                if order == 1 { ok &= guard_ev("connect_all", || list.connect_all().is_ok())?; }
                guard_ev("renew", || clk.renew())?;
            }
            let mut walk = vec![];
            guard_ev("into_iter", || list.into_iter())?;
            while let Some(i) = guard_ev("indicies", || list.indicies())? { walk.push(i as i64); if walk.len() > 400 { break; } }
            ev(show(p, &list, w, J::op("place").b("ok", ok).b("renewed", renewed).i("now", fx(clk.now(), p.sc)).v("walk", &walk)));
            one_run(p, r, &mut rng, &*sys, &target, &mut list, &mut clk, w)?;
        }
        Some(())
    };
    body(r);
    end_case();
}

fn plan(r: &mut R, thorough: bool) -> Plan {
    let mut s = Sh::random(r, 4, true);
    s.l = r.r(400, 4000) as f64; s.r = r.r(400, 4000) as f64;
    if r.p(1, 3) { s.dim = r.r(1, 2) as usize; if s.shape == 1 { s.d = s.dim } else { s.d = s.d.min(s.dim) } }
    let ext: Vec<i64> = (0..s.dim).map(|i| s.ext(i) as i64).collect();
    let small = *ext.iter().min().unwrap();
    let u = *r.pick(&[1.0 / 1024.0, 1.0 / 1024.0, 1.0 / 1048576.0, 8.0]);
    let kind = *r.pick(&["merge", "merge", "merge", "force", "indep"]);
    let n = match r.n(4) { 0 => r.r(1, 2), 1 => r.r(2, 5), _ => r.r(4, if thorough { 16 } else { 10 }) } as usize;
    let d0 = if kind == "merge" { *r.pick(&[1.0, 1.0, 0.25]) } else { *r.pick(&[1.0, 0.25, 2.0]) };
    let f = *r.pick(&[0.02, 0.1, 0.25, 0.5]);
    let exact = (f * small as f64 * u).powi(2) / 2.0;
    let dmin = 2f64.powi(exact.log2().round() as i32);
    let growing = r.p(1, 2);
    let dmax = dmin * *r.pick(&[1.0, 1.5, 2.0, 4.0, 8.0]);
    let len = *r.pick(&[3usize, 4, 6, 10]);
    let tm = r.r(3, 60) as f64;
    let t: Vec<i64> = ext.iter().map(|e| match r.n(4) { 0 => 0, 1 => e / 2, 2 => -e, _ => r.r(-e / 2, e / 2) }).collect();
    Plan { s, u, n, kind, all: r.p(1, 3), t, ts: (small as f64 * *r.pick(&[0.02, 0.1, 0.2, 0.4])) as i64 + 8, rad: (small as f64 * *r.pick(&[0.01, 0.05, 0.15, 0.4])) as i64 + 4,
        al: if kind == "merge" { *r.pick(&[0, 2, 4, 8, -4]) } else { 0 }, d0, growing, dmin, dmax: if growing { dmax } else { dmin }, len,
        inc: if growing { *r.pick(&[0.0, 1.5, 2.0f64]) } else { 0.0f64 }.min(len as f64 / 2.0), tmax: if r.p(1, 4) { 0.0 } else { dmin * tm }, sc: 64.0 / dmin, first: r.p(1, 2), ticks: if thorough { 60 } else { 14 }, args: r.p(1, 2) }
}

pub fn run(a: &Args) {
    for i in 0..a.num(220, 2500) {
        let mut r = R::new(a.seed, i + (9 << 40));
        let mut p = plan(&mut r, a.thorough);
        // now and then a crowd
        if i % 44 == 43 { p.n = r.r(24, 40) as usize; p.ticks = 3; if p.kind == "force" { p.n = 24; } }
        let mt = MoveType::Brownian(p.d0);
        let id = format!("search-{}", i);
        let (al, rad) = (p.al as f64 / 4.0, p.rad as f64 * p.u);
        let cap = 0.05 * p.s.l.min(p.s.r) * p.u / p.dmin;
        match p.kind {
            "merge" => {
                let w: Ways<ContPassiveMergeAgent> = Ways { merge: Some(|l, i, j| l.merge(i, j)), force: None, size: |a| a.size() as i64 };
                program(id, &p, &mut r, &|s, t, g| ContPassiveMergeAgent::new_uniform(s, t, g, mt, rad, al), &|| ContPassiveMergeAgent::convert_from(&ContPassiveMergeAgentArguments {
                    agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: mt, itype: InitType::Uniform, ptl_radius: rad, alpha: al, num_agent: p.n }), &w);
            }
            "force" if r.p(2, 3) => {
                let gamma = 0.4 * p.s.l.min(p.s.r) * p.u;
                let one = ContPassiveExpAgent::new(InteractType::Exponential(p.s.dim, gamma), mt, Position::new(vec![0.0; p.s.dim]), 1.0).force(gamma);
                let st = cap / one.abs().max(1e-300);
                let w: Ways<ContPassiveExpAgent> = Ways { merge: None, force: Some(|a, d| a.force(d)), size: |_| 1 };
                program(id, &p, &mut r, &|s, t, g| ContPassiveExpAgent::new_uniform(s, t, g, InteractType::Exponential(p.s.dim, gamma), mt, st), &|| ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments {
                    agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: InitType::Uniform, gamma, exp_dim: p.s.dim, strength: st, num_agent: p.n }), &w);
            }
            "force" => {
                let size = 0.2 * p.s.l.min(p.s.r) * p.u;
                let one = ContPassiveLJAgent::new(InteractType::LennardJones(size), mt, Position::new(vec![0.0; p.s.dim]), 1.0).force(size * 1.5);
                let st = cap / one.abs().max(1e-300);
                let w: Ways<ContPassiveLJAgent> = Ways { merge: None, force: Some(|a, d| a.force(d)), size: |_| 1 };
                program(id, &p, &mut r, &|s, t, g| ContPassiveLJAgent::new_uniform(s, t, g, InteractType::LennardJones(size), mt, st), &|| ContPassiveLJAgent::convert_from(&ContPassiveLJAgentArguments {
                    agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: InitType::Uniform, ptl_size: size, strength: st, num_agent: p.n }), &w);
            }
            _ => {
                let w: Ways<ContPassiveIndepAgent> = Ways { merge: None, force: None, size: |_| 1 };
                program(id, &p, &mut r, &|s, t, g| ContPassiveIndepAgent::new_uniform(s, t, g, mt), &|| ContPassiveIndepAgent::convert_from(&ContPassiveIndepAgentArguments {
                    agent_type: AgentType::ContinuousPassiveIndependent, mtype: mt, itype: InitType::Uniform, num_agent: p.n }), &w);
            }
        }
    }
}
