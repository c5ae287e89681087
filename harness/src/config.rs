//! Construction of objects along every way: direct constructors, argument structures, argument words.
use crate::agents::Ag;
use crate::header::Val;
use crate::util::*;
use moledyn::prelude::*;

/// Values are handed to the specification by their rank in this table; 1e-15 is the least step that advances time.
pub const TAB: [f64; 15] = [f64::NEG_INFINITY, -1e300, -1.0, -1e-15, -5e-324, 0.0, 1e-300, 1e-16, 1e-15, 1e-3, 1.0, 2.0, 10.0, 1e300, f64::NAN];
fn w(v: f64) -> String { format!("{:e}", v) }
fn strs(v: &[String]) -> Vec<String> { v.to_vec() }

fn log<T: std::fmt::Debug>(path: &str, f: impl FnOnce() -> Result<T, Error>) -> Option<T> {
    match guard(f) {
        Ok(Ok(o)) => { ev(J::op("make").s("path", path).s("res", "ok").s("obj", &format!("{:?}", o))); Some(o) }
        Ok(Err(_)) => { ev(J::op("make").s("path", path).s("res", "err").s("obj", "")); None }
        Err(_) => { ev(J::op("make").s("path", path).s("res", "panic").s("obj", "")); None }
    }
}

pub fn run_config(a: &Args) {
    let sizes: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13, 14];
    let dims: Vec<usize> = vec![0, 1, 2, 3, 4];
    let mut id = 0;
    let mut begin = |shape: &str, j: J| { id += 1; begin_case(format!("{}{}", shape, id), j.s("kind", shape)); };
    for &s in &sizes { for &d in &dims {
        for (bn, k) in [("R", 0), ("P", 0), ("M", 0), ("M", 1), ("M", 2), ("M", 3), ("M", 4), ("M", 5), ("M", 1000)] {
            let bc = match bn { "R" => BoundaryCond::Reflection, "P" => BoundaryCond::Periodic, _ => BoundaryCond::Mixed(k) };
            begin("Cubic", J::new().i("size", s as i64).i("len", 0).i("dim", d as i64).s("bc", bn).i("k", k as i64));
            log("new", || Ok(ContCubicSystem::new(bc, TAB[s], d)));
            log("args", || Ok(ContCubicSystem::convert_from(&ContCubicSystemArguments::new(bc, TAB[s], d))));
            log("words", || Ok(ContCubicSystem::convert_from(&ContCubicSystem::read_args_from_vec(&strs(&[format!("{}", bc), w(TAB[s]), d.to_string()]))?)));
            if k > 0 { log("words", || Ok(ContCubicSystem::convert_from(&ContCubicSystem::read_args_from_vec(&strs(&[k.to_string(), w(TAB[s]), d.to_string()]))?))); }
            end_case();
        }
        begin("Circ", J::new().i("size", s as i64).i("len", 0).i("dim", d as i64).s("bc", "R").i("k", 0));
        log("new", || Ok(ContCircSystem::new(TAB[s], d)));
        log("args", || Ok(ContCircSystem::convert_from(&ContCircSystemArguments::new(TAB[s], d))));
        log("words", || Ok(ContCircSystem::convert_from(&ContCircSystem::read_args_from_vec(&strs(&[w(TAB[s]), d.to_string()]))?)));
        end_case();
        for &len in &sizes { for k in [0usize, 1, 2, 3, 4, 5, 77] {
            if !a.thorough && (k + len + s + d) % 2 == 1 && k > 5 { continue; }
            begin("Cyl", J::new().i("size", s as i64).i("len", len as i64).i("dim", d as i64).s("bc", "M").i("k", k as i64));
            let (st, bc) = (SystemType::ContinuousCylindrical(k), BoundaryCond::Mixed(k));
            log("new", || Ok(ContCylindricalSystem::new(k, TAB[s], TAB[len], d)));
            log("args", || Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystemArguments::new(st, bc, TAB[s], TAB[len], d))));
            log("words", || Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&strs(&[format!("{}", st), format!("{}", bc), w(TAB[s]), w(TAB[len]), d.to_string()]))?)));
            end_case();
        } }
    } }
    // arguments of a cylinder that contradict each other are refused
    for (st, bc) in [(SystemType::ContinuousCylindrical(1), BoundaryCond::Mixed(2)), (SystemType::ContinuousCylindrical(1), BoundaryCond::Reflection), (SystemType::ContinuousCylindrical(1), BoundaryCond::Periodic),
                     (SystemType::ContinuousCircular, BoundaryCond::Mixed(1)), (SystemType::ContinuousRectangular, BoundaryCond::Mixed(1)), (SystemType::Lattice, BoundaryCond::Mixed(1))] {
        begin("CylWrong", J::new().i("size", 10).i("len", 10).i("dim", 2).s("bc", "M").i("k", 1));
        log("args", || Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystemArguments::new(st, bc, 1.0, 1.0, 2))));
        log("words", || Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&strs(&[format!("{}", st), format!("{}", bc), w(1.0), w(1.0), "2".into()]))?)));
        end_case();
    }
    // interacting agents: their own kind of interaction, and the dimension of their place
    let ints = |d: usize| [("exp", InteractType::Exponential(d, 0.5)), ("lj", InteractType::LennardJones(0.5)), ("c2", InteractType::Coulomb2D), ("c3", InteractType::Coulomb3D)];
    let far = |d: usize| ContBulkTarget::new(Position::new(vec![50.0; d]), 0.1);
    for d in 1..5usize { for pd in 1..5usize { for (name, it) in ints(d) {
        let p = || Position::new((0..pd).map(|i| i as f64 + 0.25).collect::<Vec<f64>>());
        let mt = MoveType::Brownian(1.5);
        let j = |agent: &str| J::new().s("agent", agent).s("int", name).i("idim", d as i64).i("pdim", pd as i64);
        begin("Inter", j("exp"));
        log("new", || Ok(ContPassiveExpAgent::new(it, mt, p(), 2.0)));
        if name == "exp" {
            log("args", || Ok(ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments::new(mt, InitType::SpecificPosition(p()), 0.5, d, 2.0, 1))[0].clone()));
            let ws: Vec<String> = (0..pd).map(|i| w(i as f64 + 0.25)).collect();
            log("words", || Ok(ContPassiveExpAgent::convert_from(&ContPassiveExpAgent::read_args_from_vec(&strs(&[w(1.5), ws.join(","), w(0.5), d.to_string(), w(2.0), "1".into()]))?)[0].clone()));
        }
        end_case();
        begin("Inter", j("lj"));
        log("new", || Ok(ContPassiveLJAgent::new(it, mt, p(), 2.0)));
        end_case();
        for k in 0..2 {
            let cub = ContCubicSystem::new(BoundaryCond::Reflection, 3.0, pd);
            let cir = ContCircSystem::new(3.0, pd);
            let sys: &dyn SystemCore<f64> = if k == 0 { &cub } else { &cir };
            let mut rng = moledyn::random_mod::rng_seed(7);
            begin("Inter", j("exp"));
            log("uniform", || ContPassiveExpAgent::new_uniform(sys, &far(pd), &mut rng, it, mt, 2.0));
            end_case();
            begin("Inter", j("lj"));
            log("uniform", || ContPassiveLJAgent::new_uniform(sys, &far(pd), &mut rng, it, mt, 2.0));
            end_case();
        }
    } } }
    // time schemes: constructed, then changed
    let all: Vec<usize> = (0..TAB.len()).collect();
    for &dt in &all { for &tm in &all {
        let j = || J::new().i("dt", dt as i64).i("dtmax", dt as i64).i("length", 1).i("tmax", tm as i64);
        begin("Const", j());
        let o = log("new", || ConstStep::new(TAB[dt]));
        if let Some(mut o) = o { settmax(&mut o, tm, |o| o.tmax); for &t2 in &[2usize, 5, 10, 4, 14, 13, 3, 14] { settmax(&mut o, t2, |o| o.tmax); } }
        log("args", || Ok(ConstStep::convert_from(&ConstStepArguments::new(TAB[dt], TAB[tm])))).map(|o| clock(&o, o.dt, o.tmax, 2.0, tm));
        log("words", || Ok(ConstStep::convert_from(&ConstStep::read_args_from_vec(&strs(&[w(TAB[dt]), w(TAB[tm])]))?))).map(|o| clock(&o, o.dt, o.tmax, 2.0, tm));
        end_case();
    } }
    let incs = [f64::NAN, -1.0, 0.0, 0.5, 1.0, 1.0000001, 1.1, 1.2, 1.5, 2.0, 10.0, 1e10];
    for &dt in &all { for &dm in &all { for &len in &[0usize, 1, 2, 3, 4, 9, 10, 11, 1000, usize::MAX] {
        let tm = [5usize, 10, 2, 13, 4, 14][(dt + dm + len % 7) % 6];
        if !a.thorough && dt != 10 && dm != 10 && (dt + dm + len % 11) % 3 != 0 { continue; }
        begin("ExpStep", J::new().i("dt", dt as i64).i("dtmax", dm as i64).i("length", len.min(1_000_000) as i64).i("tmax", tm as i64));
        let o = log("new", || ExponentialStep::new(TAB[dt], TAB[dm], len));
        if let Some(mut o) = o {
            clock(&o, o.dt, o.tmax, o.inc, 5);
            settmax(&mut o, tm, |o| o.tmax);
            for (i, &inc) in incs.iter().enumerate() {
                let before = format!("{:?}", o);
                let res = match guard(|| o.set_inc(inc)) { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
                ev(J::op("inc").i("v", i as i64).b("valid", inc > 1.0).s("res", res).b("same", before == format!("{:?}", o)).b("gt1", o.inc > 1.0).b("cap", o.inc <= inc));
            }
            settmax(&mut o, 2, |o| o.tmax);
            settmax(&mut o, 14, |o| o.tmax);
        }
        let it = |o: ExponentialStep| clock(&o, o.dt, o.tmax, o.inc, tm);
        log("args", || Ok(ExponentialStep::convert_from(&ExponentialStepArguments::new(TAB[dt], TAB[dm], len, TAB[tm])))).map(it);
        log("words", || Ok(ExponentialStep::convert_from(&ExponentialStep::read_args_from_vec(&strs(&[w(TAB[dt]), w(TAB[dm]), len.to_string(), w(TAB[tm])]))?))).map(it);
        end_case();
    } } }
}
fn rank(v: f64) -> i64 { if v == f64::MAX { 99 } else { TAB.iter().position(|x| *x == v).map_or(-1, |x| x as i64) } }
fn settmax<T: TimeIterator + std::fmt::Debug>(o: &mut T, t: usize, get: impl Fn(&T) -> f64) {
    let before = format!("{:?}", o);
    let res = match guard(|| o.set_tmax(TAB[t])) { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
    ev(J::op("tmax").i("v", t as i64).s("res", res).b("same", before == format!("{:?}", o)).i("now", rank(get(o))));
}
fn clock<T: TimeIterator>(o: &T, dt: f64, tmax: f64, inc: f64, tm: usize) {
    ev(J::op("clock").i("dt", rank(dt)).i("dtf", rank(o.dt())).i("tmax", rank(tmax)).i("asked", tm as i64).b("zero", o.current_time() == 0.0).b("gt1", inc > 1.0));
}

// ---- objects carry their arguments -------------------------------------------------------------
trait Carry: Ag { fn extra(&self) -> Vec<String>; fn direct(p: Vec<f64>, mt: MoveType, x: &[f64]) -> Self; fn words(mt: &str, it: &str, x: &[f64], d: usize, n: usize) -> Result<Vec<Self>, Error> where Self: Sized; const NX: usize; }
fn sv(x: &[String]) -> Vec<String> { x.to_vec() }
impl Carry for ContPassiveIndepAgent {
    const NX: usize = 0;
    fn extra(&self) -> Vec<String> { vec![] }
    fn direct(p: Vec<f64>, mt: MoveType, _x: &[f64]) -> Self { Self::new(mt, Position::new(p)) }
    fn words(mt: &str, it: &str, _x: &[f64], _d: usize, n: usize) -> Result<Vec<Self>, Error> { Ok(Self::convert_from(&Self::read_args_from_vec(&sv(&[mt.into(), it.into(), n.to_string()]))?)) }
}
impl Carry for ContPassiveMergeAgent {
    const NX: usize = 2;
    fn extra(&self) -> Vec<String> { vec![self.ptl_radius.canon(), self.alpha.canon(), self.size.to_string()] }
    fn direct(p: Vec<f64>, mt: MoveType, x: &[f64]) -> Self { Self::new(mt, Position::new(p), x[0], x[1]) }
    fn words(mt: &str, it: &str, x: &[f64], _d: usize, n: usize) -> Result<Vec<Self>, Error> { Ok(Self::convert_from(&Self::read_args_from_vec(&sv(&[mt.into(), it.into(), w(x[0]), w(x[1]), n.to_string()]))?)) }
}
impl Carry for ContPassiveExpAgent {
    const NX: usize = 2;
    fn extra(&self) -> Vec<String> { vec![self.gamma.canon(), self.strength.canon(), match self.int_type { InteractType::Exponential(d, g) => format!("exp {} {}", d, g.canon()), _ => "?".into() }] }
    fn direct(p: Vec<f64>, mt: MoveType, x: &[f64]) -> Self { let d = p.len(); Self::new(InteractType::Exponential(d, x[0]), mt, Position::new(p), x[1]) }
    fn words(mt: &str, it: &str, x: &[f64], d: usize, n: usize) -> Result<Vec<Self>, Error> { Ok(Self::convert_from(&Self::read_args_from_vec(&sv(&[mt.into(), it.into(), w(x[0]), d.to_string(), w(x[1]), n.to_string()]))?)) }
}
impl Carry for ContPassiveLJAgent {
    const NX: usize = 2;
    fn extra(&self) -> Vec<String> { vec![self.ptl_size.canon(), self.strength.canon(), match self.int_type { InteractType::LennardJones(s) => format!("lj {}", s.canon()), _ => "?".into() }] }
    fn direct(p: Vec<f64>, mt: MoveType, x: &[f64]) -> Self { Self::new(InteractType::LennardJones(x[0]), mt, Position::new(p), x[1]) }
    fn words(mt: &str, it: &str, x: &[f64], _d: usize, n: usize) -> Result<Vec<Self>, Error> { Ok(Self::convert_from(&Self::read_args_from_vec(&sv(&[mt.into(), it.into(), w(x[0]), w(x[1]), n.to_string()]))?)) }
}
fn obj<A: Carry>(a: &mut A) -> J {
    let (mt, ex, full, dim) = (a.mtype().canon(), a.extra(), a.full(), a.dim());
    let pos = a.posm().canon();
    J::new().s("mtype", &mt).vs("extra", &ex).s("full", &full).i("dim", dim as i64).s("pos", &pos)
}
fn agents_of<A: Carry>(a: &Args, stream: u64) {
    for i in 0..a.num(120, 1500) {
        let mut r = R::new(a.seed, stream * 1_000_000 + i);
        let d = r.r(1, if i % 10 == 9 { 12 } else { 4 }) as usize;
        let n = if i % 30 == 29 { r.r(64, 140) as usize } else { *r.pick(&[0usize, 1, 2, 3, 5, 8]) };
        let mt = if r.p(1, 8) { MoveType::Levy } else { MoveType::Brownian(r.r(1, 40) as f64 / 8.0) };
        let p: Vec<f64> = (0..d).map(|_| r.r(-50, 50) as f64 / 3.0).collect();
        let uniform = r.p(1, 3);
        let it = if uniform { InitType::Uniform } else { InitType::SpecificPosition(Position::new(p.clone())) };
        let x: Vec<f64> = (0..2).map(|_| r.r(1, 30) as f64 / 7.0).collect();
        let mut xw: Vec<String> = x[..A::NX].iter().map(|v| v.canon()).collect();
        match A::KIND { "merge" => xw.push("1".into()), "exp" => xw.push(format!("exp {} {}", d, x[0].canon())), "lj" => xw.push(format!("lj {}", x[0].canon())), _ => {} }
        begin_case(format!("{}{}", A::KIND, i), J::new().s("kind", A::KIND).i("n", n as i64).b("uniform", uniform).i("d", d as i64)
            .s("pos", &if uniform { String::new() } else { Position::new(p.clone()).canon() }).s("mtype", &mt.canon()).vs("extra", &xw));
        let (mtw, itw) = (mt.words(&mut r), it.words(&mut r));
        let mut ags = match guard(|| A::words(&mtw, &itw, &x, d, n)) {
            Ok(Ok(v)) => { v }
            Ok(Err(_)) => { ev(J::op("fail")); end_case(); continue; }
            Err(m) => { ev(J::op("fail").s("msg", &m)); end_case(); continue; }
        };
        let l: Vec<J> = ags.iter_mut().map(|g| obj(g)).collect();
        ev(J::op("agents").a("objs", l));
        if !uniform { if let Some(mut g) = guard_ev("direct", || A::direct(p.clone(), mt, &x)) { ev(J::op("direct").o("obj", obj(&mut g))); } }
        // changing one agent changes no other
        let sys = ContCubicSystem::new(BoundaryCond::Reflection, 50.0, d);
        let tgt = ContBulkTarget::new(Position::new(vec![0.0; d]), 1.0);
        let mut rng = moledyn::random_mod::rng_seed(r.u() as u128);
        for _ in 0..5 {
            if n == 0 { break; }
            let k = r.n(n as u64) as usize;
            let how = r.n(3);
            let _ = guard(|| match how {
                0 => { for c in ags[k].posm().coordinate.iter_mut() { *c += 1.0; } }
                1 => { let _ = ags[k].renew(&sys, &tgt, &mut rng); }
                _ => { let dp = vec![0.5; ags[k].posm().dim()]; ags[k].posm().mut_add(&Position::new(dp)); }
            });
            let l: Vec<String> = ags.iter().map(|g| g.full()).collect();
            ev(J::op("poke").i("k", k as i64 + 1).vs("fulls", &l));
        }
        end_case();
    }
}
pub fn run_objects(a: &Args) {
    agents_of::<ContPassiveIndepAgent>(a, 1);
    agents_of::<ContPassiveMergeAgent>(a, 2);
    agents_of::<ContPassiveExpAgent>(a, 3);
    agents_of::<ContPassiveLJAgent>(a, 4);
    for i in 0..a.num(300, 3000) {
        let mut r = R::new(a.seed, 9_000_000 + i);
        begin_case(format!("rest{}", i), J::new().s("kind", "rest"));
        let q = |r: &mut R| r.r(1, 400) as f64 / 7.0;
        let d = r.r(1, if i % 10 == 9 { 12 } else { 4 }) as usize;
        // target
        let p = Position::new((0..d).map(|_| r.r(-90, 90) as f64 / 7.0).collect()); let size = q(&mut r);
        pair("target", || Ok(ContBulkTarget::convert_from(&ContBulkTarget::read_args_from_vec(&sv(&[p.words(&mut r.clone()), w(size)]))?)), || Ok(ContBulkTarget::new(p.clone(), size)),
            |t| vec![t.target_pos.canon(), t.target_size.canon()], vec![p.canon(), size.canon()]);
        // systems
        let s = q(&mut r); let l = q(&mut r); let k = r.n(d as u64 + 1) as usize;
        let bc = *r.pick(&[BoundaryCond::Reflection, BoundaryCond::Periodic, BoundaryCond::Mixed(k)]);
        pair("cubic", || Ok(ContCubicSystem::convert_from(&ContCubicSystem::read_args_from_vec(&sv(&[format!("{}", bc), w(s), d.to_string()]))?)), || Ok(ContCubicSystem::new(bc, s, d)),
            |o| vec![o.bctype.canon(), o.sys_size.canon(), o.dim.to_string()], vec![bc.canon(), s.canon(), d.to_string()]);
        pair("circ", || Ok(ContCircSystem::convert_from(&ContCircSystem::read_args_from_vec(&sv(&[w(s), d.to_string()]))?)), || Ok(ContCircSystem::new(s, d)),
            |o| vec![o.sys_size.canon(), o.dim.to_string()], vec![s.canon(), d.to_string()]);
        let (st, mx) = (SystemType::ContinuousCylindrical(k), BoundaryCond::Mixed(k));
        pair("cyl", || Ok(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&sv(&[format!("{}", st), format!("{}", mx), w(s), w(l), d.to_string()]))?)), || Ok(ContCylindricalSystem::new(k, s, l, d)),
            |o| vec![o.sys_type.canon(), o.bctype.canon(), o.sys_radius.canon(), o.sys_length.canon(), o.dim.to_string()], vec![st.canon(), mx.canon(), s.canon(), l.canon(), d.to_string()]);
        // clocks
        let dt = q(&mut r) / 100.0; let tmax = if r.p(1, 4) { 0.0 } else { q(&mut r) };
        let shown = if tmax == 0.0 { f64::MAX } else { tmax };
        pair("const", || Ok(ConstStep::convert_from(&ConstStep::read_args_from_vec(&sv(&[w(dt), w(tmax)]))?)), || { let mut c = ConstStep::new(dt)?; c.set_tmax(tmax)?; Ok(c) },
            |o| vec![o.dt.canon(), o.tmax.canon(), o.current.canon()], vec![dt.canon(), shown.canon(), 0f64.canon()]);
        let dm = dt * r.r(1, 50) as f64; let len = r.r(10, 60) as usize;
        let want = vec![dt.canon(), dm.canon(), len.to_string(), shown.canon(), 0f64.canon(), dt.canon(), "0".into()];
        let f = |o: &ExponentialStep| { let (a, b, c) = match o.titype { TimeType::Exponential(a, b, c) => (a, b, c), _ => (-1.0, -1.0, 0) };
            vec![a.canon(), b.canon(), c.to_string(), o.tmax.canon(), o.current.canon(), o.dt.canon(), o.count.to_string()] };
        one("exp", || Ok(ExponentialStep::convert_from(&ExponentialStep::read_args_from_vec(&sv(&[w(dt), w(dm), len.to_string(), w(tmax)]))?)), f, want.clone());
        one("expnew", || { let mut c = ExponentialStep::new(dt, dm, len)?; c.set_tmax(tmax)?; Ok(c) }, f, want);
        // simulations
        let (ne, ix, nt) = (r.n(1000) as usize, r.n(1000) as usize, r.n(64) as usize);
        let seed = (r.u() as u128) << 64 | r.u() as u128; let period = q(&mut r); let dir = String::gen(&mut r);
        one("var", || Ok(VariableSimulation::convert_from(&VariableSimulation::read_args_from_vec(&sv(&[ne.to_string(), ix.to_string(), seed.to_string(), dir.clone()]))?)),
            |o| vec![o.num_ensemble.to_string(), o.idx_set.to_string(), o.seed.to_string(), o.output_dir.clone()], vec![ne.to_string(), ix.to_string(), seed.to_string(), dir.clone()]);
        one("par", || Ok(ParVariableSimulation::convert_from(&ParVariableSimulation::read_args_from_vec(&sv(&[ne.to_string(), seed.to_string(), nt.to_string(), dir.clone()]))?)),
            |o| vec![o.num_ensemble.to_string(), o.seed.to_string(), o.n_thrd.to_string(), o.output_dir.clone()], vec![ne.to_string(), seed.to_string(), nt.to_string(), dir.clone()]);
        one("proc", || Ok(ProcessSimulation::convert_from(&ProcessSimulation::read_args_from_vec(&sv(&[ne.to_string(), w(period), ix.to_string(), seed.to_string(), dir.clone()]))?)),
            |o| vec![o.num_ensemble.to_string(), o.period.canon(), o.idx_set.to_string(), o.seed.to_string(), o.output_dir.clone()], vec![ne.to_string(), period.canon(), ix.to_string(), seed.to_string(), dir.clone()]);
        end_case();
    }
}
fn one<T>(what: &str, f: impl FnOnce() -> Result<T, Error>, get: impl Fn(&T) -> Vec<String>, want: Vec<String>) {
    let j = J::op("carry").s("what", what).vs("want", &want);
    ev(match guard(f) { Ok(Ok(o)) => j.vs("got", &get(&o)), Ok(Err(_)) => j.vs("got", &["err".into()]), Err(m) => j.vs("got", &["panic".into(), m]) });
}
fn pair<T: std::fmt::Debug + PartialEq>(what: &str, f: impl FnOnce() -> Result<T, Error>, g: impl FnOnce() -> Result<T, Error>, get: impl Fn(&T) -> Vec<String>, want: Vec<String>) {
    let (x, y) = (guard(f), guard(g));
    if let (Ok(Ok(x)), Ok(Ok(y))) = (&x, &y) { ev(J::op("twins").s("what", what).b("eq", x == y).s("a", &format!("{:?}", x)).s("b", &format!("{:?}", y))); }
    one(what, || match x { Ok(v) => v, Err(m) => panic!("{}", m) }, &get, want.clone());
    one(what, || match y { Ok(v) => v, Err(m) => panic!("{}", m) }, &get, want);
}
