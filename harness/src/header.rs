//! Configuration headers: every component written to real files, read back complete, cut, changed
//! and by foreign readers; argument lists; data sets made from files and from arguments.
use crate::util::*;
use moledyn::prelude::*;

/// A value of a configuration field: canonical text, random generation, notations, words of no value.
pub trait Val: Sized + Display {
    fn canon(&self) -> String;
    fn gen(r: &mut R) -> Self;
    fn words(&self, r: &mut R) -> String { let _ = r; format!("{}", self) }
    fn bad(r: &mut R) -> Option<String>;
    fn text_ok(&self, in_args: bool) -> bool { let _ = in_args; true }
}
pub fn gen_f64(r: &mut R) -> f64 {
    match r.n(12) {
        0 => r.r(-20, 20) as f64, 1 => r.r(1, 4000) as f64 / 16.0, 2 => r.r(-100000, 100000) as f64 / 1000.0,
        3 => 0.1 + 0.2, 4 => 1e-300, 5 => 5e-324, 6 => f64::MAX, 7 => -0.0, 8 => 10f64.powi(r.r(-30, 30) as i32),
        9 => std::f64::consts::PI * 10f64.powi(r.r(-5, 5) as i32), 10 => f64::INFINITY,
        _ => loop { let f = f64::from_bits(r.u()); if f.is_finite() { break f; } },
    }
}
impl Val for f64 {
    fn canon(&self) -> String { format!("f{:016x}", self.to_bits()) }
    fn gen(r: &mut R) -> f64 { gen_f64(r) }
    fn words(&self, r: &mut R) -> String {
        match r.n(5) { 0 => format!("{:e}", self), 1 => format!("{:?}", self), 2 => format!("  {} ", self),
            3 if self.is_finite() && *self == self.round() && self.abs() < 1e9 && !(*self == 0.0 && self.is_sign_negative()) => format!("{:.3}", self), _ => format!("{}", self) }
    }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["abc", "", "1.2.3", "0x10", "1,5", "--1", "1e", "1.0 2.0", "f"]).to_string()) }
}
macro_rules! int_val { ($t:ty) => { impl Val for $t {
    fn canon(&self) -> String { format!("{}", self) }
    fn gen(r: &mut R) -> $t { match r.n(4) { 0 => r.n(4) as $t, 1 => r.n(2000) as $t, 2 => <$t>::MAX, _ => (r.u() as $t).wrapping_mul(r.u() as $t) } }
    fn words(&self, r: &mut R) -> String { match r.n(4) { 0 => format!("+{}", self), 1 => format!("00{}", self), 2 => format!(" {}\t", self), _ => format!("{}", self) } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["-1", "1.5", "", "1e3", "0x1", "999999999999999999999999999999999999999999", "two", "1 1", "1,000"]).to_string()) }
} } }
int_val!(usize); int_val!(u128);
impl Val for String {
    fn canon(&self) -> String { format!("s {}", self) }
    fn gen(r: &mut R) -> String {
        let pool = ["./data", "/tmp/a:b", "C:\\run: 3", "dir with  spaces/x", "mtype: 3", "데이터/é", "=== DATA", "a", "out:put:", "-", "0", "bad", "*", "\"quoted\"", "x\u{1F600}"];
        let s = r.pick(&pool).to_string();
        if r.p(1, 3) { format!("{}/{}", s, r.n(1000)) } else { s }
    }
    fn bad(_r: &mut R) -> Option<String> { None }
}
impl Val for SystemType {
    fn canon(&self) -> String { match self { SystemType::ContinuousRectangular => "Rectangular".into(), SystemType::ContinuousCircular => "Circular".into(),
        SystemType::ContinuousCylindrical(k) => format!("Cyl({})", k), SystemType::Lattice => "Lattice".into(), SystemType::Network => "Network".into() } }
    fn gen(r: &mut R) -> Self { match r.n(8) { 0 => SystemType::ContinuousRectangular, 1 => SystemType::ContinuousCircular, 2 => SystemType::Lattice, 3 => SystemType::Network,
        4 => SystemType::ContinuousCylindrical(r.n(1000) as usize), _ => SystemType::ContinuousCylindrical(r.n(5) as usize) } }
    fn words(&self, r: &mut R) -> String { match (self, r.n(2)) { (SystemType::ContinuousCylindrical(k), 0) if *k > 0 => k.to_string(),
        (SystemType::ContinuousRectangular, 0) => "Rectangular".into(), (SystemType::ContinuousCircular, 0) => "Circular".into(), _ => format!("{}", self) } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "Continuous", "Continuous Foo", "Continuous Cylindrical", "Continuous Cylindrical system. 0..x : Circular", "-1", "abc", "1.5", "0"]).to_string()) }
}
impl Val for BoundaryCond {
    fn canon(&self) -> String { match self { BoundaryCond::Periodic => "Periodic".into(), BoundaryCond::Reflection => "Reflection".into(), BoundaryCond::Mixed(k) => format!("Mixed({})", k) } }
    fn gen(r: &mut R) -> Self { match r.n(5) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, 2 => BoundaryCond::Mixed(r.n(1000) as usize), _ => BoundaryCond::Mixed(r.n(5) as usize) } }
    fn words(&self, r: &mut R) -> String { match (self, r.n(2)) { (BoundaryCond::Mixed(k), 0) if *k > 0 => k.to_string(),
        (BoundaryCond::Periodic, 0) => "Periodic".into(), (BoundaryCond::Reflection, 0) => "Reflective".into(), _ => format!("{}", self) } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "-1", "0", "Mixed", "Mixed Boundary Condition. 0..x", "1.0"]).to_string()) }
}
impl Val for TargetType {
    fn canon(&self) -> String { if *self == TargetType::ContinuousInBulk { "InBulk".into() } else { format!("{:?}", self) } }
    fn gen(_r: &mut R) -> Self { TargetType::ContinuousInBulk }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "Target at Boundary of Continous System.", "Target", "Target in Bulk of Lattice System."]).to_string()) }
}
impl Val for AgentType {
    fn canon(&self) -> String { match self { AgentType::ContinuousPassiveIndependent => "PassiveIndependent".into(), AgentType::ContinuousPassiveInteracting => "PassiveInteracting".into(), o => format!("{:?}", o) } }
    fn gen(_r: &mut R) -> Self { AgentType::ContinuousPassiveIndependent }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "Passive", "Active Independent Agent in Continous system.", "Passive Independent Agent in Network."]).to_string()) }
}
impl Val for MoveType {
    fn canon(&self) -> String { match self { MoveType::Brownian(d) => format!("Brownian {}", d.canon()), MoveType::Levy => "Levy".into() } }
    fn gen(r: &mut R) -> Self { if r.p(1, 6) { MoveType::Levy } else { MoveType::Brownian(gen_f64(r)) } }
    fn words(&self, r: &mut R) -> String { match (self, r.n(2)) { (MoveType::Brownian(d), 0) => format!("{}", d), (MoveType::Levy, 0) => "Levy".into(), _ => format!("{}", self) } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "Brownian", "Brownian with diffusion coefficient x", "Brownian with diffusion coefficient", "1 2", "1,5"]).to_string()) }
}
impl Val for Position<f64> {
    fn canon(&self) -> String { let l: Vec<String> = self.iter().map(|x| x.canon()).collect(); l.join(",") }
    fn gen(r: &mut R) -> Self { let d = r.r(1, 4); Position::new((0..d).map(|_| gen_f64(r)).collect()) }
    fn words(&self, r: &mut R) -> String { let l: Vec<String> = self.iter().map(|x| format!("{}", x)).collect();
        match r.n(4) { 0 => format!("({})", l.join(",")), 1 => l.join(":"), _ => l.join(",") } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "1:x", "1,,2", "1,2,", ":", "(1,a)", "1;2"]).to_string()) }
}
impl Val for InitType<f64> {
    fn canon(&self) -> String { match self { InitType::Uniform => "Uniform".into(), InitType::SpecificPosition(p) => format!("At {}", p.canon()) } }
    fn gen(r: &mut R) -> Self { if r.p(1, 3) { InitType::Uniform } else { InitType::SpecificPosition(Position::gen(r)) } }
    fn words(&self, r: &mut R) -> String { match (self, r.n(2)) { (InitType::SpecificPosition(p), 0) => p.words(r), (InitType::Uniform, 0) => "Uniform".into(), _ => format!("{}", self) } }
    fn bad(r: &mut R) -> Option<String> { Some(r.pick(&["", "abc", "1,a", "Initialize all agents at", "Initialize all agents at x", "one two", "Initialize all agents"]).to_string()) }
}

pub struct Made { pub text: String, pub canon: Vec<String>, pub words: Vec<String> }
type Lns = Lines<BufReader<File>>;
pub struct Comp {
    pub name: &'static str,
    pub gen: fn(&mut R, usize) -> Made,
    pub read: fn(&mut Lns) -> Result<Vec<String>, Error>,
    pub argv: fn(&[String]) -> Result<Vec<String>, Error>,
    /// a word that is no value, per field in file order; None: every word is a value
    pub bad: fn(usize, &mut R) -> Option<String>,
    /// another valid value of the field: text and canonical form
    pub other: fn(usize, &mut R) -> (String, String),
    pub nfix: usize, pub nfree: usize,
    pub info: fn(usize) -> String, pub brief: fn() -> String, pub nargs: usize,
}
macro_rules! comp {
    ($name:expr, $st:ty, $args:ident, [$($fx:ident : $fxt:ty),*], [$($fr:ident : $frt:ty),*]) => {{
        fn canon(a: &$args) -> Vec<String> { vec![$(a.$fx.canon(),)* $(a.$fr.canon(),)*] }
        fn gen(r: &mut R, width: usize) -> Made {
            $(let $fr: $frt = <$frt as Val>::gen(r);)*
            let words = vec![$($fr.words(r),)*];
            let a = $args::new($($fr),*);
            Made { text: a.print_configuration(width), canon: canon(&a), words }
        }
        fn read(l: &mut Lns) -> Result<Vec<String>, Error> { <$st>::read_args_from_lines(l).map(|a| canon(&a)) }
        fn argv(w: &[String]) -> Result<Vec<String>, Error> { <$st>::read_args_from_vec(w).map(|a| canon(&a)) }
        fn bad(i: usize, r: &mut R) -> Option<String> { let l: &[fn(&mut R) -> Option<String>] = &[$(<$fxt as Val>::bad,)* $(<$frt as Val>::bad,)*]; l[i](r) }
        fn other(i: usize, r: &mut R) -> (String, String) {
            fn one<T: Val>(r: &mut R) -> (String, String) { let v = T::gen(r); (format!("{}", v), v.canon()) }
            let l: &[fn(&mut R) -> (String, String)] = &[$(one::<$fxt>,)* $(one::<$frt>,)*]; l[i](r)
        }
        Comp { name: $name, gen, read, argv, bad, other, nfix: [$(stringify!($fx)),*].len(), nfree: [$(stringify!($fr)),*].len(),
            info: <$st>::info, brief: <$st>::brief_info, nargs: <$st>::NUM_ARGS }
    }};
}
pub fn comps() -> Vec<Comp> {
    let v: Vec<Comp> = vec![
        comp!("Cubic", ContCubicSystem, ContCubicSystemArguments, [sys_type: SystemType], [bctype: BoundaryCond, sys_size: f64, dim: usize]),
        comp!("Circ", ContCircSystem, ContCircSystemArguments, [sys_type: SystemType, bctype: BoundaryCond], [sys_size: f64, dim: usize]),
        comp_cyl(),
        comp!("Bulk", ContBulkTarget, ContBulkTargetArguments, [target_type: TargetType], [target_pos: Position<f64>, target_size: f64]),
        comp!("Indep", ContPassiveIndepAgent, ContPassiveIndepAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, num_agent: usize]),
        comp!("Merge", ContPassiveMergeAgent, ContPassiveMergeAgentArguments, [agent_type: AgentType, size: usize], [mtype: MoveType, itype: InitType<f64>, ptl_radius: f64, alpha: f64, num_agent: usize]),
        comp!("Exp", ContPassiveExpAgent, ContPassiveExpAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, gamma: f64, exp_dim: usize, strength: f64, num_agent: usize]),
        comp!("LJ", ContPassiveLJAgent, ContPassiveLJAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, ptl_size: f64, strength: f64, num_agent: usize]),
        comp_const(), comp_exp(), comp_var(), comp_par(), comp_proc(),
    ];
    v
}
macro_rules! comp0 { ($f:ident, $name:expr, $st:ty, $args:ident, [$($fr:ident : $frt:ty),*]) => {
    fn $f() -> Comp {
        fn canon(a: &$args) -> Vec<String> { vec![$(a.$fr.canon(),)*] }
        fn gen(r: &mut R, width: usize) -> Made {
            $(let $fr: $frt = <$frt as Val>::gen(r);)*
            let words = vec![$($fr.words(r),)*];
            let a = $args::new($($fr),*);
            Made { text: a.print_configuration(width), canon: canon(&a), words }
        }
        fn read(l: &mut Lns) -> Result<Vec<String>, Error> { <$st>::read_args_from_lines(l).map(|a| canon(&a)) }
        fn argv(w: &[String]) -> Result<Vec<String>, Error> { <$st>::read_args_from_vec(w).map(|a| canon(&a)) }
        fn bad(i: usize, r: &mut R) -> Option<String> { let l: &[fn(&mut R) -> Option<String>] = &[$(<$frt as Val>::bad,)*]; l[i](r) }
        fn other(i: usize, r: &mut R) -> (String, String) {
            fn one<T: Val>(r: &mut R) -> (String, String) { let v = T::gen(r); (format!("{}", v), v.canon()) }
            let l: &[fn(&mut R) -> (String, String)] = &[$(one::<$frt>,)*]; l[i](r)
        }
        Comp { name: $name, gen, read, argv, bad, other, nfix: 0, nfree: [$(stringify!($fr)),*].len(),
            info: <$st>::info, brief: <$st>::brief_info, nargs: <$st>::NUM_ARGS }
    }
} }
comp0!(comp_cyl, "Cyl", ContCylindricalSystem, ContCylindricalSystemArguments, [sys_type: SystemType, bctype: BoundaryCond, sys_radius: f64, sys_length: f64, dim: usize]);
comp0!(comp_const, "Const", ConstStep, ConstStepArguments, [dt: f64, tmax: f64]);
comp0!(comp_exp, "ExpStep", ExponentialStep, ExponentialStepArguments, [dt_min: f64, dt_max: f64, length: usize, tmax: f64]);
comp0!(comp_var, "Var", VariableSimulation, VariableSimulationArguments, [num_ensemble: usize, idx_set: usize, seed: u128, output_dir: String]);
comp0!(comp_par, "ParVar", ParVariableSimulation, ParVariableSimulationArguments, [num_ensemble: usize, seed: u128, n_thrd: usize, output_dir: String]);
comp0!(comp_proc, "Process", ProcessSimulation, ProcessSimulationArguments, [num_ensemble: usize, period: f64, idx_set: usize, seed: u128, output_dir: String]);

fn open_lines(p: &str) -> Lns { BufReader::new(File::open(p).unwrap()).lines() }

/// One file of the given components and everything done with it.
struct Case<'a> { cs: &'a [Comp], which: Vec<usize>, lines: Vec<String>, path: String }
impl<'a> Case<'a> {
    fn begin(id: String, cs: &'a [Comp], which: &[usize], r: &mut R, path: &str) -> Case<'a> {
        let width = *r.pick(&[0usize, 1, 5, 12, 15, 20, 40]);
        let (mut text, mut vals) = (String::new(), vec![]);
        begin_case(id, J::new().i("width", width as i64));
        for &i in which {
            match guard(|| (cs[i].gen)(r, width)) {
                Ok(m) => { text.push_str(&m.text); vals.extend(m.canon); }
                Err(m) => ev(J::op("panic").s("of", "print").s("msg", &m)),
            }
        }
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let labels: Vec<String> = lines.iter().map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect();
        ev(J::op("write").vs("comps", &names(cs, which)).vs("vals", &vals).vs("labels", &labels).b("nl", text.ends_with('\n') || text.is_empty()));
        Case { cs, which: which.to_vec(), lines, path: path.to_string() }
    }
    fn store(&self, keep: usize, crlf: bool) {
        let mut s = String::from("==== DESCRIPTIONS ====\n");
        for l in &self.lines[..keep] { s.push_str(l); s.push_str(if crlf { "\r\n" } else { "\n" }); }
        fs::write(&self.path, s).unwrap();
    }
    fn read(&self, reader: &[usize], keep: usize) {
        let mut l = open_lines(&self.path);
        l.next();
        let got = guard(|| {
            let mut out = vec![];
            for &i in reader { match (self.cs[i].read)(&mut l) { Ok(v) => out.extend(v), Err(_) => return Err(()) } }
            Ok(out)
        });
        let j = J::op("read").vs("comps", &names(self.cs, reader)).i("keep", keep as i64);
        ev(match got { Ok(Ok(v)) => j.s("res", "ok").vs("vals", &v), Ok(Err(())) => j.s("res", "err").vs("vals", &[]), Err(m) => j.s("res", "panic").vs("vals", &[m]) });
    }
    fn field(&self, line: usize) -> (usize, usize) {
        let mut k = line;
        for &i in &self.which { let n = self.cs[i].nfix + self.cs[i].nfree; if k < n { return (i, k); } k -= n; }
        unreachable!()
    }
}
fn names(cs: &[Comp], w: &[usize]) -> Vec<String> { w.iter().map(|&i| cs[i].name.to_string()).collect() }

pub fn combos(cs: &[Comp]) -> Vec<Vec<usize>> {
    let ix = |n: &str| cs.iter().position(|c| c.name == n).unwrap();
    let mut out = vec![];
    for s in ["Cubic", "Circ", "Cyl"] { for a in ["Indep", "Merge", "Exp", "LJ"] { for t in ["Const", "ExpStep"] { for m in ["Var", "ParVar", "Process"] {
        out.push(vec![ix(s), ix("Bulk"), ix(a), ix(t), ix(m)]);
    } } } }
    out
}

pub fn run_header(a: &Args) {
    let cs = comps();
    let dir = a.dir.clone().expect("--dir");
    let path = format!("{}/h.dat", dir);
    let all = combos(&cs);
    let rounds = a.num(1, 6);
    for round in 0..rounds { for (ci, which) in all.iter().enumerate() {
        let mut r = R::new(a.seed, 100_000 * round + ci as u64);
        let c = Case::begin(format!("combo{}-{}", ci, round), &cs, which, &mut r, &path);
        let n = c.lines.len();
        c.store(n, false);
        c.read(which, n);
        for other in &all { c.read(other, n); }
        for k in 0..=n { c.store(k, false); c.read(which, k); for p in 0..which.len() { c.read(&which[..p], k); } }
        c.store(n, true);
        c.read(which, n);
        end_case();
    } }
    // arbitrary sequences of components
    for i in 0..a.num(600, 6000) {
        let mut r = R::new(a.seed, 5_000_000 + i);
        let len = r.r(1, 5);
        let which: Vec<usize> = (0..len).map(|_| r.n(cs.len() as u64) as usize).collect();
        let mut c = Case::begin(format!("seq{}", i), &cs, &which, &mut r, &path);
        let n = c.lines.len();
        c.store(n, false);
        c.read(&which, n);
        let mut perm = which.clone();
        for j in (1..perm.len()).rev() { let k = r.n(j as u64 + 1) as usize; perm.swap(j, k); }
        c.read(&perm, n);
        let foreign: Vec<usize> = (0..len).map(|_| r.n(cs.len() as u64) as usize).collect();
        c.read(&foreign, n);
        // change single lines
        let orig = c.lines.clone();
        for _ in 0..8 {
            let at = r.n(n as u64) as usize;
            let (comp, f) = c.field(at);
            let label = orig[at].split(':').next().unwrap().to_string();
            let valtext = orig[at].splitn(2, ':').nth(1).unwrap().to_string();
            match r.n(6) {
                0 | 1 => if let Some(b) = (cs[comp].bad)(f, &mut r) {
                    c.lines[at] = format!("{}:{}{}", label, " ".repeat(r.n(3) as usize), b);
                    ev(J::op("set").i("at", at as i64 + 1).s("label", label.trim()).s("val", "bad"));
                },
                2 => { let (t, v) = (cs[comp].other)(f, &mut r);
                    c.lines[at] = format!("{}: {}", label, t);
                    ev(J::op("set").i("at", at as i64 + 1).s("label", label.trim()).s("val", &v)); }
                3 => { let nl = *r.pick(&["x", "", "dim2", "sys", "# comment", "SYS_SIZE"]);
                    c.lines[at] = format!("{}:{}", nl, valtext);
                    ev(J::op("set").i("at", at as i64 + 1).s("label", nl).s("val", "?")); }
                4 => { c.lines[at] = if r.p(1, 2) { String::new() } else { format!("{} no colon here", label.trim()) };
                    ev(J::op("set").i("at", at as i64 + 1).s("label", "-").s("val", "?")); }
                _ => { let k = r.n(n as u64) as usize; c.lines.swap(at, k); ev(J::op("swap").i("a", at as i64 + 1).i("b", k as i64 + 1)); }
            }
            c.store(n, false);
            c.read(&which, n);
            if r.p(3, 4) { c.lines = orig.clone(); ev(J::op("restore")); }
        }
        end_case();
    }
    // bytes that are no text, empty and binary files
    for (k, bytes) in [&b""[..], b"\n", b"\xff\xfe\x00\n\x80:\x81\n", b"a: b\n\xc3\x28: 1\n", b"sys_type\nbctype\nsys_size\ndim\n", b":::\n:\n"].iter().enumerate() {
        begin_case(format!("junk{}", k), J::new().i("width", 0));
        fs::write(&path, bytes).unwrap();
        for i in 0..cs.len() {
            let mut l = open_lines(&path);
            let res = match guard(|| (cs[i].read)(&mut l).is_ok()) { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" };
            ev(J::op("junk").s("comp", cs[i].name).s("res", res));
        }
        end_case();
    }
    let _ = fs::remove_file(&path);
}

pub fn run_argv(a: &Args) {
    let cs = comps();
    for (ci, c) in cs.iter().enumerate() {
        for i in 0..a.num(60, 600) {
            let mut r = R::new(a.seed, 1000 * ci as u64 + i);
            let m = (c.gen)(&mut r, 0);
            begin_case(format!("{}{}", c.name, i), J::new().i("width", 0));
            let free: Vec<String> = m.canon[c.nfix..].to_vec();
            let run = |words: &[String], canon: &[String]| {
                let j = J::op("argv").s("comp", c.name).vs("words", canon);
                ev(match guard(|| (c.argv)(words)) {
                    Ok(Ok(v)) => j.s("res", "ok").vs("vals", &v), Ok(Err(_)) => j.s("res", "err").vs("vals", &[]), Err(m) => j.s("res", "panic").vs("vals", &[m]) });
            };
            run(&m.words, &free);
            // every shorter list, and longer ones
            for k in 0..c.nfree { run(&m.words[..k], &free[..k]); }
            let (mut w, mut f) = (m.words.clone(), free.clone());
            w.push(m.words[0].clone()); f.push(free[0].clone()); run(&w, &f);
            // one word that is no value
            for k in 0..c.nfree { if let Some(b) = (c.bad)(c.nfix + k, &mut r) {
                let (mut w, mut f) = (m.words.clone(), free.clone());
                w[k] = b; f[k] = "bad".into(); run(&w, &f);
            } }
            // a whole word list of another draw
            let (mut w, mut f) = (m.words.clone(), free.clone());
            let k = r.n(c.nfree as u64) as usize;
            let (t, v) = (c.other)(c.nfix + k, &mut r);
            w[k] = t; f[k] = v; run(&w, &f);
            end_case();
        }
    }
}

/// names in the two forms of help
pub fn named_in_brief(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('(') {
        rest = &rest[i + 1..];
        if let Some(j) = rest.find(')') {
            if !rest[..j].is_empty() && rest[..j].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { out.push(rest[..j].to_string()); }
            rest = &rest[j + 1..];
        }
    }
    out
}
/// lines "name   : description": name, place of the colon, is there a description
pub fn named_in_info(s: &str) -> Vec<(String, i64, bool)> {
    s.lines().filter_map(|l| {
        let i = l.find(':')?;
        let n = l[..i].trim_end();
        if n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { return None }
        Some((n.to_string(), i as i64, !l[i + 1..].trim().is_empty()))
    }).collect()
}
fn help_ev(comp: &str, width: usize, info: String, brief: String, nargs: usize) {
    let l = named_in_info(&info);
    ev(J::op("help").s("comp", comp).i("width", width as i64).i("nargs", nargs as i64).vs("brief", &named_in_brief(&brief))
        .vs("info", &l.iter().map(|x| x.0.clone()).collect::<Vec<_>>()).v("col", &l.iter().map(|x| x.1).collect::<Vec<_>>())
        .v("len", &l.iter().map(|x| x.0.chars().count() as i64).collect::<Vec<_>>()).b("described", l.iter().all(|x| x.2)).b("only", l.len() == info.lines().count()));
}
pub fn run_help(a: &Args) {
    let cs = comps();
    for c in &cs { for i in 0..a.num(25, 250) {
        let mut r = R::new(a.seed, i + (101 << 40) + c.name.len() as u64 * 7919 + c.nfree as u64);
        begin_case(format!("help-{}-{}", c.name, i), J::new().s("comp", c.name));
        let width = if i == 0 { 0 } else { r.r(0, 40) as usize };
        if let Some((x, y)) = guard_ev("info", || ((c.info)(width), (c.brief)())) { help_ev(c.name, width, x, y, c.nargs); }
        // one word changed after the other
        let m = (c.gen)(&mut r, 0);
        let base = match guard_ev("argv", || (c.argv)(&m.words)) { Some(Ok(v)) => v, Some(Err(_)) => { ev(J::op("probe").b("ok", false)); end_case(); continue }, None => { end_case(); continue } };
        for k in 0..m.words.len() { for _ in 0..8 {
            let (t, v) = (c.other)(c.nfix + k, &mut r);
            if v == m.canon[c.nfix + k] { continue }
            let mut w = m.words.clone(); w[k] = t;
            match guard_ev("argv", || (c.argv)(&w)) {
                Some(Ok(got)) => ev(J::op("probe").b("ok", true).i("at", k as i64 + 1).s("val", &v).vs("before", &base).vs("after", &got)),
                Some(Err(_)) => ev(J::op("probe").b("ok", false)), None => {} }
            break;
        } }
        end_case();
    } }
    for w in 0..40usize {
        begin_case(format!("help-analysis-{}", w), J::new().s("comp", ""));
        if let Some((x, y)) = guard_ev("info", || (<TimeAnalysis as Analysis>::info(w), <TimeAnalysis as Analysis>::brief_info())) { help_ev("time", w, x, y, <TimeAnalysis as Analysis>::NUM_ARGS); }
        if let Some((x, y)) = guard_ev("info", || (<TimeVecAnalysis as Analysis>::info(w), <TimeVecAnalysis as Analysis>::brief_info())) { help_ev("vec", w, x, y, <TimeVecAnalysis as Analysis>::NUM_ARGS); }
        if let Some((x, y)) = guard_ev("info", || (<ProcessAnalysis as Analysis>::info(w), <ProcessAnalysis as Analysis>::brief_info())) { help_ev("proc", w, x, y, <ProcessAnalysis as Analysis>::NUM_ARGS); }
        end_case();
    }
}

// ---- data sets ------------------------------------------------------------------------------
pub trait Ds: DataSet + Hash + Eq { fn sel() -> Vec<String> where Self: Sized; fn vals(&self) -> Vec<String>; fn made(parts: &[Vec<String>]) -> Result<Self, Error> where Self: Sized; fn nsim() -> usize where Self: Sized; fn print(parts: &[Vec<String>], width: usize) -> Result<String, Error> where Self: Sized; }
macro_rules! ds {
    ($name:ident, $sys:ty, $sysa:ident [$($sf:ident: $st:ty),*], $ag:ty, $aga:ident [$($af:ident: $at:ty),*], $ti:ty, $tia:ident [$($tf:ident: $tt:ty),*], $sim:ty, $sima:ident [$($mf:ident: $mt:ty),*]) => {
        construct_dataset!($name, $sys, a1, $sysa, [$($sf, $st),*]; ContBulkTarget, a2, ContBulkTargetArguments, [target_size, f64];
            $ag, a3, $aga, [$($af, $at),*]; $ti, a4, $tia, [$($tf, $tt),*]; {$sim, a5, $sima, [$($mf, $mt),*]});
        impl Ds for $name {
            fn sel() -> Vec<String> { [$(stringify!($sf),)* "target_size", $(stringify!($af),)* $(stringify!($tf),)* $(stringify!($mf),)*].iter().map(|s| s.to_string()).collect() }
            fn vals(&self) -> Vec<String> { vec![$(self.$sf.canon(),)* self.target_size.canon(), $(self.$af.canon(),)* $(self.$tf.canon(),)* $(self.$mf.canon(),)*] }
            fn nsim() -> usize { [$(stringify!($mf)),*].len() }
            fn print(p: &[Vec<String>], w: usize) -> Result<String, Error> {
                Ok([<$sys>::read_args_from_vec(&p[0])?.print_configuration(w), ContBulkTarget::read_args_from_vec(&p[1])?.print_configuration(w), <$ag>::read_args_from_vec(&p[2])?.print_configuration(w),
                    <$ti>::read_args_from_vec(&p[3])?.print_configuration(w), <$sim>::read_args_from_vec(&p[4])?.print_configuration(w)].concat())
            }
            fn made(p: &[Vec<String>]) -> Result<Self, Error> {
                Ok(Self::new(&<$sys>::read_args_from_vec(&p[0])?, &ContBulkTarget::read_args_from_vec(&p[1])?, &<$ag>::read_args_from_vec(&p[2])?, &<$ti>::read_args_from_vec(&p[3])?, &<$sim>::read_args_from_vec(&p[4])?))
            }
        }
    };
}
#[allow(dead_code)] pub mod d1 { use super::*; ds!(D1, ContCubicSystem, ContCubicSystemArguments [sys_size: f64, dim: usize], ContPassiveIndepAgent, ContPassiveIndepAgentArguments [num_agent: usize], ConstStep, ConstStepArguments [dt: f64, tmax: f64], VariableSimulation, VariableSimulationArguments [num_ensemble: usize, idx_set: usize, seed: u128]); }
#[allow(dead_code)] pub mod d2 { use super::*; ds!(D2, ContCircSystem, ContCircSystemArguments [sys_size: f64, dim: usize], ContPassiveMergeAgent, ContPassiveMergeAgentArguments [ptl_radius: f64, alpha: f64, num_agent: usize], ExponentialStep, ExponentialStepArguments [dt_min: f64, dt_max: f64, length: usize, tmax: f64], ProcessSimulation, ProcessSimulationArguments [num_ensemble: usize, period: f64, idx_set: usize, seed: u128]); }
#[allow(dead_code)] pub mod d3 { use super::*; ds!(D3, ContCylindricalSystem, ContCylindricalSystemArguments [sys_radius: f64, sys_length: f64, dim: usize], ContPassiveExpAgent, ContPassiveExpAgentArguments [gamma: f64, exp_dim: usize, strength: f64, num_agent: usize], ConstStep, ConstStepArguments [dt: f64, tmax: f64], ParVariableSimulation, ParVariableSimulationArguments [num_ensemble: usize, seed: u128, n_thrd: usize]); }
#[allow(dead_code)] pub mod d4 { use super::*; ds!(D4, ContCircSystem, ContCircSystemArguments [sys_size: f64, dim: usize], ContPassiveLJAgent, ContPassiveLJAgentArguments [ptl_size: f64, strength: f64, num_agent: usize], ExponentialStep, ExponentialStepArguments [dt_min: f64, dt_max: f64, length: usize, tmax: f64], VariableSimulation, VariableSimulationArguments [num_ensemble: usize, idx_set: usize, seed: u128]); }

fn ds_cases<D: Ds>(a: &Args, cs: &[Comp], which: [&str; 5], stream: u64, path: &str) {
    let w: Vec<usize> = which.iter().map(|n| cs.iter().position(|c| c.name == *n).unwrap()).collect();
    for i in 0..a.num(40, 300) {
        let mut r = R::new(a.seed, stream * 10_000 + i);
        begin_case(format!("{}{}", which[2], i), J::new().vs("sel", &D::sel()));
        let width = *r.pick(&[0usize, 9, 15]);
        let made: Vec<Made> = w.iter().map(|&i| (cs[i].gen)(&mut r, width)).collect();
        let mut text = String::new(); let mut vals = vec![];
        for m in &made { text.push_str(&m.text); vals.extend(m.canon.clone()); }
        let labels: Vec<String> = text.lines().map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect();
        ev(J::op("write").vs("comps", &names(cs, &w)).vs("vals", &vals).vs("labels", &labels).b("nl", text.ends_with('\n')));
        let full = format!("== DESCRIPTIONS ==\n{}", text);
        let bytes = full.as_bytes();
        let words: Vec<Vec<String>> = made.iter().map(|m| m.words.clone()).collect();
        let total = text.lines().count();
        let mut cuts: Vec<usize> = if i < 4 || a.thorough { (0..bytes.len()).collect() } else { (0..12).map(|_| r.n(bytes.len() as u64) as usize).collect() };
        for back in 0..4 { cuts.push(bytes.len() - back); }
        for cut in cuts {
            let mut s = bytes[..cut].to_vec();
            let done = s.iter().filter(|c| **c == b'\n').count();
            if cut == bytes.len() { s.extend_from_slice(b"=== DATA STARTS ===\n1.5\n"); }
            fs::write(path, &s).unwrap();
            let j = J::op("cut").i("full", done as i64 - 1).i("total", total as i64);
            ev(match guard(|| D::from_file(path)) {
                Err(m) => j.s("res", "panic").vs("vals", &[m]).b("same", false).s("next", "").b("lastcut", false),
                Ok(Err(_)) => j.s("res", "err").vs("vals", &[]).b("same", false).s("next", "").b("lastcut", false),
                Ok(Ok((d, mut rest))) => {
                    let same = guard(|| D::made(&words).map(|m| m == d).unwrap_or(false)).unwrap_or(false);
                    let next = rest.next().and_then(|x| x.ok()).unwrap_or_default();
                    j.s("res", "ok").vs("vals", &d.vals()).b("same", same).s("next", if next.contains("DATA STARTS") { "marker" } else { "" }).b("lastcut", cut < bytes.len() - 1)
                }
            });
        }
        end_case();
    }
}
pub fn run_dataset(a: &Args) {
    let cs = comps();
    let path = format!("{}/d.dat", a.dir.clone().expect("--dir"));
    ds_cases::<d1::D1>(a, &cs, ["Cubic", "Bulk", "Indep", "Const", "Var"], 1, &path);
    ds_cases::<d2::D2>(a, &cs, ["Circ", "Bulk", "Merge", "ExpStep", "Process"], 2, &path);
    ds_cases::<d3::D3>(a, &cs, ["Cyl", "Bulk", "Exp", "Const", "ParVar"], 3, &path);
    ds_cases::<d4::D4>(a, &cs, ["Circ", "Bulk", "LJ", "ExpStep", "Var"], 4, &path);
    let _ = fs::remove_file(&path);
}
