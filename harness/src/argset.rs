//! Sets of arguments as values: made, read, changed field by field, copied, compared, cleared.
use crate::header::Val;
use crate::util::*;
use moledyn::prelude::*;

trait ArgSet: Clone + PartialEq {
    const KIND: &'static str;
    const FIELDS: usize;
    fn counts() -> (usize, usize);
    fn make(r: &mut R) -> (Self, Vec<String>);
    fn read(r: &mut R) -> (Result<Self, Error>, Vec<String>);
    fn canon(&self) -> Vec<String>;
    fn put(&mut self, i: usize, r: &mut R) -> String;
    fn reset(&mut self);
    fn text(&self, w: usize) -> String;
}
/// minus zero equals zero: not used where sets are compared
fn gen<T: Val>(r: &mut R) -> T { loop { let v = T::gen(r); if !v.canon().contains("f8000000000000000") { return v; } } }
macro_rules! argset { ($name:expr, $st:ty, $args:ident, [$($fx:ident : $fxt:ty),*], [$($fr:ident : $frt:ty),*]) => {
    impl ArgSet for $args {
        const KIND: &'static str = $name;
        const FIELDS: usize = [$(stringify!($fx),)* $(stringify!($fr)),*].len();
        fn counts() -> (usize, usize) { (<$args>::NUM_ARGS, <$st as Argument<$args>>::NUM_ARGS) }
        fn make(r: &mut R) -> (Self, Vec<String>) {
            $(let $fr: $frt = gen(r);)*
            let vals = vec![$($fr.canon()),*];
            ($args::new($($fr),*), vals)
        }
        fn read(r: &mut R) -> (Result<Self, Error>, Vec<String>) {
            $(let $fr: $frt = gen(r);)*
            let (vals, words) = (vec![$($fr.canon()),*], vec![$(format!("{}", $fr)),*]);
            (<$st>::read_args_from_vec(&words), vals)
        }
        fn canon(&self) -> Vec<String> { vec![$(self.$fx.canon(),)* $(self.$fr.canon(),)*] }
        #[allow(unused_assignments)]
        fn put(&mut self, i: usize, r: &mut R) -> String {
            let mut k = 0;
            $(if i == k { self.$fx = gen::<$fxt>(r); return self.$fx.canon(); } k += 1;)*
            $(if i == k { let v: $frt = gen(r); let s = v.canon(); self.$fr = v; return s; } k += 1;)*
            unreachable!()
        }
        fn reset(&mut self) { self.clear() }
        fn text(&self, w: usize) -> String { self.print_configuration(w) }
    }
} }
argset!("Cubic", ContCubicSystem, ContCubicSystemArguments, [sys_type: SystemType], [bctype: BoundaryCond, sys_size: f64, dim: usize]);
argset!("Circ", ContCircSystem, ContCircSystemArguments, [sys_type: SystemType, bctype: BoundaryCond], [sys_size: f64, dim: usize]);
argset!("Cyl", ContCylindricalSystem, ContCylindricalSystemArguments, [], [sys_type: SystemType, bctype: BoundaryCond, sys_radius: f64, sys_length: f64, dim: usize]);
argset!("Bulk", ContBulkTarget, ContBulkTargetArguments, [target_type: TargetType], [target_pos: Position<f64>, target_size: f64]);
argset!("Indep", ContPassiveIndepAgent, ContPassiveIndepAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, num_agent: usize]);
argset!("Merge", ContPassiveMergeAgent, ContPassiveMergeAgentArguments, [agent_type: AgentType, size: usize], [mtype: MoveType, itype: InitType<f64>, ptl_radius: f64, alpha: f64, num_agent: usize]);
argset!("Exp", ContPassiveExpAgent, ContPassiveExpAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, gamma: f64, exp_dim: usize, strength: f64, num_agent: usize]);
argset!("LJ", ContPassiveLJAgent, ContPassiveLJAgentArguments, [agent_type: AgentType], [mtype: MoveType, itype: InitType<f64>, ptl_size: f64, strength: f64, num_agent: usize]);
argset!("Const", ConstStep, ConstStepArguments, [], [dt: f64, tmax: f64]);
argset!("ExpStep", ExponentialStep, ExponentialStepArguments, [], [dt_min: f64, dt_max: f64, length: usize, tmax: f64]);
argset!("Var", VariableSimulation, VariableSimulationArguments, [], [num_ensemble: usize, idx_set: usize, seed: u128, output_dir: String]);
argset!("ParVar", ParVariableSimulation, ParVariableSimulationArguments, [], [num_ensemble: usize, seed: u128, n_thrd: usize, output_dir: String]);
argset!("Process", ProcessSimulation, ProcessSimulationArguments, [], [num_ensemble: usize, period: f64, idx_set: usize, seed: u128, output_dir: String]);

fn both<A: ArgSet>(j: J, x: &A, y: &A) { ev(j.vs("x2", &x.canon()).vs("y2", &y.canon())); }
fn history<A: ArgSet>(id: usize, r: &mut R, len: usize) {
    begin_case(format!("{}{}", A::KIND, id), J::new().s("comp", A::KIND));
    let (of, by) = A::counts();
    ev(J::op("count").i("of", of as i64).i("by", by as i64));
    let Some((mut x, vals)) = guard_ev("start", || A::make(r)) else { return end_case() };
    let mut y = x.clone();
    both(J::op("start").vs("vals", &vals), &x, &y);
    for _ in 0..len {
        let done = match r.n(12) {
            0 => guard_ev("make", || { let (n, v) = A::make(r); x = n; both(J::op("make").vs("vals", &v), &x, &y) }),
            1 => guard_ev("read", || {
                let (n, v) = A::read(r);
                let ok = n.is_ok();
                if let Ok(n) = n { x = n; }
                both(J::op("read").b("ok", ok).vs("vals", &v), &x, &y) }),
            2 | 3 => guard_ev("clear", || { x.reset(); both(J::op("clear"), &x, &y) }),
            4 => guard_ev("copy", || { y = x.clone(); both(J::op("copy"), &x, &y) }),
            5 => guard_ev("swap", || { std::mem::swap(&mut x, &mut y); both(J::op("swap"), &x, &y) }),
            6 => guard_ev("text", || {
                let t = x.text(*r.pick(&[0usize, 1, 15, 30]));
                let ls: Vec<String> = t.lines().map(|l| l.splitn(2, ':').next().unwrap().trim().to_string()).collect();
                ev(J::op("text").vs("labels", &ls)) }),
            7 | 8 => guard_ev("put", || { let i = r.n(A::FIELDS as u64) as usize; let v = x.put(i, r); both(J::op("put").i("i", i as i64 + 1).s("v", &v), &x, &y) }),
            9 => guard_ev("copy", || {       // a copy with one field changed, or changed back
                y = x.clone(); both(J::op("copy"), &x, &y);
                let i = r.n(A::FIELDS as u64) as usize; let v = x.put(i, r); both(J::op("put").i("i", i as i64 + 1).s("v", &v), &x, &y);
                compare(&x, &y) }),
            _ => guard_ev("eq", || compare(&x, &y)),
        };
        if done.is_none() { break; }
    }
    end_case();
}
#[allow(clippy::eq_op)]
fn compare<A: ArgSet>(x: &A, y: &A) { ev(J::op("eq").b("eq", x == y).b("ne", x != y).b("qe", y == x).b("own", x == x && y == y)); }

pub fn run(a: &Args) {
    let n = a.num(25, 400) as usize;
    for k in 0..n {
        let mut r = R::new(a.seed, 7919 + k as u64);
        let len = if k % 5 == 4 { 120 } else { 25 };
        macro_rules! all { ($($t:ty),*) => { $(history::<$t>(k, &mut r, len);)* } }
        all!(ContCubicSystemArguments, ContCircSystemArguments, ContCylindricalSystemArguments, ContBulkTargetArguments, ContPassiveIndepAgentArguments,
             ContPassiveMergeAgentArguments, ContPassiveExpAgentArguments, ContPassiveLJAgentArguments, ConstStepArguments, ExponentialStepArguments,
             VariableSimulationArguments, ParVariableSimulationArguments, ProcessSimulationArguments);
    }
}
