//! One face for the four kinds of agents.
use moledyn::prelude::*;

thread_local! { static FLAVOUR: std::cell::Cell<(f64, f64)> = std::cell::Cell::new((1.0, 1.0)); }
/// factors of strength and range of the agents made from now on
pub fn flavour(strength: f64, range: f64) { FLAVOUR.with(|f| f.set((strength, range))); }
fn st() -> f64 { FLAVOUR.with(|f| f.get().0) }
fn ra() -> f64 { FLAVOUR.with(|f| f.get().1) }

pub trait Ag: Clone + AgentCore<f64> + Passive<f64, f64> {
    const KIND: &'static str;
    fn mk(pos: Vec<f64>, mt: MoveType) -> Self;
    fn mk_uniform(sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64, dim: usize, mt: MoveType) -> Result<Self, Error>;
    fn from_args(it: InitType<f64>, mt: MoveType, dim: usize, n: usize) -> Vec<Self>;
    fn dim(&self) -> usize;
    fn posm(&mut self) -> &mut Position<f64>;
    fn renew(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error>;
    /// every part of the configuration that placing must leave alone
    fn conf(&self) -> String;
    fn mtype(&self) -> MoveType;
    fn full(&self) -> String;
    /// after absorbing n agents (mergeable kinds only)
    fn grown(&self, _n: usize) -> Option<Self> { None }
}
macro_rules! common { ($dim:ident) => {
    fn dim(&self) -> usize { self.$dim }
    fn posm(&mut self) -> &mut Position<f64> { &mut self.pos }
    fn renew(&mut self, sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> { self.renew_uniform(sys, t, rng) }
    fn mtype(&self) -> MoveType { self.mtype }
    fn full(&self) -> String { format!("{:?}", self) }
} }
impl Ag for ContPassiveIndepAgent {
    const KIND: &'static str = "indep";
    fn mk(pos: Vec<f64>, mt: MoveType) -> Self { Self::new(mt, Position::new(pos)) }
    fn mk_uniform(sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64, _d: usize, mt: MoveType) -> Result<Self, Error> { Self::new_uniform(sys, t, rng, mt) }
    fn from_args(it: InitType<f64>, mt: MoveType, _dim: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveIndepAgentArguments { agent_type: AgentType::ContinuousPassiveIndependent, mtype: mt, itype: it, num_agent: n }) }
    fn conf(&self) -> String { format!("{:?} {:?} {:?}", self.agent_type, self.mtype, self.itype) }
    common!(dim);
}
impl Ag for ContPassiveMergeAgent {
    const KIND: &'static str = "merge";
    fn mk(pos: Vec<f64>, mt: MoveType) -> Self { Self::new(mt, Position::new(pos), 0.25 * ra(), 0.5) }
    fn mk_uniform(sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64, _d: usize, mt: MoveType) -> Result<Self, Error> { Self::new_uniform(sys, t, rng, mt, 0.25 * ra(), 0.5) }
    fn from_args(it: InitType<f64>, mt: MoveType, _dim: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveMergeAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: mt, itype: it, ptl_radius: 0.25 * ra(), alpha: 0.5, num_agent: n }) }
    fn conf(&self) -> String { format!("{:?} {:?} {:?} {:?} {}", self.agent_type, self.itype, self.ptl_radius, self.alpha, self.size) }
    fn grown(&self, n: usize) -> Option<Self> { let mut a = self.clone(); for _ in 0..n { let b = self.clone(); a.merge(&b).ok()?; } Some(a) }
    common!(dim);
}
impl Ag for ContPassiveExpAgent {
    const KIND: &'static str = "exp";
    fn mk(pos: Vec<f64>, mt: MoveType) -> Self { let d = pos.len(); Self::new(InteractType::Exponential(d, 2.0 * ra()), mt, Position::new(pos), 3.0 * st()) }
    fn mk_uniform(sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64, d: usize, mt: MoveType) -> Result<Self, Error> { Self::new_uniform(sys, t, rng, InteractType::Exponential(d, 2.0 * ra()), mt, 3.0 * st()) }
    fn from_args(it: InitType<f64>, mt: MoveType, dim: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, gamma: 2.0 * ra(), exp_dim: dim, strength: 3.0 * st(), num_agent: n }) }
    fn conf(&self) -> String { format!("{:?} {:?} {:?} {:?} {:?} {:?}", self.agent_type, self.mtype, self.itype, self.gamma, self.strength, (self.coeff_pot, self.coeff_force)) }
    common!(exp_dim);
}
impl Ag for ContPassiveLJAgent {
    const KIND: &'static str = "lj";
    fn mk(pos: Vec<f64>, mt: MoveType) -> Self { Self::new(InteractType::LennardJones(1.5 * ra()), mt, Position::new(pos), 3.0 * st()) }
    fn mk_uniform(sys: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64, _d: usize, mt: MoveType) -> Result<Self, Error> { Self::new_uniform(sys, t, rng, InteractType::LennardJones(1.5 * ra()), mt, 3.0 * st()) }
    fn from_args(it: InitType<f64>, mt: MoveType, _dim: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, ptl_size: 1.5 * ra(), strength: 3.0 * st(), num_agent: n }) }
    fn conf(&self) -> String { format!("{:?} {:?} {:?} {:?} {:?} {:?}", self.agent_type, self.mtype, self.itype, self.ptl_size, self.strength, (self.coeff_pot, self.coeff_force)) }
    common!(dim);
}
