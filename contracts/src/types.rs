//! feature: types needs adaptive
//! Representative types given to the real macros of dess-proc-macros (`HistoryVec`, `HistoryMethods`,
//! `BareClone`, `#[solver]`, `#[pyo3_api]`, `#[common_derives]`).  What is verified is the code the
//! macros generate for them from the current sources: mixed field kinds, un-annotated components
//! between annotated ones, components with histories nested two deep, one-field and many-field records.
use crate::adaptive::any_config;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};

#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct PState {
    pub x: f64,
    pub dx: f64,
    pub y: f64,
    pub n: usize,
    pub on: bool,
}
/// record whose fields are named like the container's own operations and hold values that are not numbers
#[derive(HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct OState {
    pub pop: Option<f64>,
    pub len: usize,
    pub value: f64,
    pub history: Vec<f64>,
    pub state: LState,
}
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct LState {
    pub w: f64,
}
/// stateful component relying on the default methods of `HasState`
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Node {
    /// parameters with names that begin or end like those the derives look for
    pub history_scale: f64,
    pub history: PStateHistoryVec,
    pub c: f64,
    pub state_ref: LState,
    pub state: PState,
    pub tags: Vec<f64>,
    pub use_state: bool,
}
impl HasState for Node {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.c
    }
}
/// component without own parameters, only recorded
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Link {
    pub state: LState,
    pub history: LStateHistoryVec,
}
/// component with parts: records itself and them
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Group {
    pub gain: f64,
    #[save_state]
    pub l1: Link,
    pub spare: Link,
    pub state: LState,
    #[save_state]
    pub n1: Node,
    pub history: LStateHistoryVec,
}
/// container without a state of its own: records its parts
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Bundle {
    pub gain: f64,
    #[save_state]
    pub l1: Link,
    pub spare: Link,
    #[save_state]
    pub g1: Group,
}
/// system with parameters, recorded parts, stateful parts of two types and an unused component interleaved, not in
/// alphabetical order
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        self.b.step_deriv(self.p * self.a.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Mixed {
    pub p: f64,
    pub t_report: Vec<f64>,
    /// declared as both, which is recorded once all the same
    #[use_state]
    #[save_state]
    pub c: Node,
    #[use_state]
    pub a: Node,
    #[save_state]
    pub g: Group,
    pub idle: Node,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub b: ThermalMass,
    #[save_state]
    pub k: Link,
    pub state: SystemState,
    #[skip_get]
    pub solver_type: SolverTypes,
}
impl Arb for LState {
    fn arb(name: &str) -> Self {
        LState { w: f64::arb(name) }
    }
}
impl From<f64> for LState {
    fn from(w: f64) -> Self {
        LState { w }
    }
}

// arbitrary well-formed values (all per-field sequences of a history have equal length)
pub fn any_pstate() -> PState {
    PState { x: any_f64("x"), dx: any_f64("dx"), y: any_f64("y"), n: any_usize("n"), on: any_bool("on") }
}
pub fn any_phist() -> PStateHistoryVec {
    let n = any_len("phist");
    PStateHistoryVec { x: any_vec("phist.x", n), dx: any_vec("phist.dx", n), y: any_vec("phist.y", n), n: any_vec_usize("phist.n", n), on: any_vec_of("phist.on", n) }
}
pub fn any_node() -> Node {
    Node {
        history_scale: any_f64("history_scale"),
        history: any_phist(),
        c: any_f64("c"),
        state_ref: LState { w: any_f64("state_ref") },
        state: any_pstate(),
        tags: any_vec("tags", any_len("tags#n")),
        use_state: any_bool("use_state"),
    }
}
pub fn any_ostate() -> OState {
    OState { pop: any("pop"), len: any_usize("len"), value: any_f64("value"), history: any_vec("history", any_len("history#n")), state: LState { w: any_f64("w") } }
}
pub fn any_ohist() -> OStateHistoryVec {
    let mut h = OStateHistoryVec { pop: vec![], len: vec![], value: vec![], history: vec![], state: vec![] };
    let n = any_len("ohist");
    h.pop = any_vec_of("ohist.pop", n);
    h.len = any_vec_usize("ohist.len", n);
    h.value = any_vec("ohist.value", n);
    h.history = any_vec_of("ohist.history", n);
    h.state = any_vec_of("ohist.state", n);
    h
}
pub fn any_link() -> Link {
    let n = any_len("lhist");
    Link { state: LState { w: any_f64("w") }, history: LStateHistoryVec { w: any_vec("lhist.w", n) } }
}
pub fn any_group() -> Group {
    let own = any_link();
    Group { gain: any_f64("gain"), l1: any_link(), spare: any_link(), state: own.state, n1: any_node(), history: own.history }
}
pub fn any_bundle() -> Bundle {
    Bundle { gain: any_f64("gain"), l1: any_link(), spare: any_link(), g1: any_group() }
}
pub fn any_thermal_hist() -> ThermalMassStateHistoryVec {
    let n = any_len("thist");
    ThermalMassStateHistoryVec { temp: any_vec("thist.temp", n), dtemp: any_vec("thist.dtemp", n) }
}
pub fn any_thermal_state() -> ThermalMassState {
    ThermalMassState { temp: any_f64("temp"), dtemp: any_f64("dtemp") }
}
pub fn any_mass() -> ThermalMass {
    ThermalMass { c: any_pos("heat capacity"), state: any_thermal_state(), history: any_thermal_hist() }
}
pub fn any_reservoir() -> ThermalReservoir {
    ThermalReservoir { state: any_thermal_state(), history: any_thermal_hist() }
}
pub fn any_conductance() -> Conductance {
    let n = any_len("qhist");
    Conductance { h: any_f64("conductance"), state: ConductanceState { q: any_f64("q") }, history: ConductanceStateHistoryVec { q: any_vec("qhist.q", n) } }
}
pub fn any_sys_state() -> SystemState {
    SystemState { i: any_usize("i"), time: any_f64("t") }
}
pub fn any_sys_hist() -> SystemStateHistoryVec {
    let n = any_len("shist");
    SystemStateHistoryVec { i: any_vec_usize("shist.i", n), time: any_vec("shist.time", n) }
}
pub fn any_3tm_hist() -> dess_examples::three_thrml_mass_w_bc_sys::SystemState3TMHistoryVec {
    let n = any_len("thist");
    dess_examples::three_thrml_mass_w_bc_sys::SystemState3TMHistoryVec { i: any_vec_usize("thist.i", n), time: any_vec("thist.time", n) }
}
pub fn any_flow_state() -> ConductanceState {
    ConductanceState { q: any_f64("q") }
}
pub fn any_solver_state() -> SolverState {
    crate::adaptive::any_config(SolverStateHistoryVec::default()).state
}
pub fn any_solver_hist() -> SolverStateHistoryVec {
    crate::adaptive::any_history()
}
/// any of the seven solver kinds with any configuration
pub fn any_solver() -> SolverTypes {
    let k = any_u8("kind");
    solver_kind(k)
}
pub fn solver_kind(k: u8) -> SolverTypes {
    match k {
        0 => SolverTypes::EulerFixed { dt: any_pos("dt_fixed") },
        1 => SolverTypes::HeunsMethod { dt: any_pos("dt_fixed") },
        2 => SolverTypes::MidpointMethod { dt: any_pos("dt_fixed") },
        3 => SolverTypes::RalstonsMethod { dt: any_pos("dt_fixed") },
        4 => SolverTypes::RK4Fixed { dt: any_pos("dt_fixed") },
        5 => SolverTypes::RK23BogackiShampine(Box::new(any_config(any_solver_hist()))),
        _ => SolverTypes::RK45CashKarp(Box::new(any_config(any_solver_hist()))),
    }
}
pub fn any_mixed(solver_type: SolverTypes) -> Mixed {
    Mixed {
        p: any_f64("p"),
        t_report: any_vec("t_report", any_len("m")),
        a: any_node(),
        g: any_group(),
        idle: any_node(),
        history: any_sys_hist(),
        b: any_mass(),
        k: any_link(),
        c: any_node(),
        state: any_sys_state(),
        solver_type,
    }
}
pub fn any_3tm(solver_type: SolverTypes) -> dess_examples::three_thermal_mass_sys::System3TM {
    dess_examples::three_thermal_mass_sys::System3TM {
        solver_type,
        m1: any_mass(),
        m2: any_mass(),
        h12: any_conductance(),
        m3: any_mass(),
        h23: any_conductance(),
        t_report: any_vec("t_report", any_len("m")),
        state: any_sys_state(),
        history: any_sys_hist(),
    }
}
pub fn any_3tm_bc(solver_type: SolverTypes) -> dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC {
    dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC {
        solver_type,
        m1: any_reservoir(),
        m2: any_mass(),
        h12: any_conductance(),
        m3: any_mass(),
        h23: any_conductance(),
        t_report: any_vec("t_report", any_len("m")),
        state: any_sys_state(),
        history: any_sys_hist(),
    }
}
