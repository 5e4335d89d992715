//! AbsSys: an arbitrary first-order ODE system with any number of states and an uninterpreted
//! right-hand side.  Its methods are the *contract* of the `HasStates`/`SolverBase` traits (what C15
//! proves of the code the `#[solver]` attribute generates); the solver methods verified over it are
//! the real default methods of `dess::solver::SolverVariantMethods`.
use crate::ops::*;
use crate::vrt::*;
use dess::prelude::*;

/// storages may be infinite or not numbers (natively not NaN: frames are compared with `==` there)
pub fn any_storages(n: usize) -> Vec<f64> {
    let mut st = any_xvec("st", n);
    if native() {
        for x in st.iter_mut() {
            if x.is_nan() {
                *x = f64::INFINITY;
            }
        }
    }
    st
}
#[derive(Clone)]
pub struct AbsSys {
    /// identity of the right-hand side
    pub p: f64,
    pub x: Vec<f64>,
    pub d: Vec<f64>,
    /// flow variables
    pub w: Vec<f64>,
    pub st: Vec<f64>,
    pub state: SystemState,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    /// length of the system's own history; a bare clone has none
    pub hist_len: usize,
}
impl AbsSys {
    pub fn any_with(n: usize, solver_type: SolverTypes) -> Self {
        AbsSys {
            p: any_f64("p"),
            x: any_vec("x", n),
            d: any_vec("d", n),
            w: any_vec("w", n),
            st: any_storages(n),
            state: SystemState { i: any_usize("i"), time: any_f64("t") },
            t_report: any_vec("t_report", any_len("m")),
            solver_type,
            hist_len: any_usize("hist_len"),
        }
    }
    /// a full copy, for stating postconditions over the old value
    pub fn copy(&self) -> Self {
        self.clone()
    }
    /// C10: derivatives and flows are those of the current time and states
    pub fn ensure_consistent(&self) {
        reach("consistency checked");
        ensures("derivatives are the right-hand side at the current time and states", seq_eq(&self.d, &rhs(self.p, self.state.time, &self.x)));
        ensures("flows are those of the current time and states", seq_eq(&self.w, &rhs(self.p + 1.0, self.state.time, &self.x)));
    }
    /// C11: everything but states, derivatives, flows, time and adaptive diagnostics is as before
    pub fn ensure_frame(&self, old: &AbsSys) {
        reach("frame checked");
        ensures("parameters unchanged", self.p == old.p && same(&self.st, &old.st));
        ensures("report index unchanged", self.state.i == old.state.i);
        ensures("report schedule unchanged", seq_eq(&self.t_report, &old.t_report));
        ensures("own history unchanged", self.hist_len == old.hist_len);
        ensures("solver configuration unchanged", same_conf(&self.solver_type, &old.solver_type));
        ensures("number of states unchanged", self.x.len() == old.x.len() && self.d.len() == old.d.len());
    }
}
/// same solver kind, fixed step and adaptive parameters (not diagnostics, not the solver's history)
pub fn same_conf(a: &SolverTypes, b: &SolverTypes) -> bool {
    match (a, b) {
        (SolverTypes::EulerFixed { dt: x }, SolverTypes::EulerFixed { dt: y }) => x == y,
        (SolverTypes::HeunsMethod { dt: x }, SolverTypes::HeunsMethod { dt: y }) => x == y,
        (SolverTypes::MidpointMethod { dt: x }, SolverTypes::MidpointMethod { dt: y }) => x == y,
        (SolverTypes::RalstonsMethod { dt: x }, SolverTypes::RalstonsMethod { dt: y }) => x == y,
        (SolverTypes::RK4Fixed { dt: x }, SolverTypes::RK4Fixed { dt: y }) => x == y,
        (SolverTypes::RK23BogackiShampine(x), SolverTypes::RK23BogackiShampine(y)) => same_adaptive(x, y),
        (SolverTypes::RK45CashKarp(x), SolverTypes::RK45CashKarp(y)) => same_adaptive(x, y),
        _ => false,
    }
}
pub fn same_adaptive(x: &AdaptiveSolverConfig, y: &AdaptiveSolverConfig) -> bool {
    x.dt_max == y.dt_max
        && x.max_iter == y.max_iter
        && x.atol == y.atol
        && x.rtol == y.rtol
        && x.save == y.save
        && x.save_states == y.save_states
}
impl BareClone for AbsSys {
    fn bare_clone(&self) -> Self {
        let mut new = self.clone();
        new.hist_len = 0;
        new
    }
}
impl HasStates for AbsSys {
    fn states(&self) -> Vec<f64> {
        self.x.clone()
    }
    fn set_states(&mut self, val: Vec<f64>) {
        ensures("set_states gets one value per state", val.len() == self.x.len());
        self.x = val;
    }
    fn step_states_by_dt(&mut self, dt: &f64) {
        self.x = axpy(&self.x, *dt, &self.d);
        self.step_time(dt);
    }
    fn step_states(&mut self, val: Vec<f64>) {
        ensures("step_states gets one value per state", val.len() == self.x.len());
        self.x = axpy(&self.x, 1.0, &val);
    }
    fn derivs(&self) -> Vec<f64> {
        self.d.clone()
    }
    fn set_derivs(&mut self, val: &[f64]) {
        ensures("set_derivs gets one value per state", val.len() == self.x.len());
        self.d = val.to_vec();
    }
    fn step_derivs(&mut self, val: Vec<f64>) {
        self.d = axpy(&self.d, 1.0, &val);
    }
    fn storages(&self) -> Vec<f64> {
        self.st.clone()
    }
}
impl SolverBase for AbsSys {
    fn reset_derivs(&mut self) {
        self.d = scaled(0.0, &self.d);
    }
    fn update_derivs(&mut self) {
        self.d = rhs(self.p, self.state.time, &self.x);
        self.w = rhs(self.p + 1.0, self.state.time, &self.x);
    }
    fn step_time(&mut self, dt: &f64) {
        self.state.time += dt;
    }
    fn sc(&self) -> Option<&AdaptiveSolverConfig> {
        match &self.solver_type {
            SolverTypes::RK45CashKarp(sc) => Some(sc),
            SolverTypes::RK23BogackiShampine(sc) => Some(sc),
            _ => None,
        }
    }
    fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> {
        match &mut self.solver_type {
            SolverTypes::RK45CashKarp(sc) => Some(sc),
            SolverTypes::RK23BogackiShampine(sc) => Some(sc),
            _ => None,
        }
    }
    fn state(&self) -> &SystemState {
        &self.state
    }
}
impl SolverVariantMethods for AbsSys {}
