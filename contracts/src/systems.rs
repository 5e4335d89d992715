//! feature: systems needs types
//! C15 (state vectors), C21 (solver dispatch and adaptive configuration): the code generated by the real
//! `#[solver]` attribute for System3TM, System3TMWithBC and representative systems, over the real
//! `HasState` implementations and default methods.
use crate::ops::*;
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde::{Deserialize, Serialize};

/// records that `actual` is the value wanted, up to real arithmetic, and adopts it for the frame check
fn adopt(name: &str, actual: f64, want: &mut f64, expected: f64) {
    ensures(name, req(actual, expected));
    *want = actual;
}
/// postconditions of the vector methods for a system whose stateful fields are, in order, `f.state.x`
macro_rules! vectors {
    ($m:ident, $ty:ty, $any:expr, [$(($f:ident, $x:ident, $dx:ident, $store:expr)),+], $reservoir:expr) => {
        pub mod $m {
            use super::*;
            fn xs(s: &$ty) -> Vec<f64> {
                vec![$(s.$f.state.$x),+]
            }
            fn ds(s: &$ty) -> Vec<f64> {
                vec![$(s.$f.state.$dx),+]
            }
            fn stores(s: &$ty) -> Vec<f64> {
                vec![$($store(&s.$f)),+]
            }
            pub fn read() {
                let s: $ty = $any;
                let old = s.clone();
                ensures("states lists the stateful components' states in declaration order", same(&s.states(), &xs(&s)));
                ensures("derivs lists the stateful components' derivatives in declaration order", same(&s.derivs(), &ds(&s)));
                ensures("storages lists the stateful components' storages in declaration order", same(&s.storages(), &stores(&s)));
                ensures("reading changes nothing", same(&s, &old));
                reach("read");
            }
            pub fn set_states() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let n = xs(&s).len();
                let v = any_vec("v", n);
                s.set_states(v.clone());
                let mut k = 0;
                $(
                    want.$f.state.$x = v[k];
                    k += 1;
                )+
                ensures("all states set", k == n);
                ensures("set_states sets the states in order and nothing else", same(&s, &want));
                ensures("reading back gives the vector set", same(&s.states(), &v));
                reach("set_states");
            }
            pub fn step_states() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let old = s.clone();
                let n = xs(&s).len();
                let v = any_vec("v", n);
                s.step_states(v.clone());
                let mut k = 0;
                $(
                    adopt("step_states adds the k-th value to the k-th state", s.$f.state.$x, &mut want.$f.state.$x, old.$f.state.$x + v[k]);
                    k += 1;
                )+
                ensures("all states stepped", k == n);
                ensures("step_states changes nothing else", same(&s, &want));
                reach("step_states");
            }
            pub fn step_by_dt() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let old = s.clone();
                let h = any_f64("h");
                s.step_states_by_dt(&h);
                $(adopt("step_states_by_dt adds h times its own derivative to each state", s.$f.state.$x, &mut want.$f.state.$x, old.$f.state.$x + h * old.$f.state.$dx);)+
                adopt("step_states_by_dt advances time by h", s.state.time, &mut want.state.time, old.state.time + h);
                ensures("step_states_by_dt changes nothing else", same(&s, &want));
                reach("step_states_by_dt");
            }
            pub fn set_derivs() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let n = ds(&s).len();
                let v = any_vec("v", n);
                s.set_derivs(&v);
                let mut k = 0;
                $(
                    want.$f.state.$dx = v[k];
                    k += 1;
                )+
                if $reservoir {
                    // the first component is a reservoir: it has no rate of its own
                    s.set_first_rate(&mut want);
                } else {
                    ensures("reading back gives the vector set", same(&s.derivs(), &v));
                }
                ensures("all derivatives set", k == n);
                ensures("set_derivs sets the derivatives in order and nothing else", same(&s, &want));
                reach("set_derivs");
            }
            pub fn step_derivs() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let old = s.clone();
                let n = ds(&s).len();
                let v = any_vec("v", n);
                s.step_derivs(v.clone());
                let mut k = 0;
                $(
                    adopt("step_derivs adds the k-th value to the k-th derivative", s.$f.state.$dx, &mut want.$f.state.$dx, old.$f.state.$dx + v[k]);
                    k += 1;
                )+
                ensures("all derivatives stepped", k == n);
                ensures("step_derivs changes nothing else", same(&s, &want));
                reach("step_derivs");
            }
            pub fn reset_and_time() {
                let mut s: $ty = $any;
                let mut want = s.clone();
                let old = s.clone();
                s.reset_derivs();
                $(want.$f.state.$dx = 0.0;)+
                ensures("reset_derivs zeroes every derivative and changes nothing else", same(&s, &want));
                let h = any_f64("h");
                s.step_time(&h);
                adopt("step_time advances time by h", s.state.time, &mut want.state.time, old.state.time + h);
                ensures("step_time changes nothing else", same(&s, &want));
                ensures("state() is the system's index and time", SolverBase::state(&s).i == s.state.i && SolverBase::state(&s).time == s.state.time);
                reach("reset and time");
            }
        }
    };
}
trait FirstRate {
    fn set_first_rate(&self, want: &mut Self);
}
impl FirstRate for System3TMWithBC {
    fn set_first_rate(&self, want: &mut Self) {
        want.m1.state.dtemp = 0.0;
    }
}
impl FirstRate for System3TM {
    fn set_first_rate(&self, _: &mut Self) {}
}
impl FirstRate for Mixed {
    fn set_first_rate(&self, _: &mut Self) {}
}
fn mass_c(m: &dess_examples::components::ThermalMass) -> f64 {
    m.c
}
fn node_c(m: &Node) -> f64 {
    m.c
}
fn reservoir_c(_: &dess_examples::components::ThermalReservoir) -> f64 {
    f64::INFINITY
}
fn euler_cfg() -> SolverTypes {
    SolverTypes::EulerFixed { dt: any_pos("dt_fixed") }
}
vectors!(mixed, Mixed, any_mixed(euler_cfg()), [(c, x, dx, node_c), (a, x, dx, node_c), (b, temp, dtemp, mass_c)], false);
vectors!(tm, System3TM, any_3tm(euler_cfg()), [(m1, temp, dtemp, mass_c), (m2, temp, dtemp, mass_c), (m3, temp, dtemp, mass_c)], false);
vectors!(bc, System3TMWithBC, any_3tm_bc(euler_cfg()), [(m1, temp, dtemp, reservoir_c), (m2, temp, dtemp, mass_c), (m3, temp, dtemp, mass_c)], true);

/// a system with an uninterpreted right-hand side over two components
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        let d = rhs(self.p, self.state.time, &[self.a.state.x, self.b.state.x]);
        self.a.state.dx = d[0];
        self.b.state.dx = d[1];
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Plain {
    pub solver_type: SolverTypes,
    pub p: f64,
    #[use_state]
    pub a: Node,
    #[use_state]
    pub b: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
/// one call of `solve_step` that needs exactly one step: the states reached are those of the configured
/// method's published tableau with step min(configured step, time remaining)
fn one_step(solver: SolverTypes, tab: &[Stage], b: &[f64]) {
    let (t, remaining) = (any_f64("t"), any_pos("remaining"));
    let dt = any_pos("dt_fixed");
    assume(remaining <= dt);
    let solver_type = match solver {
        SolverTypes::EulerFixed { .. } => SolverTypes::EulerFixed { dt },
        SolverTypes::HeunsMethod { .. } => SolverTypes::HeunsMethod { dt },
        SolverTypes::MidpointMethod { .. } => SolverTypes::MidpointMethod { dt },
        SolverTypes::RalstonsMethod { .. } => SolverTypes::RalstonsMethod { dt },
        _ => SolverTypes::RK4Fixed { dt },
    };
    let mut s = Plain {
        solver_type,
        p: any_f64("p"),
        a: any_node(),
        b: any_node(),
        t_report: vec![t + remaining],
        state: SystemState { i: 0, time: t },
        history: any_sys_hist(),
    };
    if native() {
        assume(t + (s.t_report[0] - t) == s.t_report[0]);
    }
    let x = [s.a.state.x, s.b.state.x];
    s.solve_step();
    reach("solved");
    let ks = rk_stages(s.p, t, &x, remaining, tab);
    let want = axpy(&x, 1.0, &rk_delta(2, remaining, b, &ks));
    ensures("the configured method's own step is taken", seq_eq(&[s.a.state.x, s.b.state.x], &want));
    ensures("the report time is reached", req(s.state.time, t + remaining));
}

/// a system whose step methods are replaced by their contract: each records which method ran, with
/// which step, and advances time by the step it was given (C01) or by a shorter positive one (C05).
/// An inherent method takes precedence over the trait's in the generated `solve_step`.
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        // reached only if the generated code does not go through the step methods by name
        assume(false);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Recorder {
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
    // ghost state
    pub decide: u8,
    pub kind: u8,
    pub fixed: f64,
    pub t0: f64,
    pub entered: usize,
}
pub fn le(a: f64, b: f64) -> bool {
    a <= b || native() && req(a, b)
}
impl Recorder {
    fn ran(&mut self, kind: u8, dt: &f64) -> f64 {
        tick();
        reach("a step ran");
        let target = self.t_report[self.state.i];
        let remaining = target - self.state.time;
        if self.decide == 21 {
            ensures("the configured solver's step method runs", kind == self.kind);
            if kind < 5 {
                ensures("with its own configured step, cut at the report time", *dt == remaining || *dt == self.fixed);
            }
        }
        if self.decide == 9 {
            ensures("a step starts strictly before the report time", self.state.time < target);
            if kind < 5 {
                ensures("a fixed step is the minimum of the configured step and the time remaining", req(*dt, self.fixed.min(remaining)));
                ensures("a fixed step makes strict progress", *dt > 0.0);
            } else {
                ensures("an adaptive step is told the time remaining", req(*dt, remaining));
            }
            ensures("a step never passes the report time", le(self.state.time + *dt, target));
        }
        if self.decide == 8 {
            ensures("records so far equal the report index", self.history.i.len() == self.state.i && self.history.time.len() == self.state.i && self.a.history.x.len() == self.state.i);
            ensures("the index stays inside the schedule", self.state.i < self.t_report.len());
        }
        if kind < 5 {
            self.state.time += *dt;
            *dt
        } else {
            let used = any_pos("used");
            assume(used <= *dt);
            if native() {
                assume(used > 1e-6 * *dt);
            }
            self.state.time += used;
            used
        }
    }
    pub fn euler(&mut self, dt: &f64) {
        self.ran(0, dt);
    }
    pub fn heun(&mut self, dt: &f64) {
        self.ran(1, dt);
    }
    pub fn midpoint(&mut self, dt: &f64) {
        self.ran(2, dt);
    }
    pub fn ralston(&mut self, dt: &f64) {
        self.ran(3, dt);
    }
    pub fn rk4fixed(&mut self, dt: &f64) {
        self.ran(4, dt);
    }
    pub fn rk23_bogacki_shampine(&mut self, dt: &f64) -> f64 {
        self.ran(5, dt)
    }
    pub fn rk45_cash_karp(&mut self, dt: &f64) -> f64 {
        self.ran(6, dt)
    }
}
pub fn fixed_of(s: &SolverTypes) -> f64 {
    match s {
        SolverTypes::EulerFixed { dt } | SolverTypes::HeunsMethod { dt } | SolverTypes::MidpointMethod { dt } | SolverTypes::RalstonsMethod { dt } | SolverTypes::RK4Fixed { dt } => *dt,
        _ => 0.0,
    }
}
pub fn recorder(kind: u8, decide: u8) -> Recorder {
    let solver_type = solver_kind(kind);
    let fixed = fixed_of(&solver_type);
    let n = any_len("reports");
    let i = any_usize("i");
    assume(i < n);
    let time = any_f64("t");
    let t_report = any_vec("t_report", n);
    if native() && kind < 5 {
        assume(t_report[i] - time < 1e4 * fixed);
    }
    Recorder { solver_type, a: any_node(), t_report, state: SystemState { i, time }, history: any_sys_hist(), decide, kind, fixed, t0: time, entered: 0 }
}
fn solve(kind: u8, decide: u8) {
    let mut s = recorder(kind, decide);
    let old = s.clone();
    let target = s.t_report[s.state.i];
    let p = &s as *const Recorder;
    loop_inv("time does not pass the report time", move || le(at(p).state.time, target) || at(p).state.time == at(p).t0);
    loop_inv_over("the time remaining", move |v| req(v, target - at(p).state.time));
    loop_inv_over("the time", move |v| v == at(p).state.time);
    s.solve_step();
    reach("solved");
    if decide == 9 {
        if old.state.time < target {
            reach("had to step");
            ensures("the report time is met exactly", req(s.state.time, target));
        } else {
            ensures("time is unchanged when the report time is not ahead", s.state.time == old.state.time);
        }
        ensures("the index is unchanged while solving", s.state.i == old.state.i);
        ensures("the schedule and the records are unchanged while solving", same(&s.t_report, &old.t_report) && same(&s.history, &old.history) && same(&s.a, &old.a));
    } else {
        ensures("the solver configuration is unchanged by the dispatch", same(&s.solver_type, &old.solver_type));
        if old.state.time < target {
            ensures("time moved", s.state.time != old.state.time);
        }
    }
}
/// the system a loop invariant talks about
fn at<'a>(p: *const Recorder) -> &'a Recorder {
    unsafe { &*p }
}
/// a whole run from index zero with empty records over any schedule with a finite last entry
fn run(kind: u8) {
    let solver_type = solver_kind(kind);
    let fixed = fixed_of(&solver_type);
    let n = any_len("reports");
    assume(n > 0);
    let mut t_report = any_xvec("t_report", n - 1);
    t_report.push(any_f64("t_last"));
    let time = any_f64("t");
    if native() && kind < 5 {
        let most = t_report.iter().filter(|x| x.is_finite()).fold(0.0f64, |m, x| m.max(*x));
        assume(most - time < 1e3 * fixed);
    }
    let mut s = Recorder {
        solver_type,
        a: Node { history: Default::default(), ..any_node() },
        t_report,
        state: SystemState { i: 0, time },
        history: Default::default(),
        decide: 8,
        kind,
        fixed,
        t0: time,
        entered: 0,
    };
    let old = s.clone();
    let p = &s as *const Recorder;
    loop_inv("one record per index", move || at(p).history.i.len() == at(p).state.i && at(p).history.time.len() == at(p).state.i && at(p).a.history.x.len() == at(p).state.i);
    loop_inv("index within the schedule", move || at(p).state.i <= at(p).t_report.len());
    loop_inv("schedule left only at its end", move || at(p).state.i < at(p).t_report.len() || !(at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]));
    loop_inv("the end is not reached yet", move || at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]);
    loop_inv_over("the time", move |v| v == at(p).state.time);
    loop_inv_over("the time remaining", move |v| at(p).state.i >= at(p).t_report.len() || req(v, at(p).t_report[at(p).state.i] - at(p).state.time));
    loop_inv("a run that starts at the end does nothing", move || at(p).t0 < at(p).t_report[at(p).t_report.len() - 1] || at(p).state.i == 0 && at(p).state.time == at(p).t0);
    loop_inv("records carry the next index", move || forall(at(p).history.i.len(), |k| at(p).history.i[k] == k + 1));
    loop_inv("recorded times are not before the report times", move || forall(at(p).history.time.len(), |k| !(at(p).history.time[k] < at(p).t_report[k])));
    s.walk();
    reach("run done");
    ensures("the run stops once time has reached the last report time", !(s.state.time < s.t_report[n - 1]));
    ensures("the number of records equals the final index", s.history.i.len() == s.state.i && s.history.time.len() == s.state.i && s.a.history.x.len() == s.state.i && s.a.history.n.len() == s.state.i);
    ensures("no more records than report times", s.state.i <= n);
    ensures("every record carries the index one past its report time", forall(s.history.i.len(), |k| s.history.i[k] == k + 1));
    ensures("every record is taken at or after its report time", forall(s.history.time.len(), |k| !(s.history.time[k] < s.t_report[k])));
    ensures("the schedule is unchanged", same_schedule(&s.t_report, &old.t_report));
    ensures("the configuration and component parameters are unchanged", same(&s.solver_type, &old.solver_type) && s.a.c == old.a.c && same(&s.a.state, &old.a.state));
    if !(old.state.time < s.t_report[n - 1]) {
        ensures("nothing is recorded when the run starts at or after the end", s.state.i == 0 && s.state.time == old.state.time);
    }
}
/// equal length and entries (natively bit for bit, so that NaN entries compare equal)
fn same_schedule(a: &[f64], b: &[f64]) -> bool {
    if native() {
        return a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    }
    a.len() == b.len()
}
/// a run over a strictly increasing schedule that starts at or before its first entry: one record per
/// report time, each taken exactly at it
fn increasing_run(kind: u8) {
    let solver_type = solver_kind(kind);
    let fixed = fixed_of(&solver_type);
    let n = any_len("reports");
    assume(n > 0);
    let mut t_report = any_vec("t_report", n);
    let time = any_f64("t");
    if native() {
        for k in 0..n {
            t_report[k] = time + t_report[k].abs() * 0.5;
        }
        t_report.sort_by(|a, b| a.total_cmp(b));
        for k in 1..n {
            assume(t_report[k] > t_report[k - 1] + 1e-6);
        }
        assume(kind >= 5 || t_report[n - 1] - time < 1e3 * fixed);
        assume(t_report[n - 1] > time);
    }
    assume(time <= t_report[0]);
    assume(time < t_report[n - 1]);
    assume(forall(n - 1, |k| t_report[k] < t_report[k + 1]));
    assume(forall(n - 1, |k| t_report[k] < t_report[n - 1]));
    let mut s = Recorder {
        solver_type,
        a: Node { history: Default::default(), ..any_node() },
        t_report,
        state: SystemState { i: 0, time },
        history: Default::default(),
        decide: 8,
        kind,
        fixed,
        t0: time,
        entered: 0,
    };
    let p = &s as *const Recorder;
    loop_inv("one record per index", move || at(p).history.i.len() == at(p).state.i && at(p).history.time.len() == at(p).state.i && at(p).a.history.x.len() == at(p).state.i);
    loop_inv("index within the schedule", move || at(p).state.i <= at(p).t_report.len());
    loop_inv("schedule left only at its end", move || at(p).state.i < at(p).t_report.len() || req(at(p).state.time, at(p).t_report[at(p).t_report.len() - 1]));
    loop_inv("the end is not reached yet", move || at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]);
    loop_inv_over("the time", move |v| v == at(p).state.time);
    loop_inv_over("the time remaining", move |v| at(p).state.i >= at(p).t_report.len() || req(v, at(p).t_report[at(p).state.i] - at(p).state.time));
    loop_inv("time is the last report time passed", move || at(p).state.i == 0 && at(p).state.time == at(p).t0 || at(p).state.i > 0 && at(p).state.time == at(p).t_report[at(p).state.i - 1]);
    loop_inv("time does not pass the next report time", move || at(p).state.i >= at(p).t_report.len() || le(at(p).state.time, at(p).t_report[at(p).state.i]));
    loop_inv("recorded times are the report times", move || forall(at(p).history.time.len(), |k| req(at(p).history.time[k], at(p).t_report[k])));
    s.walk();
    reach("run done");
    ensures("one record per report time", s.state.i == n && s.history.i.len() == n && s.history.time.len() == n && s.a.history.x.len() == n);
    ensures("every record is taken exactly at its report time", forall(n, |k| req(s.history.time[k], s.t_report[k])));
    ensures("the run ends at the last report time", req(s.state.time, s.t_report[n - 1]));
}
/// the adaptive configuration accessors on a system of type `$ty`
macro_rules! config {
    ($f:ident, $any:expr) => {
        pub fn $f() {
            let mut s = $any;
            let old = s.clone();
            let kept = match &old.solver_type {
                SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some(c.as_ref().clone()),
                _ => None,
            };
            match (s.sc(), &kept) {
                (Some(a), Some(b)) => {
                    reach("adaptive");
                    ensures("the configuration read is the one embedded", same(a, b))
                }
                (None, None) => {
                    reach("fixed");
                    ensures("no configuration for a fixed-step solver", true)
                }
                _ => ensures("a configuration is available exactly for the adaptive kinds", false),
            }
            let d = any_f64("new dt_max");
            match s.sc_mut() {
                Some(c) => {
                    ensures("writable configuration only for the adaptive kinds", kept.is_some());
                    c.dt_max = d;
                    c.state.n_iter = 3;
                }
                None => ensures("writable configuration for the adaptive kinds", kept.is_none()),
            }
            let mut want = old;
            match &mut want.solver_type {
                SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => {
                    c.dt_max = d;
                    c.state.n_iter = 3;
                }
                _ => {}
            }
            ensures("writing reaches the embedded configuration and nothing else", same(&s, &want));
        }
    };
}
config!(config_mixed, any_mixed(any_solver()));
config!(config_tm, any_3tm(any_solver()));
config!(config_bc, any_3tm_bc(any_solver()));

pub mod roots {
    use super::*;

    pub fn c15_mixed() {
        mixed::read();
        mixed::set_states();
        mixed::step_states();
        mixed::step_by_dt();
        mixed::set_derivs();
        mixed::step_derivs();
        mixed::reset_and_time();
    }
    pub fn c15_system3tm() {
        tm::read();
        tm::set_states();
        tm::step_states();
        tm::step_by_dt();
        tm::set_derivs();
        tm::step_derivs();
        tm::reset_and_time();
    }
    pub fn c15_system3tm_bc() {
        bc::read();
        bc::set_states();
        bc::step_states();
        bc::step_by_dt();
        bc::set_derivs();
        bc::step_derivs();
        bc::reset_and_time();
    }
    pub fn c21_euler() {
        solve(0, 21)
    }
    pub fn c21_heun() {
        solve(1, 21)
    }
    pub fn c21_midpoint() {
        solve(2, 21)
    }
    pub fn c21_ralston() {
        solve(3, 21)
    }
    pub fn c21_rk4() {
        solve(4, 21)
    }
    pub fn c21_rk23() {
        solve(5, 21)
    }
    pub fn c21_rk45() {
        solve(6, 21)
    }
    pub fn c21_one_step_euler() {
        one_step(SolverTypes::EulerFixed { dt: 0.0 }, &[Stage(0.0, &[])], &[1.0])
    }
    pub fn c21_one_step_heun() {
        one_step(SolverTypes::HeunsMethod { dt: 0.0 }, &[Stage(0.0, &[]), Stage(1.0, &[1.0])], &[0.5, 0.5])
    }
    pub fn c21_one_step_midpoint() {
        one_step(SolverTypes::MidpointMethod { dt: 0.0 }, &[Stage(0.0, &[]), Stage(0.5, &[0.5])], &[0.0, 1.0])
    }
    pub fn c21_one_step_ralston() {
        one_step(SolverTypes::RalstonsMethod { dt: 0.0 }, &[Stage(0.0, &[]), Stage(2.0 / 3.0, &[2.0 / 3.0])], &[0.25, 0.75])
    }
    pub fn c21_one_step_rk4() {
        one_step(
            SolverTypes::RK4Fixed { dt: 0.0 },
            &[Stage(0.0, &[]), Stage(0.5, &[0.5]), Stage(0.5, &[0.0, 0.5]), Stage(1.0, &[0.0, 0.0, 1.0])],
            &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
        )
    }
    pub fn c21_config_itself() {
        let mut c = crate::adaptive::any_config(any_solver_hist());
        let mut want = c.clone();
        let d = any_f64("new dt_max");
        let r: &mut AdaptiveSolverConfig = c.as_mut();
        ensures("as_mut is the configuration itself", same(r, &want));
        r.dt_max = d;
        want.dt_max = d;
        reach("written");
        ensures("writing reaches the configuration and nothing else", same(&c, &want));
    }
    pub fn c21_config_mixed() {
        config_mixed()
    }
    pub fn c21_config_system3tm() {
        config_tm()
    }
    pub fn c21_config_system3tm_bc() {
        config_bc()
    }
    pub fn c08_euler() {
        run(0)
    }
    pub fn c08_increasing_euler() {
        increasing_run(0)
    }
    pub fn c08_heun() {
        run(1)
    }
    pub fn c08_increasing_heun() {
        increasing_run(1)
    }
    pub fn c08_midpoint() {
        run(2)
    }
    pub fn c08_increasing_midpoint() {
        increasing_run(2)
    }
    pub fn c08_ralston() {
        run(3)
    }
    pub fn c08_increasing_ralston() {
        increasing_run(3)
    }
    pub fn c08_rk4() {
        run(4)
    }
    pub fn c08_increasing_rk4() {
        increasing_run(4)
    }
    pub fn c08_rk23() {
        run(5)
    }
    pub fn c08_increasing_rk23() {
        increasing_run(5)
    }
    pub fn c08_rk45() {
        run(6)
    }
    pub fn c08_increasing_rk45() {
        increasing_run(6)
    }
    pub fn c09_euler() {
        solve(0, 9)
    }
    pub fn c09_heun() {
        solve(1, 9)
    }
    pub fn c09_midpoint() {
        solve(2, 9)
    }
    pub fn c09_ralston() {
        solve(3, 9)
    }
    pub fn c09_rk4() {
        solve(4, 9)
    }
    pub fn c09_rk23() {
        solve(5, 9)
    }
    pub fn c09_rk45() {
        solve(6, 9)
    }
}
