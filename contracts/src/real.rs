//! feature: real needs systems
//! C08, C09, C10, C11, C21 over the code the real `#[solver]` and `#[walk]`-style macros generate for the systems of
//! dess-examples and a representative one, with every step method replaced by its contract: a fixed step
//! advances time by what it is given (C01), an adaptive one by a positive part of it (C05), and either may
//! leave anything in the components' states and the solver's diagnostics.
use crate::adaptive::any_config;
use crate::systems::{fixed_of, le};
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;

fn kind_of(s: &SolverTypes) -> u8 {
    match s {
        SolverTypes::EulerFixed { .. } => 0,
        SolverTypes::HeunsMethod { .. } => 1,
        SolverTypes::MidpointMethod { .. } => 2,
        SolverTypes::RalstonsMethod { .. } => 3,
        SolverTypes::RK4Fixed { .. } => 4,
        SolverTypes::RK23BogackiShampine(_) => 5,
        SolverTypes::RK45CashKarp(_) => 6,
    }
}
macro_rules! real {
    ($m:ident, $ty:ty, $any:expr, [$($c:ident . $len:ident),+], $scramble:expr, $tame:expr) => {
        pub mod $m {
            use super::*;
            fn records(s: &$ty, n: usize) -> bool {
                s.history.i.len() == n && s.history.time.len() == n $(&& s.$c.history.$len.len() == n)+
            }
            fn records_equal(a: &$ty, b: &$ty) -> bool {
                same(&a.history, &b.history) $(&& same(&a.$c.history, &b.$c.history))+
            }
            fn at<'a>(p: *const $ty) -> &'a $ty {
                unsafe { &*p }
            }
            /// natively: systems and configurations whose runs end soon
            fn tame(s: &mut $ty) {
                s.t_report.iter_mut().for_each(|t| *t = t.clamp(-5.0, 5.0));
                s.state.time = s.state.time.clamp(-6.0, 6.0);
                if let Some(c) = s.sc_mut() {
                    c.dt_max = c.dt_max.abs().clamp(0.05, 0.5);
                    c.atol = c.atol.max(1e-3);
                    c.rtol = c.rtol.max(1e-2);
                    c.state.dt = c.state.dt.abs().clamp(0.05, 3.0);
                    let tame: fn(&mut $ty) = $tame;
                    tame(s);
                } else {
                    assume(fixed_of(&s.solver_type) > 0.02);
                }
            }
            fn ran(s: &mut $ty, kind: u8, dt: f64, decide: u8) -> f64 {
                reach("a step ran");
                let target = s.t_report[s.state.i];
                let remaining = target - s.state.time;
                if decide == 21 {
                    ensures("the configured solver's step method runs", kind == kind_of(&s.solver_type));
                    if kind < 5 {
                        ensures("with its own configured step, cut at the report time", dt == remaining || dt == fixed_of(&s.solver_type));
                    }
                }
                if decide == 9 {
                    ensures("a step starts strictly before the report time", s.state.time < target);
                    if kind < 5 {
                        ensures("a fixed step is the minimum of the configured step and the time remaining", req(dt, fixed_of(&s.solver_type).min(remaining)));
                        ensures("a fixed step makes strict progress", dt > 0.0);
                    } else {
                        ensures("an adaptive step is told the time remaining", req(dt, remaining));
                    }
                    ensures("a step never passes the report time", le(s.state.time + dt, target));
                }
                if decide == 8 {
                    ensures("records so far equal the report index", records(s, s.state.i));
                    ensures("the index stays inside the schedule", s.state.i < s.t_report.len());
                }
                $scramble(s);
                if let Some(c) = s.sc_mut() {
                    let other = any_config(any_solver_hist());
                    c.state = other.state;
                    c.history = other.history;
                }
                if kind < 5 {
                    s.state.time += dt;
                    dt
                } else {
                    let used = any_pos("used");
                    assume(used <= dt);
                    s.state.time += used;
                    used
                }
            }
            fn contracts(decide: u8) {
                use_contract("euler", move |s: &mut $ty, dt: &f64| {
                    ran(s, 0, *dt, decide);
                });
                use_contract("heun", move |s: &mut $ty, dt: &f64| {
                    ran(s, 1, *dt, decide);
                });
                use_contract("midpoint", move |s: &mut $ty, dt: &f64| {
                    ran(s, 2, *dt, decide);
                });
                use_contract("ralston", move |s: &mut $ty, dt: &f64| {
                    ran(s, 3, *dt, decide);
                });
                use_contract("rk4fixed", move |s: &mut $ty, dt: &f64| {
                    ran(s, 4, *dt, decide);
                });
                use_contract("rk23_bogacki_shampine", move |s: &mut $ty, dt: &f64| ran(s, 5, *dt, decide));
                use_contract("rk45_cash_karp", move |s: &mut $ty, dt: &f64| ran(s, 6, *dt, decide));
            }
            fn contracts_then(f: impl Fn(&$ty) + Copy) {
                use_contract("euler", move |s: &mut $ty, dt: &f64| {
                    ran(s, 0, *dt, 0);
                    f(s);
                });
                use_contract("heun", move |s: &mut $ty, dt: &f64| {
                    ran(s, 1, *dt, 0);
                    f(s);
                });
                use_contract("midpoint", move |s: &mut $ty, dt: &f64| {
                    ran(s, 2, *dt, 0);
                    f(s);
                });
                use_contract("ralston", move |s: &mut $ty, dt: &f64| {
                    ran(s, 3, *dt, 0);
                    f(s);
                });
                use_contract("rk4fixed", move |s: &mut $ty, dt: &f64| {
                    ran(s, 4, *dt, 0);
                    f(s);
                });
                use_contract("rk23_bogacki_shampine", move |s: &mut $ty, dt: &f64| {
                    let used = ran(s, 5, *dt, 0);
                    f(s);
                    used
                });
                use_contract("rk45_cash_karp", move |s: &mut $ty, dt: &f64| {
                    let used = ran(s, 6, *dt, 0);
                    f(s);
                    used
                });
            }
            pub fn solve(decide: u8) {
                let solver = any_solver();
                let fixed = fixed_of(&solver);
                let n = any_len("reports");
                let mut s: $ty = $any(solver);
                s.t_report = any_vec("t_report", n);
                s.state.i = any_usize("i");
                assume(s.state.i < n);
                if native() {
                    tame(&mut s);
                }
                let old = s.clone();
                let target = s.t_report[s.state.i];
                contracts(decide);
                let p = &s as *const $ty;
                let t0 = s.state.time;
                loop_inv("time does not pass the report time", move || le(at(p).state.time, target) || at(p).state.time == t0);
                loop_inv_over("the time remaining", move |v| req(v, target - at(p).state.time));
                loop_inv_over("the time", move |v| v == at(p).state.time);
                s.solve_step();
                reach("solved");
                if old.state.time < target {
                    reach("had to step");
                    if decide == 9 {
                        ensures("the report time is met exactly", req(s.state.time, target));
                    } else {
                        ensures("time moved", s.state.time != old.state.time);
                    }
                } else {
                    ensures("time is unchanged when the report time is not ahead", s.state.time == old.state.time);
                }
                ensures("the index is unchanged while solving", s.state.i == old.state.i);
                ensures("the schedule and the records are unchanged while solving", same(&s.t_report, &old.t_report) && records_equal(&s, &old));
                ensures("the solver kind and its fixed step are unchanged", kind_of(&s.solver_type) == kind_of(&old.solver_type) && fixed_of(&s.solver_type) == fixed);
            }
            /// everything a step may change, adopted from `s`
            fn adopt(want: &mut $ty, s: &$ty) {
                $(want.$c.state = s.$c.state;)+
                want.state.time = s.state.time;
                if let (Some(w), Some(c)) = (want.sc_mut(), s.sc()) {
                    w.state = c.state.clone();
                    w.history = c.history.clone();
                }
            }
            /// C11: solving to a report time, or walking through the schedule, changes no more than its steps,
            /// the index and the records
            pub fn frame(walk: bool) {
                let solver = any_solver();
                let fixed = fixed_of(&solver);
                let n = any_len("reports");
                let mut s: $ty = $any(solver);
                s.t_report = any_vec("t_report", n);
                s.state.i = any_usize("i");
                assume(s.state.i < n);
                if native() {
                    tame(&mut s);
                }
                if walk {
                    s.state.i = 0;
                }
                let old = s.clone();
                contracts(0);
                let p = &s as *const $ty;
                loop_inv("index within the schedule", move || at(p).state.i <= at(p).t_report.len());
                loop_inv("schedule left only at its end", move || at(p).state.i < at(p).t_report.len() || !(at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]));
                loop_inv("the end is not reached yet", move || at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]);
                loop_inv_over("the time", move |v| v == at(p).state.time);
                loop_inv_over("the time remaining", move |v| at(p).state.i >= at(p).t_report.len() || req(v, at(p).t_report[at(p).state.i] - at(p).state.time));
                if walk {
                    s.walk();
                } else {
                    s.solve_step();
                }
                reach("solved");
                if native() {
                    // not a number nowhere (equality would tell nothing)
                    assume(same(&s, &s));
                }
                let mut want = old;
                adopt(&mut want, &s);
                if walk {
                    want.state.i = s.state.i;
                    want.history = s.history.clone();
                    $(want.$c.history = s.$c.history.clone();)+
                }
                ensures("parameters, schedule and configuration are unchanged", same(&s, &want));
            }
            fn stepped(s: &$ty, last: &$ty) -> bool {
                true $(&& same(&s.$c.state, &last.$c.state))+
            }
            /// C10: between a step and the record that follows it states, derivatives and flows do not change
            pub fn kept(walk: bool) {
                let solver = any_solver();
                let fixed = fixed_of(&solver);
                let n = any_len("reports");
                assume(n > 0);
                let mut s: $ty = $any(solver);
                s.t_report = any_vec("t_report", n);
                s.state.i = any_usize("i");
                assume(s.state.i < n);
                if native() {
                    tame(&mut s);
                }
                if walk {
                    s.state.i = 0;
                }
                let t0 = s.state.time;
                let mut last = s.clone();
                let l = &mut last as *mut $ty;
                contracts_then(move |s: &$ty| unsafe { $((*l).$c.state = s.$c.state;)+ });
                use_contract("save_state", move |s: &mut $ty| {
                    reach("a record is taken");
                    ensures("a record is of what the last step left", stepped(s, at(l)));
                });
                let p = &s as *const $ty;
                loop_inv("as the last step left it", move || stepped(at(p), at(l)));
                loop_inv("index within the schedule", move || at(p).state.i <= at(p).t_report.len());
                loop_inv("schedule left only at its end", move || at(p).state.i < at(p).t_report.len() || !(at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]));
                loop_inv("the end is not reached yet", move || at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]);
                loop_inv_over("the time", move |v| v == at(p).state.time);
                loop_inv_over("the time remaining", move |v| at(p).state.i >= at(p).t_report.len() || req(v, at(p).t_report[at(p).state.i] - at(p).state.time));
                if walk {
                    s.walk();
                } else {
                    s.solve_step();
                }
                reach("solved");
                if native() {
                    assume(same(&s, &s));
                    if s.state.time != t0 {
                        last = s.clone();
                        last.update_derivs();
                    }
                }
                ensures("states, derivatives and flows are those the last step left", stepped(&s, &last));
            }
            pub fn run(increasing: bool, solver: SolverTypes) {
                let fixed = fixed_of(&solver);
                let n = any_len("reports");
                assume(n > 0);
                let mut s: $ty = $any(solver);
                s.t_report = any_vec("t_report", n);
                if native() {
                    tame(&mut s);
                    if increasing {
                        s.t_report.sort_by(|a, b| a.total_cmp(b));
                        for k in 1..n {
                            assume(s.t_report[k] > s.t_report[k - 1] + 1e-6);
                        }
                    }
                }
                let last = s.t_report[n - 1];
                let t0 = s.state.time;
                s.state.i = 0;
                s.history = Default::default();
                $(s.$c.history = Default::default();)+

                if increasing {
                    assume(t0 <= s.t_report[0]);
                    assume(t0 < last);
                    assume(forall(n - 1, |k| s.t_report[k] < s.t_report[k + 1]));
                    assume(forall(n - 1, |k| s.t_report[k] < last));
                }
                contracts(8);
                let p = &s as *const $ty;
                loop_inv("one record per index", move || records(at(p), at(p).state.i));
                loop_inv("index within the schedule", move || at(p).state.i <= at(p).t_report.len());
                loop_inv("schedule left only at its end", move || at(p).state.i < at(p).t_report.len() || !(at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]));
                loop_inv("the end is not reached yet", move || at(p).state.time < at(p).t_report[at(p).t_report.len() - 1]);
                loop_inv_over("the time", move |v| v == at(p).state.time);
                loop_inv_over("the time remaining", move |v| at(p).state.i >= at(p).t_report.len() || req(v, at(p).t_report[at(p).state.i] - at(p).state.time));
                if increasing {
                    loop_inv("schedule left only exactly at its end", move || at(p).state.i < at(p).t_report.len() || req(at(p).state.time, at(p).t_report[at(p).t_report.len() - 1]));
                    loop_inv("time is the last report time passed", move || at(p).state.i == 0 && at(p).state.time == t0 || at(p).state.i > 0 && at(p).state.time == at(p).t_report[at(p).state.i - 1]);
                    loop_inv("time does not pass the next report time", move || at(p).state.i >= at(p).t_report.len() || le(at(p).state.time, at(p).t_report[at(p).state.i]));
                    loop_inv("recorded times are the report times", move || forall(at(p).history.time.len(), |k| req(at(p).history.time[k], at(p).t_report[k])));
                } else {
                    loop_inv("a run that starts at the end does nothing", move || t0 < at(p).t_report[at(p).t_report.len() - 1] || at(p).state.i == 0 && at(p).state.time == t0);
                    loop_inv("records carry the next index", move || forall(at(p).history.i.len(), |k| at(p).history.i[k] == k + 1));
                    loop_inv("recorded times are not before the report times", move || forall(at(p).history.time.len(), |k| !(at(p).history.time[k] < at(p).t_report[k])));
                }
                s.walk();
                reach("run done");
                ensures("the number of records equals the final index", records(&s, s.state.i));
                ensures("the run stops once time has reached the last report time", !(s.state.time < s.t_report[n - 1]));
                ensures("the schedule keeps its length and end", s.t_report.len() == n && s.t_report[n - 1] == last);
                if increasing {
                    ensures("one record per report time", records(&s, n) && s.state.i == n);
                    ensures("every record is taken exactly at its report time", forall(n, |k| req(s.history.time[k], s.t_report[k])));
                    ensures("the run ends at the last report time", req(s.state.time, last));
                } else {
                    ensures("no more records than report times", s.state.i <= n);
                    ensures("every record carries the index one past its report time", forall(s.history.i.len(), |k| s.history.i[k] == k + 1));
                    ensures("every record is taken at or after its report time", forall(s.history.time.len(), |k| !(s.history.time[k] < s.t_report[k])));
                    if !(t0 < last) {
                        ensures("nothing is recorded when the run starts at or after the end", s.state.i == 0 && s.state.time == t0);
                    }
                }
            }
        }
    };
}
real!(tm, System3TM, any_3tm, [m1.temp, m2.temp, m3.temp, h12.q, h23.q], |s: &mut System3TM| {
    s.m1.state = any_thermal_state();
    s.m2.state = any_thermal_state();
    s.m3.state = any_thermal_state();
    s.h12.state.q = any_f64("q12");
    s.h23.state.q = any_f64("q23");
}, |s: &mut System3TM| {
    s.m1.c = s.m1.c.clamp(0.5, 10.0);
    s.m2.c = s.m2.c.clamp(0.5, 10.0);
    s.m3.c = s.m3.c.clamp(0.5, 10.0);
    s.h12.h = s.h12.h.clamp(-1.0, 1.0);
    s.h23.h = s.h23.h.clamp(-1.0, 1.0);
});
real!(bc, System3TMWithBC, any_3tm_bc, [m1.temp, m2.temp, m3.temp, h12.q, h23.q], |s: &mut System3TMWithBC| {
    s.m1.state = any_thermal_state();
    s.m2.state = any_thermal_state();
    s.m3.state = any_thermal_state();
    s.h12.state.q = any_f64("q12");
    s.h23.state.q = any_f64("q23");
}, |s: &mut System3TMWithBC| {
    s.m2.c = s.m2.c.clamp(0.5, 10.0);
    s.m3.c = s.m3.c.clamp(0.5, 10.0);
    s.h12.h = s.h12.h.clamp(-1.0, 1.0);
    s.h23.h = s.h23.h.clamp(-1.0, 1.0);
});

/// any of the five fixed-step kinds
fn any_fixed() -> SolverTypes {
    let k = any_u8("kind");
    assume(k < 5);
    solver_kind(k)
}

pub mod roots {
    use super::*;
    pub fn c08_real_system3tm_fixed() {
        tm::run(false, any_fixed())
    }
    pub fn c08_real_system3tm_rk23() {
        tm::run(false, solver_kind(5))
    }
    pub fn c08_real_system3tm_rk45() {
        tm::run(false, solver_kind(6))
    }
    pub fn c08_real_system3tm_increasing_rk4() {
        tm::run(true, solver_kind(4))
    }
    pub fn c08_real_system3tm_increasing_rk45() {
        tm::run(true, solver_kind(6))
    }
    pub fn c08_real_system3tm_bc_fixed() {
        bc::run(false, any_fixed())
    }
    pub fn c08_real_system3tm_bc_rk23() {
        bc::run(false, solver_kind(5))
    }
    pub fn c08_real_system3tm_bc_rk45() {
        bc::run(false, solver_kind(6))
    }
    pub fn c08_real_system3tm_bc_increasing_ralston() {
        bc::run(true, solver_kind(3))
    }
    pub fn c08_real_system3tm_bc_increasing_rk23() {
        bc::run(true, solver_kind(5))
    }
    pub fn c09_real_system3tm() {
        tm::solve(9)
    }
    pub fn c09_real_system3tm_bc() {
        bc::solve(9)
    }
    pub fn c10_real_system3tm_solve() {
        tm::kept(false)
    }
    pub fn c10_real_system3tm_bc_solve() {
        bc::kept(false)
    }
    pub fn c10_real_system3tm_walk() {
        tm::kept(true)
    }
    pub fn c10_real_system3tm_bc_walk() {
        bc::kept(true)
    }
    pub fn c11_real_system3tm_solve() {
        tm::frame(false)
    }
    pub fn c11_real_system3tm_bc_solve() {
        bc::frame(false)
    }
    pub fn c11_real_system3tm_walk() {
        tm::frame(true)
    }
    pub fn c11_real_system3tm_bc_walk() {
        bc::frame(true)
    }
    pub fn c21_real_system3tm() {
        tm::solve(21)
    }
    pub fn c21_real_system3tm_bc() {
        bc::solve(21)
    }
}
