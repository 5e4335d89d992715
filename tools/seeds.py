SEEDS=[]
def seed(**k): SEEDS.append(k)
SOLVER='dess/src/solver.rs'
# a two-state system with explicit time dependence, written against the public traits
SYS='''use dess::prelude::*;
#[derive(Clone)]
pub struct S { x: Vec<f64>, d: Vec<f64>, st: SystemState, solver_type: SolverTypes, log: Vec<f64> }
fn f(t: f64, x: &[f64]) -> Vec<f64> { vec![-0.7 * x[0] + 0.3 * x[1] + (2.0 * t).sin(), 0.2 * x[0] * x[1] - 0.5 * t] }
impl S { fn new(s: SolverTypes) -> S { S { x: vec![1.0, -0.5], d: vec![0.0; 2], st: SystemState { i: 0, time: 0.25 }, solver_type: s, log: vec![] } } }
impl BareClone for S { fn bare_clone(&self) -> Self { self.clone() } }
impl HasStates for S {
    fn states(&self) -> Vec<f64> { self.x.clone() }
    fn set_states(&mut self, v: Vec<f64>) { self.x = v }
    fn step_states_by_dt(&mut self, dt: &f64) { for i in 0..2 { self.x[i] += dt * self.d[i] } self.step_time(dt) }
    fn step_states(&mut self, v: Vec<f64>) { for i in 0..2 { self.x[i] += v[i] } }
    fn derivs(&self) -> Vec<f64> { self.d.clone() }
    fn set_derivs(&mut self, v: &[f64]) { self.d = v.to_vec() }
    fn step_derivs(&mut self, v: Vec<f64>) { for i in 0..2 { self.d[i] += v[i] } }
    fn storages(&self) -> Vec<f64> { vec![1.0; 2] }
}
impl SolverBase for S {
    fn reset_derivs(&mut self) { self.d = vec![0.0; 2] }
    fn update_derivs(&mut self) { self.d = f(self.st.time, &self.x) }
    fn step_time(&mut self, dt: &f64) { self.st.time += dt }
    fn sc(&self) -> Option<&AdaptiveSolverConfig> { match &self.solver_type { SolverTypes::RK45CashKarp(s) | SolverTypes::RK23BogackiShampine(s) => Some(s), _ => None } }
    fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> { match &mut self.solver_type { SolverTypes::RK45CashKarp(s) | SolverTypes::RK23BogackiShampine(s) => Some(s), _ => None } }
    fn state(&self) -> &SystemState { &self.st }
}
impl SolverVariantMethods for S {}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + b.abs()) }
fn check(c: bool, m: &str) { if !c { eprintln!("WRONG: {m}"); std::process::exit(1) } }
'''
seed(id='rk23_k4_time',prop='C02',edits=[(SOLVER,"""        let mut sys3 = self.bare_clone();
        sys3.step_time(&(dt));
""","""        let mut sys3 = self.bare_clone();
""")],
 needs='a right-hand side that depends on time explicitly; only the embedded error estimate changes',
 breaks='the fourth Bogacki-Shampine stage is evaluated at the starting time instead of t+h',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RK23BogackiShampine(Box::default()));
    let (h, t, x) = (0.3, s.st.time, s.x.clone());
    let (lo, hi) = s.rk23_bogacki_shampine_step(h);
    let ax = |c: &[(f64, &Vec<f64>)]| -> Vec<f64> { (0..2).map(|i| x[i] + h * c.iter().map(|(a, k)| a * k[i]).sum::<f64>()).collect() };
    let k1 = f(t, &x);
    let k2 = f(t + h / 2.0, &ax(&[(0.5, &k1)]));
    let k3 = f(t + 0.75 * h, &ax(&[(0.75, &k2)]));
    let y = ax(&[(2.0 / 9.0, &k1), (1.0 / 3.0, &k2), (4.0 / 9.0, &k3)]);
    let k4 = f(t + h, &y);
    let z = ax(&[(7.0 / 24.0, &k1), (0.25, &k2), (1.0 / 3.0, &k3), (0.125, &k4)]);
    for i in 0..2 {
        check(near(x[i] + hi[i], y[i]), "third order increment");
        check(near(x[i] + lo[i], z[i]), "second order increment");
    }
}
''')
seed(id='rk45_dt_max_dropped',prop='C05',edits=[(SOLVER,"sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);","sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max.max(sc_mut.state.dt));",1)],
 needs='a carried step that has grown beyond the configured maximum while the reporting interval is longer than it',
 breaks='the configured maximum no longer caps Cash-Karp steps',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RK45CashKarp(Box::new(AdaptiveSolverConfig { dt_max: 0.05, rtol: 1.0, atol: 1.0, save: true, ..Default::default() })));
    for _ in 0..6 {
        let used = s.rk45_cash_karp(&1.0);
        check(used <= 0.05, "step larger than dt_max");
    }
}
''')
seed(id='rk45_history_after_resize',prop='C07',edits=[(SOLVER,"""                // save before modifying dt
                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step
                sc_mut.state.dt *= dt_coeff;
                break (delta5, dt_used);""","""                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step
                sc_mut.state.dt *= dt_coeff;
                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                break (delta5, dt_used);""")],
 needs='Cash-Karp with save on: the recorded dt must be compared with the dt actually used',
 breaks='the solver history records the step size of the next step rather than of the one taken',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RK45CashKarp(Box::new(AdaptiveSolverConfig { save: true, ..Default::default() })));
    let mut used = vec![];
    for _ in 0..4 { used.push(s.rk45_cash_karp(&0.1)); }
    check(s.sc().unwrap().history.dt == used, "recorded step sizes are not those used");
}
''')
seed(id='rk45_zero_step_derivs',prop='C10',edits=[(SOLVER,"""        // increment forward with 5th order solution
        self.step_states(delta5);
        self.step_time(&dt_used);
        self.update_derivs();
""","""        // increment forward with 5th order solution
        let moved = delta5.iter().any(|d| *d != 0.);
        self.step_states(delta5);
        self.step_time(&dt_used);
        // the derivatives evaluated for the attempt still hold if nothing moved
        if moved {
            self.update_derivs();
        }
""")],
 needs='a Cash-Karp step whose increments are all exactly zero on a right-hand side that depends on time',
 breaks='after such a step the derivatives are those of the old time',
 demo='''use dess::prelude::*;
#[derive(Clone)]
pub struct Z { t: SystemState, s: SolverTypes, d: f64, x: f64 }
impl BareClone for Z { fn bare_clone(&self) -> Self { self.clone() } }
impl HasStates for Z {
    fn states(&self) -> Vec<f64> { vec![self.x] } fn set_states(&mut self, v: Vec<f64>) { self.x = v[0] } fn step_states_by_dt(&mut self, dt: &f64) { self.x += dt * self.d; self.step_time(dt) }
    fn step_states(&mut self, v: Vec<f64>) { self.x += v[0] } fn derivs(&self) -> Vec<f64> { vec![self.d] } fn set_derivs(&mut self, v: &[f64]) { self.d = v[0] } fn step_derivs(&mut self, v: Vec<f64>) { self.d += v[0] }
    fn storages(&self) -> Vec<f64> { vec![1.0] }
}
impl SolverBase for Z {
    fn reset_derivs(&mut self) { self.d = 0.0 } fn update_derivs(&mut self) { self.d = if self.t.time < 1.0 { 0.0 } else { 3.0 } } fn step_time(&mut self, dt: &f64) { self.t.time += dt }
    fn sc(&self) -> Option<&AdaptiveSolverConfig> { match &self.s { SolverTypes::RK45CashKarp(s) => Some(s), _ => None } }
    fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> { match &mut self.s { SolverTypes::RK45CashKarp(s) => Some(s), _ => None } }
    fn state(&self) -> &SystemState { &self.t }
}
impl SolverVariantMethods for Z { fn rk45_cash_karp_step(&mut self, _dt: f64) -> (Vec<f64>, Vec<f64>) { self.update_derivs(); (vec![0.0], vec![0.0]) } }
fn main() {
    let c = AdaptiveSolverConfig { state: SolverState { dt: 1.0, ..Default::default() }, ..Default::default() };
    let mut z = Z { t: Default::default(), s: SolverTypes::RK45CashKarp(Box::new(c)), d: 0.0, x: 0.0 };
    z.rk45_cash_karp(&1.0);
    if z.t.time != 1.0 || z.d != 3.0 { eprintln!("WRONG: derivative {} at time {}", z.d, z.t.time); std::process::exit(1) }
}
''')
seed(id='rk23_none_exponent',prop='C06',edits=[(SOLVER,"""                        Some(norm_err) => (sc_mut.atol / norm_err)
                            .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),""","""                        Some(norm_err) => (sc_mut.atol / norm_err)
                            .powf(if norm_err > sc_mut.atol { 0.2 } else { 0.25 }),""",0)],
 needs='an attempt whose higher-order increment is exactly zero while the embedded one is not',
 breaks='without a relative error the grow/shrink exponents are swapped',
 demo='''use dess::prelude::*;
#[derive(Clone)]
pub struct Z { t: SystemState, s: SolverTypes, e: f64 }
impl BareClone for Z { fn bare_clone(&self) -> Self { self.clone() } }
impl HasStates for Z {
    fn states(&self) -> Vec<f64> { vec![0.0] } fn set_states(&mut self, _: Vec<f64>) {} fn step_states_by_dt(&mut self, dt: &f64) { self.step_time(dt) }
    fn step_states(&mut self, _: Vec<f64>) {} fn derivs(&self) -> Vec<f64> { vec![0.0] } fn set_derivs(&mut self, _: &[f64]) {} fn step_derivs(&mut self, _: Vec<f64>) {}
    fn storages(&self) -> Vec<f64> { vec![1.0] }
}
impl SolverBase for Z {
    fn reset_derivs(&mut self) {} fn update_derivs(&mut self) {} fn step_time(&mut self, dt: &f64) { self.t.time += dt }
    fn sc(&self) -> Option<&AdaptiveSolverConfig> { match &self.s { SolverTypes::RK23BogackiShampine(s) => Some(s), _ => None } }
    fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> { match &mut self.s { SolverTypes::RK23BogackiShampine(s) => Some(s), _ => None } }
    fn state(&self) -> &SystemState { &self.t }
}
impl SolverVariantMethods for Z { fn rk23_bogacki_shampine_step(&mut self, _dt: f64) -> (Vec<f64>, Vec<f64>) { (vec![self.e], vec![0.0]) } }
fn main() {
    for (e, p) in [(0.25, 0.2), (4.0, 0.25)] {
        let c = AdaptiveSolverConfig { atol: 1.0, max_iter: 1, ..Default::default() };
        let mut z = Z { t: Default::default(), s: SolverTypes::RK23BogackiShampine(Box::new(c)), e };
        let used = z.rk23_bogacki_shampine(&1.0);
        let want = used * (1.0 / e).powf(p);
        let got = z.sc().unwrap().state.dt;
        if (got - want).abs() > 1e-12 { eprintln!("WRONG: carried step {got} instead of {want}"); std::process::exit(1) }
    }
}
''')
TM='dess/src/traits_and_macros.rs'; SA='dess/dess-proc-macros/src/solver_attr.rs'; HV='dess/dess-proc-macros/src/history_vec.rs'
HM='dess/dess-proc-macros/src/history_methods.rs'; BC='dess/dess-proc-macros/src/bare_clone.rs'; PY='dess/dess-proc-macros/src/pyo3_api.rs'
CO='dess-examples/src/components.rs'; UT='dess/src/utilities.rs'; PM='dess/dess-proc-macros/src/utilities.rs'
EX='''use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::*;
use dess_examples::three_thrml_mass_w_bc_sys::*;
#[allow(unused)] fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + b.abs()) }
#[allow(unused)] fn check(c: bool, m: &str) { if !c { eprintln!("WRONG: {m}"); std::process::exit(1) } }
'''
seed(id='ralston_stage_time',prop='C01',edits=[(SOLVER,"""        let mut updated_self = self.bare_clone();
        //recording initial derivative for later
        let deriv_0: Vec<f64> = updated_self.derivs();
        //updating time and state to 2/3 way through line
        updated_self.step_states_by_dt(&(2.0 * dt / 3.0));
""","""        let mut updated_self = self.bare_clone();
        //recording initial derivative for later
        let deriv_0: Vec<f64> = updated_self.derivs();
        //updating state to 2/3 way through line
        updated_self.step_states(deriv_0.iter().map(|d| 2.0 * dt / 3.0 * d).collect());
""")],
 needs='a right-hand side that depends on time explicitly',
 breaks='the second Ralston stage is evaluated at the starting time instead of t+2h/3',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RalstonsMethod { dt: 0.3 });
    let (h, t, x) = (0.3, s.st.time, s.x.clone());
    s.ralston(&h);
    let k1 = f(t, &x);
    let k2 = f(t + 2.0 * h / 3.0, &(0..2).map(|i| x[i] + 2.0 * h / 3.0 * k1[i]).collect::<Vec<f64>>());
    for i in 0..2 { check(near(s.x[i], x[i] + h * (0.25 * k1[i] + 0.75 * k2[i])), "Ralston step") }
    check(near(s.st.time, t + h), "time");
}
''')
seed(id='rk45_k6_time',prop='C03',edits=[(SOLVER,"sys5.step_time(&(dt * 7. / 8.));","sys5.step_time(&(dt * 8. / 7.));")],
 needs='a right-hand side that depends on time explicitly',
 breaks='the sixth Cash-Karp stage is evaluated at the inverse of its stage time',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RK45CashKarp(Box::default()));
    let (h, t, x) = (0.3, s.st.time, s.x.clone());
    let (lo, hi) = s.rk45_cash_karp_step(h);
    let ax = |c: &[(f64, &Vec<f64>)]| -> Vec<f64> { (0..2).map(|i| x[i] + h * c.iter().map(|(a, k)| a * k[i]).sum::<f64>()).collect() };
    let k1 = f(t, &x);
    let k2 = f(t + h / 5.0, &ax(&[(0.2, &k1)]));
    let k3 = f(t + 0.3 * h, &ax(&[(3.0 / 40.0, &k1), (9.0 / 40.0, &k2)]));
    let k4 = f(t + 0.6 * h, &ax(&[(0.3, &k1), (-0.9, &k2), (1.2, &k3)]));
    let k5 = f(t + h, &ax(&[(-11.0 / 54.0, &k1), (2.5, &k2), (-70.0 / 27.0, &k3), (35.0 / 27.0, &k4)]));
    let k6 = f(t + 0.875 * h, &ax(&[(1631.0 / 55296.0, &k1), (175.0 / 512.0, &k2), (575.0 / 13824.0, &k3), (44275.0 / 110592.0, &k4), (253.0 / 4096.0, &k5)]));
    let y = ax(&[(37.0 / 378.0, &k1), (250.0 / 621.0, &k3), (125.0 / 594.0, &k4), (512.0 / 1771.0, &k6)]);
    let z = ax(&[(2825.0 / 27648.0, &k1), (18575.0 / 48384.0, &k3), (13525.0 / 55296.0, &k4), (277.0 / 14336.0, &k5), (0.25, &k6)]);
    for i in 0..2 {
        check(near(x[i] + hi[i], y[i]), "fifth order increment");
        check((x[i] + lo[i] - z[i]).abs() < 1e-13, "fourth order increment");
    }
}
''')
seed(id='rk23_limit_off_by_one',prop='C04',edits=[(SOLVER,"""            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                || tol_met;
""","""            let limit = sc_mut.max_iter.max(2);
            let break_cond = sc_mut.state.n_iter >= limit
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                || tol_met;
""",0)],
 needs='an iteration limit of one (or zero) with an error that misses both tolerances',
 breaks='the attempt that reaches the configured iteration limit is retried',
 demo=SYS+'''
fn main() {
    for m in [0u8, 1, 2, 3] {
        let mut s = S::new(SolverTypes::RK23BogackiShampine(Box::new(AdaptiveSolverConfig { max_iter: m, rtol: 1e-300, atol: 1e-300, ..Default::default() })));
        s.rk23_bogacki_shampine(&1.0);
        check(s.sc().unwrap().state.n_iter == m.max(1), "number of attempts");
    }
}
''')
seed(id='walk_runs_whole_schedule',prop='C08',edits=[(SA,"while &self.state.time < self.t_report.last().unwrap() {","while self.state.i < self.t_report.len() && self.state.time <= *self.t_report.last().unwrap() {")],
 needs='a schedule whose last report time repeats',
 breaks='the run goes on after time has reached the last report time and appends further records',
 demo=EX+'''
fn main() {
    for (sch, want) in [(vec![0.5, 1.0], 2), (vec![0.5, 1.0, 1.0, 1.0], 2), (vec![0.0], 0)] {
        let mut s = System3TM { t_report: sch, ..Default::default() };
        s.walk();
        check(s.state.i == want && s.history.len() == want, "number of records");
    }
}
''')
seed(id='fixed_step_floor',prop='C09',edits=[(SA,"""                        SolverTypes::RalstonsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
""","""                        SolverTypes::RalstonsMethod{dt: dt_fixed} => {
                            // never take a step too small to matter
                            let dt = dt.min(dt_fixed.max(1e-6));
""")],
 needs='a configured step of less than a microsecond',
 breaks='steps longer than the configured one are taken',
 demo=EX+'''
fn main() {
    let mut a = System3TM { solver_type: SolverTypes::RalstonsMethod { dt: 4e-7 }, t_report: vec![1e-6], ..Default::default() };
    let mut b = a.clone();
    a.walk();
    b.ralston(&4e-7);
    b.ralston(&4e-7);
    b.ralston(&(1e-6 - b.state.time));
    check(a.states() == b.states(), "the steps taken towards the report time");
}
''')
seed(id='rk4_through_copy',prop='C11',edits=[(SOLVER,"""        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
""","""        let mut next = self.bare_clone();
        next.step_states(delta);
        next.step_time(dt);
        next.update_derivs();
        if next.storages().iter().all(|c| c.is_finite()) {
            self.set_states(next.states());
            self.step_time(dt);
            self.update_derivs();
        } else {
            // storages without a limit cannot be copied state by state
            *self = next;
        }
""")],
 needs='a classic Runge-Kutta step on a system with a reservoir and histories already recorded',
 breaks='the recorded histories are lost',
 demo=EX+'''
fn main() {
    let mut s = System3TMWithBC { solver_type: SolverTypes::RK4Fixed { dt: 0.01 }, ..Default::default() };
    s.save_state();
    s.save_state();
    let h = s.history.clone();
    s.rk4fixed(&0.01);
    check(s.history == h && s.m2.history.len() == 2, "histories changed by a step");
}
''')
seed(id='history_pop_first',prop='C12',edits=[(HV,"""                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
""","""                    let last = self.len().min(1) - 1;
                    #(
                        let #field_names = self.#field_names.swap_remove(last);
                    )*
""")],
 needs='popping from a history of two or more records',
 breaks='the first record is returned and the last one moved into its place',
 demo=EX+'''
fn main() {
    let mut h = ThermalMassStateHistoryVec::new();
    for k in 0..3 { h.push(ThermalMassState { temp: k as f64, dtemp: -(k as f64) }) }
    let p = h.pop().unwrap();
    check(p.temp == 2.0 && p.dtemp == -2.0, "last record");
    check(h.temp == vec![0.0, 1.0] && h.dtemp == vec![-0.0, -1.0], "the remaining records");
}
''')
seed(id='save_state_skips_repeats',prop='C13',edits=[(HM,"""            quote! {self.history.push(self.state)}
""","""            quote! {
                let last = self.history.pop();
                if let Some(last) = last.clone() {
                    self.history.push(last);
                }
                // a record equal to the last one holds no information
                if last != Some(self.state) {
                    self.history.push(self.state)
                }
            }
""")],
 needs='a component whose state does not change between two report times',
 breaks='nothing is appended for it, so that histories get different lengths',
 demo=EX+'''
fn main() {
    let mut s = System3TM::default();
    s.save_state();
    s.state.time += 1.0;
    s.m2.state.temp += 1.0;
    s.save_state();
    check(s.history.len() == 2 && s.m1.history.len() == 2 && s.m2.history.len() == 2 && s.h12.history.len() == 2, "one record everywhere");
}
''')
seed(id='bare_clone_prefix',prop='C14',edits=[(BC,'''*field.ident.as_ref().unwrap() != "history"''','''!field.ident.as_ref().unwrap().to_string().starts_with("history")''')],
 needs='a parameter whose name begins with the word history',
 breaks='the clone carries the default instead of the value',
 demo=EX+'''
use serde::{Deserialize, Serialize};
use dess_proc_macros::*;
#[derive(HistoryMethods, BareClone, Default, Clone)]
pub struct Pipe { pub history_scale: f64, pub len: f64, pub state: ConductanceState, pub history: ConductanceStateHistoryVec }
fn main() {
    let mut p = Pipe { history_scale: 2.5, len: 3.0, ..Default::default() };
    p.save_state();
    let b = p.bare_clone();
    check(b.history_scale == 2.5 && b.len == 3.0 && b.history.is_empty(), "parameters of the bare clone");
}
''')
seed(id='step_derivs_sets',prop='C15',edits=[(SA,"#(self.#fields_with_state.step_deriv(iter.next().unwrap().clone());)*","#(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*")],
 needs='incrementing derivatives that are not zero',
 breaks='the derivative vector is set instead of incremented',
 demo=EX+'''
fn main() {
    let mut s = System3TM::default();
    s.set_derivs(&[1.0, 2.0, 3.0]);
    s.step_derivs(vec![0.5, 0.25, -1.0]);
    check(s.derivs() == vec![1.5, 2.25, 2.0], "incremented derivatives");
}
''')
seed(id='reservoir_finite',prop='C16',edits=[(CO,"""        f64::INFINITY
""","""        1e12
""")],
 needs='a flow into a reservoir whose rate is then looked at',
 breaks='a reservoir warms up, a little, by what flows into it',
 demo=EX+'''
fn main() {
    let mut r = ThermalReservoir { state: ThermalMassState { temp: 20.0, dtemp: 0.0 }, ..Default::default() };
    let m = ThermalMass { c: 1.0, state: ThermalMassState { temp: 80.0, dtemp: 0.0 }, ..Default::default() };
    let mut c = Conductance { h: 1e6, ..Default::default() };
    c.set_flow(&m, &r);
    r.step_deriv(c.flow() / r.storage());
    check(r.deriv() == 0.0, "a reservoir's rate");
}
''')
seed(id='almost_eq_sign',prop='C17',edits=[(UT,"((val2 - val1) / (val1 + val2)).abs() < epsilon","((val2 - val1).abs() / (val1 + val2)) < epsilon")],
 needs='two different negative numbers',
 breaks='any two numbers of negative sum are approximately equal',
 demo='''use dess::utilities::almost_eq;
fn main() {
    for (a, b, w) in [(-1.0, -3.0, false), (-3.0, -1.0, false), (2.0, 2.0, true), (-2.0, -2.0 - 1e-12, true), (1.0, 2.0, false)] {
        if almost_eq(a, b, None) != w { eprintln!("WRONG: {a} {b}"); std::process::exit(1) }
    }
}
''')
seed(id='to_file_creates_first',prop='C18',edits=[(TM,"""        let file = PathBuf::from(filename);
        let extension = Path::new(filename)
            .extension()
            .and_then(OsStr::to_str)
            .unwrap_or("");
        match extension {
            "json" => {
                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
""","""        let file = File::create(PathBuf::from(filename))?;
        let extension = Path::new(filename)
            .extension()
            .and_then(OsStr::to_str)
            .unwrap_or("");
        match extension {
            "json" => {
                serde_json::to_writer(&file, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&file, self)?;
                Ok(())
            }
""")],
 needs='saving under an unsupported name where a file exists already',
 breaks='the error comes after the file has been emptied',
 demo=EX+'''
fn main() {
    let d = std::env::temp_dir().join(format!("dess-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("notes.txt");
    std::fs::write(&p, "keep me").unwrap();
    let r = ThermalMass::default().to_file(p.to_str().unwrap());
    let t = std::fs::read_to_string(&p).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    check(r.is_err(), "an error for an unsupported extension");
    check(t == "keep me", "file left alone");
}
''')
seed(id='to_file_lost_write',prop='C18',edits=[(TM,'serde_json::to_writer(&File::create(file)?, self)?;','serde_json::to_writer(std::io::BufWriter::new(File::create(file)?), self)?;')],
 needs='a write that fails (disk full, quota, file size limit) after the file was created',
 breaks='the buffered writer is never flushed explicitly: a failed write is dropped and saving reports success',
 demo=EX+'''
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
fn main() {
    let d = std::env::temp_dir().join(format!("dess-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("mass.json");
    let name = p.to_str().unwrap().to_string();
    // files can be created but nothing can be written to them
    unsafe {
        signal(25, 1);
        setrlimit(1, &[0, u64::MAX]);
    }
    let r = ThermalMass::default().to_file(&name);
    unsafe {
        setrlimit(1, &[u64::MAX, u64::MAX]);
    }
    let again = ThermalMass::default().to_file(&name);
    std::fs::remove_dir_all(&d).unwrap();
    check(r.is_err(), "a failed write is an error");
    check(again.is_ok(), "saving works when nothing fails");
}
''')
seed(id='dt_mean_skips',prop='C07',edits=[(SOLVER,"Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)","Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len().max(2) as f64)")],
 needs='a history with a single record',
 breaks='the mean of one recorded step is half of it',
 demo=EX+'''
fn main() {
    let mut c = AdaptiveSolverConfig::default();
    check(c.dt_mean().is_none(), "no mean without records");
    for (k, w) in [(0.5, 0.5), (1.0, 0.75), (3.0, 1.5)] {
        c.history.push(SolverState { dt: k, ..Default::default() });
        check(c.dt_mean() == Some(w), "mean of the recorded steps");
    }
}
''')
seed(id='solver_state_skip_none',prop='C19',edits=[(SOLVER,"""    pub norm_err_rel: Option<f64>,
""","""    #[serde(skip_serializing_if = "Option::is_none")]
    pub norm_err_rel: Option<f64>,
""",0)],
 needs='a solver state without a relative error, through the binary format',
 breaks='the binary form leaves the field out, and reading it back fails or shifts the values',
 demo=EX+'''
fn main() {
    let s = SolverState::default();
    check(SolverState::from_json(&s.to_json()).unwrap() == s, "JSON");
    check(SolverState::from_bincode(&s.to_bincode()).map(|r| r == s).unwrap_or(false), "binary");
}
''')
seed(id='sc_read_only_rk45',prop='C21',edits=[(SA,"""                match &self.solver_type {
                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
""","""                match &self.solver_type {
                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) if sc.max_iter > 0 => Some(sc),
                    _ => None,
""")],
 needs='a Bogacki-Shampine configuration with iteration limit zero',
 breaks='its configuration cannot be read, and a step panics',
 demo=EX+'''
fn main() {
    let s = System3TM { solver_type: SolverTypes::RK23BogackiShampine(Box::new(AdaptiveSolverConfig { max_iter: 0, ..Default::default() })), ..Default::default() };
    check(s.sc().is_some(), "configuration of the configured solver");
}
''')
PYSH='''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
dess = { path = "$R/dess", features = ["pyo3"] }
dess-examples = { path = "$R/dess-examples", features = ["pyo3"] }
pyo3 = "*"
EOF
cd "$T" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="-Awarnings -Clink-arg=-lpython3.12"
cargo build -q --offline || exit 3
timeout 120 "$T/target/debug/demo"
'''
seed(id='py_config_defaults',prop='C20',edits=[(SOLVER,"""            save: save.unwrap_or(false),
            save_states: save_states.unwrap_or(false),
""","""            save: save.unwrap_or(false),
            save_states: save_states.or(save).unwrap_or(false),
""")],
 needs='the Python constructor with save given and save_states left out',
 breaks='state saving is switched on by the argument of another field',
 sh=PYSH,
 demo='''use dess::prelude::*;
use pyo3::prelude::*;
fn main() {
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        let c = py.get_type::<AdaptiveSolverConfig>().call1((0.1, 1.0, 3u8, 1e-3, 1e-4, Some(true), None::<bool>)).unwrap();
        let g = |n: &str| c.getattr(n).unwrap().extract::<bool>().unwrap();
        if !g("save") || g("save_states") { eprintln!("WRONG: save_states follows save"); std::process::exit(1) }
    })
}
''')
seed(id='py_copy_bare',prop='C20',edits=[(PY,"""            fn __copy__(&self) -> Self {
                self.clone()
            }
""","""            fn __copy__(&self) -> Self {
                // nothing to share: go through the encoded form, so that no part is aliased
                Self::from_bincode(&self.to_bincode()).unwrap_or_default()
            }
"""),(SOLVER,"""    /// current values of states
    pub states: Vec<f64>,""","""    /// current values of states
    #[serde(skip)]
    pub states: Vec<f64>,""")],
 needs='copying an object from Python that holds saved solver states',
 breaks='the copy has lost them',
 sh=PYSH,
 demo='''use dess::prelude::*;
use pyo3::prelude::*;
fn main() {
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        let s = SolverState { states: vec![1.0, 2.0], n_iter: 3, ..Default::default() };
        let o = PyCell::new(py, s.clone()).unwrap();
        let c = o.call_method0("__copy__").unwrap();
        let n: Vec<f64> = c.getattr("states").unwrap().extract().unwrap();
        if n != s.states { eprintln!("WRONG: copy holds {n:?}"); std::process::exit(1) }
    })
}
''')
import bugs as _B
def _from(i,**k): seed(id=i.replace('py_mod_missing','py_module_incomplete'),prop=_B.G[i][0],edits=_B.G[i][1],**k)
_from('rk45_record_dup_limit',
 needs='saving solver steps, and two committed steps of size zero in a row',
 breaks='the second of them replaces the record of the first, so there are fewer records than steps',
 demo=SYS+'''
fn main() {
    let mut s = S::new(SolverTypes::RK45CashKarp(Box::new(AdaptiveSolverConfig { save: true, ..Default::default() })));
    for k in 1..4 {
        s.rk45_cash_karp(&0.0);
        check(s.sc().unwrap().history.dt.len() == k, "one record per committed step");
    }
}
''')
_from('solve_step_resets',
 needs='a report time that is not ahead of the current time (the first one at the start, or one given twice)',
 breaks='the record taken there has the states but zero derivatives',
 demo=EX+'''
fn main() {
    let mut s = mock_system(SolverTypes::EulerFixed { dt: 0.01 });
    s.walk();
    let (t, d) = (&s.m1.history.temp, &s.m1.history.dtemp);
    check(t.len() == 4 && t[1] == t[2] && d[1] == d[2] && d[1] != 0.0, "a record without a step in between repeats the previous one");
}
fn mock_system(s: SolverTypes) -> System3TM {
    System3TM {
        m1: ThermalMass { c: 1.0, state: ThermalMassState { temp: 10.0, dtemp: 0.0 }, ..Default::default() },
        m2: ThermalMass { c: 1.0, state: ThermalMassState { temp: 5.0, dtemp: 0.0 }, ..Default::default() },
        m3: ThermalMass { c: 1.0, state: ThermalMassState { temp: 0.0, dtemp: 0.0 }, ..Default::default() },
        h12: Conductance { h: 1.0, ..Default::default() },
        h23: Conductance { h: 1.0, ..Default::default() },
        t_report: vec![0.1, 0.2, 0.2, 0.3],
        solver_type: s,
        ..Default::default()
    }
}
''')
_from('solve_step_remembers_dt',
 needs='an adaptive solver whose carried step is larger than the configured maximum when solving starts',
 breaks='solving to a report time raises the configured maximum step',
 demo=EX+'''
fn main() {
    let c = AdaptiveSolverConfig { dt_max: 0.5, state: SolverState { dt: 3.0, ..Default::default() }, ..Default::default() };
    let mut s = System3TM {
        m1: ThermalMass { c: 1.0, ..Default::default() },
        m2: ThermalMass { c: 1.0, ..Default::default() },
        m3: ThermalMass { c: 1.0, ..Default::default() },
        t_report: vec![1.0],
        solver_type: SolverTypes::RK45CashKarp(Box::new(c)),
        ..Default::default()
    };
    s.solve_step();
    check(s.sc().unwrap().dt_max == 0.5, "configured maximum step");
}
''')
_from('flow_deadband',
 needs='two masses whose temperatures differ by very little',
 breaks='the flow between them is zero instead of conductance times difference',
 demo=EX+'''
fn main() {
    let m = |t: f64| ThermalMass { c: 1.0, state: ThermalMassState { temp: t, dtemp: 0.0 }, ..Default::default() };
    let mut c = Conductance { h: 1e9, ..Default::default() };
    for gap in [4.0, 0.25, 0.0009765625, 9.5367431640625e-7, 9.313225746154785e-10, -9.313225746154785e-10] {
        c.set_flow(&m(1.0 + gap), &m(1.0));
        check(c.flow() == 1e9 * gap, "flow across a small difference");
    }
}
''')
_from('step_state_by_dt_mass',
 needs='incrementing the states by a vector with a zero in it while derivatives are not zero',
 breaks='the derivative of that component is lost',
 demo=EX+'''
fn main() {
    let mut s = System3TM { m1: ThermalMass { c: 1.0, ..Default::default() }, ..Default::default() };
    s.set_derivs(&[1.0, 2.0, 3.0]);
    s.step_states(vec![0.5, 0.0, 0.25]);
    check(s.derivs() == vec![1.0, 2.0, 3.0], "derivatives after incrementing the states");
}
''')
_from('py_mod_missing',
 needs='importing the built Python module and looking for the class of the system history',
 breaks='SystemStateHistoryVec is not exported, so its type cannot be named or constructed from Python',
 sh='''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings PYO3_PYTHON=/usr/bin/python3.12
cargo build -q --offline --manifest-path "$R/dess-examples-pyo3/Cargo.toml" || exit 3
cp "$T/target/debug/libdess_pyo3.so" "$T/dess_pyo3.so" || exit 3
cd "$T" && timeout 60 /usr/bin/python3.12 -c '
import dess_pyo3
for n in "AdaptiveSolverConfig SolverState SolverStateHistoryVec System3TMWithBC ThermalReservoir System3TM SystemState SystemStateHistoryVec ThermalMass ThermalMassState ThermalMassStateHistoryVec Conductance ConductanceState ConductanceStateHistoryVec".split():
    assert isinstance(getattr(dess_pyo3, n), type), n
'
''',
 demo='// see demo.sh\nfn main() {}\n')
