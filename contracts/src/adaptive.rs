//! feature: adaptive
//! C02-C07 (and C10, C11 for the adaptive methods): the real default methods
//! `rk23_bogacki_shampine{,_step}` and `rk45_cash_karp{,_step}` of `SolverVariantMethods`.
//!
//! C02/C03 verify one attempt over an arbitrary system (AbsSys).  C04-C07 verify the accept/resize
//! loop over `AttSys`, where the attempt is replaced by its contract: arbitrary increments that are
//! a function of the step size (time and states being unchanged, which is itself an obligation).
use crate::abs::*;
use crate::ops::*;
use crate::vrt::*;
use dess::prelude::*;

pub fn any_history() -> SolverStateHistoryVec {
    let m = any_len("hist");
    SolverStateHistoryVec {
        dt: any_vec("hist.dt", m),
        n_iter: any_vec_u8("hist.n_iter", m),
        norm_err: any_vec_of("hist.norm_err", m),
        norm_err_rel: any_vec_of("hist.norm_err_rel", m),
        t_curr: any_vec("hist.t_curr", m),
        states: any_vec_of("hist.states", m),
    }
}
pub fn same_records(a: &SolverStateHistoryVec, b: &SolverStateHistoryVec) -> bool {
    same_seq(&a.dt, &b.dt)
        && same_seq(&a.n_iter, &b.n_iter)
        && same_seq(&a.norm_err, &b.norm_err)
        && same_seq(&a.norm_err_rel, &b.norm_err_rel)
        && same_seq(&a.t_curr, &b.t_curr)
        && same_seq(&a.states, &b.states)
}
/// an arbitrary configuration with non-negative tolerances and any diagnostics left by earlier steps
pub fn any_config(history: SolverStateHistoryVec) -> AdaptiveSolverConfig {
    AdaptiveSolverConfig {
        dt_max: any_f64("dt_max"),
        max_iter: any_u8("max_iter"),
        atol: any_nonneg("atol"),
        rtol: any_nonneg("rtol"),
        save: any_bool("save"),
        save_states: any_bool("save_states"),
        state: SolverState {
            dt: any_f64("dt0"),
            n_iter: any_u8("n_iter0"),
            norm_err: any::<Option<f64>>("norm_err0"),
            norm_err_rel: any::<Option<f64>>("norm_err_rel0"),
            t_curr: any_f64("t_curr0"),
            states: any_vec("states0", any_len("states0#n")),
        },
        history,
    }
}
/// an arbitrary system configured with the adaptive method `rk45` or not
pub fn adaptive_sys(rk45: bool) -> AbsSys {
    let sc = any_config(SolverStateHistoryVec::default());
    let n = any_len("n");
    AbsSys::any_with(n, if rk45 { SolverTypes::RK45CashKarp(Box::new(sc)) } else { SolverTypes::RK23BogackiShampine(Box::new(sc)) })
}
fn attempt_leaves(s: &AbsSys, old: &AbsSys) {
    reach("attempt done");
    ensures("the attempt leaves time unchanged", s.state.time == old.state.time && s.state.i == old.state.i);
    ensures("the attempt leaves the states unchanged", same_seq(&s.x, &old.x));
    ensures("the attempt leaves parameters and schedule unchanged", s.p == old.p && same_seq(&s.st, &old.st) && same_seq(&s.t_report, &old.t_report) && s.hist_len == old.hist_len);
    ensures("the attempt leaves the configuration unchanged", same_conf(&s.solver_type, &old.solver_type));
    let (a, b) = (s.sc().unwrap(), old.sc().unwrap());
    ensures("the attempt leaves the step size and diagnostics unchanged", a.state.dt == b.state.dt && a.state.n_iter == b.state.n_iter && a.state.t_curr == b.state.t_curr);
    ensures("the attempt leaves the recorded diagnostics unchanged", same_records(&a.history, &b.history));
}
fn bs23(old: &AbsSys, h: f64) -> (Vec<f64>, Vec<f64>) {
    let n = old.x.len();
    let ks = rk_stages(
        old.p,
        old.state.time,
        &old.x,
        h,
        &[Stage(0.0, &[]), Stage(0.5, &[0.5]), Stage(0.75, &[0.0, 0.75]), Stage(1.0, &[2.0 / 9.0, 1.0 / 3.0, 4.0 / 9.0])],
    );
    (rk_delta(n, h, &[7.0 / 24.0, 0.25, 1.0 / 3.0, 0.125], &ks), rk_delta(n, h, &[2.0 / 9.0, 1.0 / 3.0, 4.0 / 9.0, 0.0], &ks))
}
fn ck45(old: &AbsSys, h: f64) -> (Vec<f64>, Vec<f64>) {
    let n = old.x.len();
    let ks = rk_stages(
        old.p,
        old.state.time,
        &old.x,
        h,
        &[
            Stage(0.0, &[]),
            Stage(0.2, &[0.2]),
            Stage(0.3, &[3.0 / 40.0, 9.0 / 40.0]),
            Stage(0.6, &[0.3, -0.9, 1.2]),
            Stage(1.0, &[-11.0 / 54.0, 2.5, -70.0 / 27.0, 35.0 / 27.0]),
            Stage(0.875, &[1631.0 / 55296.0, 175.0 / 512.0, 575.0 / 13824.0, 44275.0 / 110592.0, 253.0 / 4096.0]),
        ],
    );
    (
        rk_delta(n, h, &[2825.0 / 27648.0, 0.0, 18575.0 / 48384.0, 13525.0 / 55296.0, 277.0 / 14336.0, 0.25], &ks),
        rk_delta(n, h, &[37.0 / 378.0, 0.0, 250.0 / 621.0, 125.0 / 594.0, 0.0, 512.0 / 1771.0], &ks),
    )
}

// ---------------------------------------------------------------------------------------------
/// which property's obligations an AttSys run generates
#[derive(Clone, Copy, PartialEq)]
pub enum Decide {
    C04,
    C05,
    C06,
    C07,
    Nothing,
}
#[derive(Clone)]
pub struct AttSys {
    pub b: AbsSys,
    pub what: Decide,
    /// positive tolerances, carried step and time remaining
    pub pos: bool,
    // ghost state
    pub t0: f64,
    pub x0: Vec<f64>,
    pub dt_first: f64,
    pub remaining: f64,
    pub n_att: usize,
    pub last: f64,
    pub carried: f64,
}
/// absolute error and magnitude of the increment of an attempt of size dt (contract of the attempt)
pub fn lo(n: usize, dt: f64) -> Vec<f64> {
    fun_vec("lo", n, &[dt])
}
pub fn hi(n: usize, dt: f64) -> Vec<f64> {
    fun_vec("hi", n, &[dt])
}
pub fn err_abs(n: usize, dt: f64) -> f64 {
    norm2(&sub(&lo(n, dt), &hi(n, dt)))
}
pub fn err_rel(n: usize, dt: f64) -> Option<f64> {
    let m = norm2(&hi(n, dt));
    if m != 0.0 {
        Some(err_abs(n, dt) / m)
    } else {
        None
    }
}
pub fn meets_tolerance(sc: &AdaptiveSolverConfig, n: usize, dt: f64) -> bool {
    match err_rel(n, dt) {
        Some(r) => r <= sc.rtol,
        None => err_abs(n, dt) <= sc.atol,
    }
}
pub fn acceptable(sc: &AdaptiveSolverConfig, n: usize, dt: f64, made: usize) -> bool {
    err_abs(n, dt) < sc.atol || meets_tolerance(sc, n, dt) || made >= sc.max_iter as usize
}
/// the documented resize rule
pub fn resized(sc: &AdaptiveSolverConfig, n: usize, dt: f64) -> f64 {
    let e = err_abs(n, dt);
    dt * match err_rel(n, dt) {
        Some(r) => {
            if r <= sc.rtol {
                rpow(sc.rtol / r, 0.2)
            } else if e <= sc.atol {
                rpow(sc.atol / e, 0.2)
            } else {
                0.25
            }
        }
        None => rpow(sc.atol / e, if e <= sc.atol { 0.2 } else { 0.25 }),
    }
}
impl AttSys {
    fn attempt(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.update_derivs();
        reach("attempt");
        let n = self.b.x.len();
        let sc = self.b.sc().unwrap();
        let k = self.n_att;
        if native() && k > 0 {
            in_range(self.last);
        }
        match self.what {
            Decide::C04 => {
                ensures("every attempt starts from the step's starting time", self.b.state.time == self.t0);
                ensures("every attempt starts from the step's starting states", same_seq(&self.b.x, &self.x0));
                if k > 0 {
                    reach("second attempt");
                    ensures("an acceptable attempt is never retried", !acceptable(sc, n, self.last, k));
                }
            }
            Decide::C05 => {
                ensures("attempt at most the time remaining", dt <= self.remaining);
                ensures("attempt at most the configured maximum", dt <= sc.dt_max);
                if self.pos {
                    ensures("attempt positive", dt > 0.0);
                }
                if k == 0 {
                    ensures("first attempt is the minimum of carried step, time remaining and maximum", dt == self.dt_first);
                } else {
                    reach("second attempt");
                    ensures("at most max(1, iteration limit) attempts", k < sc.max_iter as usize);
                }
            }
            Decide::C06 => {
                if k > 0 {
                    reach("second attempt");
                    ensures("retried step is the resized one", req(dt, resized(sc, n, self.last)));
                    if self.pos {
                        ensures("an attempt that met no tolerance makes the next one smaller", err_abs(n, self.last) <= sc.atol || dt < self.last);
                    }
                }
            }
            Decide::C07 | Decide::Nothing => {}
        }
        self.n_att = k + 1;
        self.last = dt;
        (lo(n, dt), hi(n, dt))
    }
}
impl BareClone for AttSys {
    fn bare_clone(&self) -> Self {
        let mut new = self.clone();
        new.b = self.b.bare_clone();
        new
    }
}
impl HasStates for AttSys {
    fn states(&self) -> Vec<f64> {
        self.b.states()
    }
    fn set_states(&mut self, val: Vec<f64>) {
        self.b.set_states(val)
    }
    fn step_states_by_dt(&mut self, dt: &f64) {
        self.b.step_states_by_dt(dt)
    }
    fn step_states(&mut self, val: Vec<f64>) {
        self.b.step_states(val)
    }
    fn derivs(&self) -> Vec<f64> {
        self.b.derivs()
    }
    fn set_derivs(&mut self, val: &[f64]) {
        self.b.set_derivs(val)
    }
    fn step_derivs(&mut self, val: Vec<f64>) {
        self.b.step_derivs(val)
    }
    fn storages(&self) -> Vec<f64> {
        self.b.storages()
    }
}
impl SolverBase for AttSys {
    fn reset_derivs(&mut self) {
        self.b.reset_derivs()
    }
    fn update_derivs(&mut self) {
        self.b.update_derivs()
    }
    fn step_time(&mut self, dt: &f64) {
        self.b.step_time(dt)
    }
    fn sc(&self) -> Option<&AdaptiveSolverConfig> {
        self.b.sc()
    }
    fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> {
        self.b.sc_mut()
    }
    fn state(&self) -> &SystemState {
        self.b.state()
    }
}
impl SolverVariantMethods for AttSys {
    fn rk23_bogacki_shampine_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.attempt(dt)
    }
    fn rk45_cash_karp_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.attempt(dt)
    }
}
/// an arbitrary system whose attempts are replaced by their contract (C02, C03 and the attempt roots of C11)
fn plain(rk45: bool) -> AttSys {
    let b = adaptive_sys(rk45);
    AttSys { what: Decide::Nothing, pos: false, t0: b.state.time, x0: b.x.clone(), dt_first: 0.0, remaining: 0.0, n_att: 0, last: 0.0, carried: 0.0, b }
}
/// one adaptive step of the real accept/resize loop, with the obligations of one property
fn step(what: Decide, rk45: bool, pos: bool) {
    let mut sc = any_config(if what == Decide::C07 { any_history() } else { SolverStateHistoryVec::default() });
    if pos {
        // positive tolerances, positive carried step
        sc.atol = any_pos("atol");
        sc.rtol = any_pos("rtol");
        sc.state.dt = any_pos("dt0");
    }
    if pos || what == Decide::C05 {
        sc.dt_max = any_pos("dt_max");
    }
    let remaining = if pos || what == Decide::C05 { any_pos("remaining") } else { any_f64("remaining") };
    let (dt0, dmax) = (sc.state.dt, sc.dt_max);
    let first = dt0.min(remaining).min(dmax);
    let n = any_len("n");
    if native() {
        // ties are as likely as anything else
        if pos || first != 0.0 {
            let (e, m) = (err_abs(n, first), norm2(&hi(n, first)));
            if any_bool("tie atol") && e > 0.0 {
                sc.atol = e;
            }
            if any_bool("tie rtol") && e > 0.0 && m > 0.0 {
                sc.rtol = e / m;
            }
        }
    }
    let b = AbsSys::any_with(n, if rk45 { SolverTypes::RK45CashKarp(Box::new(sc)) } else { SolverTypes::RK23BogackiShampine(Box::new(sc)) });
    let old = b.copy();
    let mut s = AttSys { what, pos, t0: b.state.time, x0: b.x.clone(), dt_first: first, remaining, n_att: 0, last: 0.0, carried: dt0, b };
    let p = &s as *const AttSys;
    // candidate loop invariants (each is checked at entry and after every iteration; one that does
    // not hold is discarded, never assumed)
    loop_inv("attempts made = n_iter", move || unsafe { (*p).n_att == (*p).b.sc().unwrap().state.n_iter as usize });
    loop_inv("last attempt not acceptable", move || unsafe { (*p).n_att == 0 || !acceptable((*p).b.sc().unwrap(), (*p).b.x.len(), (*p).last, (*p).n_att) });
    loop_inv_over("step size before the first attempt", move |v| unsafe { (*p).n_att > 0 || v == (*p).dt_first });
    loop_inv_over("step size is the resized one", move |v| unsafe { (*p).n_att == 0 || v == resized((*p).b.sc().unwrap(), (*p).b.x.len(), (*p).last) });
    loop_inv_over("step size positive, bounded by the first", move |v| unsafe { 0.0 < v && v <= (*p).dt_first });
    loop_inv_over("step size smaller than the last", move |v| unsafe { (*p).n_att == 0 || v < (*p).last || err_abs((*p).b.x.len(), (*p).last) <= (*p).b.sc().unwrap().atol });
    loop_inv_over("step size bounded by the first", move |v| unsafe { v <= (*p).dt_first || v <= 0.0 });
    loop_inv_over("step size bounded by zero or the first", move |v| unsafe { v <= 0.0 || (*p).dt_first > 0.0 });
    loop_inv("last step size positive", move || unsafe { (*p).n_att == 0 || 0.0 < (*p).last });
    let ret = if rk45 { s.rk45_cash_karp(&remaining) } else { s.rk23_bogacki_shampine(&remaining) };
    no_loop_inv();
    reach("step done");
    let h = s.last;
    if native() {
        in_range(h);
    }
    let sc = s.b.sc().unwrap();
    let osc = old.sc().unwrap();
    match what {
        Decide::C04 => {
            ensures("states move by the higher-order increments of the last attempt", seq_eq(&s.b.x, &axpy(&old.x, 1.0, &hi(n, h))));
            ensures("time moves by the last attempt's step size", req(s.b.state.time, old.state.time + h));
            ensures("the step size used is returned", ret == h);
            ensures("the committed attempt is acceptable", acceptable(osc, n, h, s.n_att));
            ensures("an attempt was made", s.n_att >= 1);
        }
        Decide::C05 => {
            ensures("committed step at most the time remaining", ret <= remaining);
            ensures("committed step at most the maximum", ret <= dmax);
            if pos {
                ensures("committed step positive", ret > 0.0);
            }
            ensures("at most max(1, iteration limit) attempts", s.n_att == 1 || s.n_att <= osc.max_iter as usize);
        }
        Decide::C06 => {
            let want = resized(osc, n, h);
            ensures("carried step is the resized one", req(sc.state.dt, want));
            if !pos {
                reach("any step");
            } else if err_abs(n, h) <= osc.atol || meets_tolerance(osc, n, h) {
                reach("met tolerance");
                ensures("a step that met a tolerance never makes the next one smaller", sc.state.dt >= h);
            } else {
                reach("met no tolerance");
                ensures("a step that met no tolerance makes the next one smaller", sc.state.dt < h);
            }
        }
        Decide::Nothing => {}
        Decide::C07 => {
            let d = &sc.state;
            ensures("n_iter is the number of attempts", d.n_iter as usize == s.n_att);
            ensures("norm_err is the committed attempt's", match d.norm_err { Some(e) => req(e, err_abs(n, h)), None => false });
            ensures("norm_err_rel is the committed attempt's", match (d.norm_err_rel, err_rel(n, h)) {
                (Some(a), Some(b)) => req(a, b),
                (None, None) => true,
                _ => false,
            });
            ensures("t_curr is the time at the start of the step", d.t_curr == old.state.time);
            let (new, was) = (&sc.history, &osc.history);
            let m = was.dt.len();
            if osc.save {
                reach("saving");
                ensures("exactly one record appended", new.dt.len() == m + 1 && new.n_iter.len() == m + 1 && new.norm_err.len() == m + 1 && new.norm_err_rel.len() == m + 1 && new.t_curr.len() == m + 1 && new.states.len() == m + 1);
                ensures("record holds the step size used", new.dt[m] == h);
                ensures("record holds the number of attempts", new.n_iter[m] == d.n_iter);
                ensures("record holds the absolute error", new.norm_err[m] == d.norm_err);
                ensures("record holds the relative error", new.norm_err_rel[m] == d.norm_err_rel);
                ensures("record holds the time at the start of the step", new.t_curr[m] == old.state.time);
                if osc.save_states {
                    reach("saving states");
                    ensures("record holds the states reached", seq_eq(&new.states[m], &s.b.x));
                }
                ensures("earlier records unchanged", same_seq(&new.dt[..m], &was.dt) && same_seq(&new.n_iter[..m], &was.n_iter) && same_seq(&new.norm_err[..m], &was.norm_err) && same_seq(&new.norm_err_rel[..m], &was.norm_err_rel) && same_seq(&new.t_curr[..m], &was.t_curr) && same_seq(&new.states[..m], &was.states));
            } else {
                reach("not saving");
                ensures("nothing is appended", same_records(new, was));
            }
        }
    }
}
pub mod roots {
    use super::*;
    use dess::prelude::*;

    pub fn c02_attempt() {
        let mut s = adaptive_sys(false);
        let (old, h) = (s.copy(), any_f64("h"));
        let (lo, hi) = s.rk23_bogacki_shampine_step(h);
        attempt_leaves(&s, &old);
        let (l, u) = bs23(&old, h);
        ensures("third-order increments follow the tableau", seq_eq(&hi, &u));
        ensures("embedded second-order increments follow the tableau", seq_eq(&lo, &l));
    }
    pub fn c03_attempt() {
        let mut s = adaptive_sys(true);
        let (old, h) = (s.copy(), any_f64("h"));
        let (lo, hi) = s.rk45_cash_karp_step(h);
        attempt_leaves(&s, &old);
        let (l, u) = ck45(&old, h);
        ensures("fifth-order increments follow the tableau", seq_eq(&hi, &u));
        ensures("embedded fourth-order increments follow the tableau", seq_eq(&lo, &l));
    }
    pub fn c04_rk23() {
        step(Decide::C04, false, false);
    }
    pub fn c04_rk45() {
        step(Decide::C04, true, false);
    }
    pub fn c05_rk23() {
        step(Decide::C05, false, true);
    }
    pub fn c05_rk23_any_sign() {
        step(Decide::C05, false, false);
    }
    pub fn c05_rk45() {
        step(Decide::C05, true, true);
    }
    pub fn c05_rk45_any_sign() {
        step(Decide::C05, true, false);
    }
    pub fn c06_rk23() {
        step(Decide::C06, false, true);
    }
    pub fn c06_rk23_any_sign() {
        step(Decide::C06, false, false);
    }
    pub fn c06_rk45() {
        step(Decide::C06, true, true);
    }
    pub fn c06_rk45_any_sign() {
        step(Decide::C06, true, false);
    }
    pub fn c07_rk23() {
        step(Decide::C07, false, false);
    }
    pub fn c07_rk45() {
        step(Decide::C07, true, false);
    }
    pub fn c07_dt_mean() {
        let sc = any_config(any_history());
        let d = sc.history.dt.clone();
        reach("mean");
        match sc.dt_mean() {
            Some(m) => ensures("mean of the recorded steps", d.len() > 0 && req(m * d.len() as f64, d.iter().sum::<f64>())),
            None => ensures("absent without records", d.len() == 0),
        }
    }
    pub fn c10_rk23() {
        let mut s = plain(false);
        s.rk23_bogacki_shampine(&any_f64("remaining"));
        s.b.ensure_consistent();
    }
    pub fn c10_rk45() {
        let mut s = plain(true);
        s.rk45_cash_karp(&any_f64("remaining"));
        s.b.ensure_consistent();
    }
    pub fn c11_rk23() {
        let mut s = plain(false);
        let old = s.b.copy();
        s.rk23_bogacki_shampine(&any_f64("remaining"));
        s.b.ensure_frame(&old);
    }
    pub fn c11_rk45() {
        let mut s = plain(true);
        let old = s.b.copy();
        s.rk45_cash_karp(&any_f64("remaining"));
        s.b.ensure_frame(&old);
    }
    pub fn c11_rk23_attempt() {
        let mut s = adaptive_sys(false);
        let old = s.copy();
        s.rk23_bogacki_shampine_step(any_f64("h"));
        attempt_leaves(&s, &old);
    }
    pub fn c11_rk45_attempt() {
        let mut s = adaptive_sys(true);
        let old = s.copy();
        s.rk45_cash_karp_step(any_f64("h"));
        attempt_leaves(&s, &old);
    }
}
