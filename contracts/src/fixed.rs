//! feature: fixed
//! C01, C10, C11 for the five fixed-step methods: real default methods of
//! `dess::solver::SolverVariantMethods` over an arbitrary system.
use crate::abs::*;
use crate::ops::*;
use crate::vrt::*;
use dess::prelude::*;

fn arbitrary(n: usize) -> AbsSys {
    AbsSys::any_with(n, SolverTypes::EulerFixed { dt: any_pos("dt_fixed") })
}
/// postconditions of one fixed step of size h from `old` (C01: tableau; C10; C11)
fn step_map(s: &AbsSys, old: &AbsSys, h: f64, tab: &[Stage], b: &[f64]) {
    reach("step done");
    let ks = rk_stages(old.p, old.state.time, &old.x, h, tab);
    let want = axpy(&old.x, 1.0, &rk_delta(old.x.len(), h, b, &ks));
    ensures("states follow the tableau", seq_eq(&s.x, &want));
    ensures("time advances by exactly h", req(s.state.time, old.state.time + h));
}
pub mod roots {
    use super::*;
    use dess::prelude::*;

    pub fn c01_euler() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.euler(&h);
        step_map(&s, &old, h, &[Stage(0.0, &[])], &[1.0]);
    }
    pub fn c01_heun() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.heun(&h);
        step_map(&s, &old, h, &[Stage(0.0, &[]), Stage(1.0, &[1.0])], &[0.5, 0.5]);
    }
    pub fn c01_midpoint() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.midpoint(&h);
        step_map(&s, &old, h, &[Stage(0.0, &[]), Stage(0.5, &[0.5])], &[0.0, 1.0]);
    }
    pub fn c01_ralston() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.ralston(&h);
        step_map(&s, &old, h, &[Stage(0.0, &[]), Stage(2.0 / 3.0, &[2.0 / 3.0])], &[0.25, 0.75]);
    }
    pub fn c01_rk4() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.rk4fixed(&h);
        step_map(
            &s,
            &old,
            h,
            &[Stage(0.0, &[]), Stage(0.5, &[0.5]), Stage(0.5, &[0.0, 0.5]), Stage(1.0, &[0.0, 0.0, 1.0])],
            &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0],
        );
    }
    pub fn c10_euler() {
        let mut s = arbitrary(any_len("n"));
        let h = any_f64("h");
        s.euler(&h);
        s.ensure_consistent();
    }
    pub fn c10_heun() {
        let mut s = arbitrary(any_len("n"));
        let h = any_f64("h");
        s.heun(&h);
        s.ensure_consistent();
    }
    pub fn c10_midpoint() {
        let mut s = arbitrary(any_len("n"));
        let h = any_f64("h");
        s.midpoint(&h);
        s.ensure_consistent();
    }
    pub fn c10_ralston() {
        let mut s = arbitrary(any_len("n"));
        let h = any_f64("h");
        s.ralston(&h);
        s.ensure_consistent();
    }
    pub fn c10_rk4() {
        let mut s = arbitrary(any_len("n"));
        let h = any_f64("h");
        s.rk4fixed(&h);
        s.ensure_consistent();
    }
    pub fn c11_euler() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.euler(&h);
        s.ensure_frame(&old);
    }
    pub fn c11_heun() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.heun(&h);
        s.ensure_frame(&old);
    }
    pub fn c11_midpoint() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.midpoint(&h);
        s.ensure_frame(&old);
    }
    pub fn c11_ralston() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.ralston(&h);
        s.ensure_frame(&old);
    }
    pub fn c11_rk4() {
        let mut s = arbitrary(any_len("n"));
        let (old, h) = (s.copy(), any_f64("h"));
        s.rk4fixed(&h);
        s.ensure_frame(&old);
    }
}
