//! feature: whole needs systems
//! C10, C11 on systems the `#[solver]` attribute generates: one step of every method on the real systems and
//! on representative ones, the trait default (or whatever the generated code puts in its place) included.
use crate::adaptive::any_config;
use crate::systems::*;
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;

fn any_plain(solver_type: SolverTypes) -> Plain {
    Plain { solver_type, p: any_f64("p"), a: any_node(), b: any_node(), t_report: any_vec("t_report", any_len("m")), state: any_sys_state(), history: any_sys_hist() }
}
fn cfg() -> SolverTypes {
    SolverTypes::EulerFixed { dt: any_pos("dt_fixed") }
}
/// C10: evaluating the right-hand side again, and the flows with it, changes nothing
macro_rules! consistent {
    ($s:ident) => {{
        let mut again = $s.clone();
        again.update_derivs();
        ensures("derivatives and flows are those of the current time and states", same(&again, &$s));
        reach("consistent");
    }};
}
/// C11: adopts states, rates, flows and time and compares the rest
macro_rules! framed {
    ($s:ident, $old:ident, [$($m:ident: $x:ident $dx:ident),+], [$($e:ident),*]) => {{
        let mut want = $old;
        $(want.$m.state.$x = $s.$m.state.$x;
        want.$m.state.$dx = $s.$m.state.$dx;)+
        $(want.$e.state.q = $s.$e.state.q;)*
        want.state.time = $s.state.time;
        ensures("a step changes states, rates, flows and time only", same(&$s, &want));
        reach("framed");
    }};
}
macro_rules! fixed_steps {
    ($modn:ident, $any:expr, $m:tt, $e:tt) => {
        pub mod $modn {
            use super::*;
            fixed_steps!(@ euler, $any, $m, $e);
            fixed_steps!(@ heun, $any, $m, $e);
            fixed_steps!(@ midpoint, $any, $m, $e);
            fixed_steps!(@ ralston, $any, $m, $e);
            fixed_steps!(@ rk4fixed, $any, $m, $e);
        }
    };
    (@ $step:ident, $any:expr, $m:tt, $e:tt) => {
        pub mod $step {
            use super::*;
            pub fn state() {
                let mut s = $any;
                let h = any_f64("h");
                s.$step(&h);
                consistent!(s);
            }
            pub fn frame() {
                let mut s = $any;
                let old = s.clone();
                let h = any_f64("h");
                s.$step(&h);
                framed!(s, old, $m, $e);
            }
        }
    };
}
fixed_steps!(tm, any_3tm(cfg()), [m1: temp dtemp, m2: temp dtemp, m3: temp dtemp], [h12, h23]);
fixed_steps!(bc, any_3tm_bc(cfg()), [m1: temp dtemp, m2: temp dtemp, m3: temp dtemp], [h12, h23]);
fixed_steps!(mixed, any_mixed(cfg()), [a: x dx, b: temp dtemp, c: x dx], []);
fixed_steps!(plain, any_plain(cfg()), [a: x dx, b: x dx], []);

fn adaptive_plain(rk45: bool) -> Plain {
    let sc = Box::new(any_config(SolverStateHistoryVec::default()));
    any_plain(if rk45 { SolverTypes::RK45CashKarp(sc) } else { SolverTypes::RK23BogackiShampine(sc) })
}
fn attempt_consistent(mut s: Plain, rk45: bool) {
    let h = any_f64("h");
    if rk45 {
        s.rk45_cash_karp_step(h);
    } else {
        s.rk23_bogacki_shampine_step(h);
    }
    consistent!(s);
}
fn attempt_frame(mut s: Plain, rk45: bool) {
    let old = s.clone();
    let h = any_f64("h");
    if rk45 {
        s.rk45_cash_karp_step(h);
    } else {
        s.rk23_bogacki_shampine_step(h);
    }
    let mut want = old;
    want.a.state.dx = s.a.state.dx;
    want.b.state.dx = s.b.state.dx;
    ensures("an attempt changes derivatives only", same(&s, &want));
    reach("framed");
}
pub mod roots {
    use super::*;
    pub fn c10_whole_euler() {
        tm::euler::state();
        bc::euler::state();
        mixed::euler::state();
        plain::euler::state();
    }
    pub fn c10_whole_heun() {
        tm::heun::state();
        bc::heun::state();
        mixed::heun::state();
        plain::heun::state();
    }
    pub fn c10_whole_midpoint() {
        tm::midpoint::state();
        bc::midpoint::state();
        mixed::midpoint::state();
        plain::midpoint::state();
    }
    pub fn c10_whole_ralston() {
        tm::ralston::state();
        bc::ralston::state();
        mixed::ralston::state();
        plain::ralston::state();
    }
    pub fn c10_whole_rk4() {
        tm::rk4fixed::state();
        bc::rk4fixed::state();
        mixed::rk4fixed::state();
        plain::rk4fixed::state();
    }
    pub fn c10_whole_rk23_attempt() {
        attempt_consistent(adaptive_plain(false), false);
    }
    pub fn c10_whole_rk45_attempt() {
        attempt_consistent(adaptive_plain(true), true);
    }
    pub fn c11_whole_euler() {
        tm::euler::frame();
        bc::euler::frame();
        mixed::euler::frame();
        plain::euler::frame();
    }
    pub fn c11_whole_heun() {
        tm::heun::frame();
        bc::heun::frame();
        mixed::heun::frame();
        plain::heun::frame();
    }
    pub fn c11_whole_midpoint() {
        tm::midpoint::frame();
        bc::midpoint::frame();
        mixed::midpoint::frame();
        plain::midpoint::frame();
    }
    pub fn c11_whole_ralston() {
        tm::ralston::frame();
        bc::ralston::frame();
        mixed::ralston::frame();
        plain::ralston::frame();
    }
    pub fn c11_whole_rk4() {
        tm::rk4fixed::frame();
        bc::rk4fixed::frame();
        mixed::rk4fixed::frame();
        plain::rk4fixed::frame();
    }
    pub fn c11_whole_rk23_attempt() {
        attempt_frame(adaptive_plain(false), false);
    }
    pub fn c11_whole_rk45_attempt() {
        attempt_frame(adaptive_plain(true), true);
    }
}
