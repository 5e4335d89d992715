//! feature: histories needs types adaptive
//! C12 (history containers), C13 (save_state), C14 (bare_clone): the code generated by the real
//! `HistoryVec`, `HistoryMethods` and `BareClone` derives, for the real record and system types of
//! dess and dess-examples and for the representative types of `types`.
use crate::abs::same_conf;
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thrml_mass_w_bc_sys::SystemState3TMHistoryVec;

/// postconditions of every operation of the history container of one record type
macro_rules! container {
    ($m:ident, $state:ty, $hist:ty, $any_hist:expr, $any_state:expr, [$($f:ident),+]) => {
        pub mod $m {
            use super::*;
            fn fields_equal(a: &$hist, b: &$hist) -> bool {
                $(same(&a.$f, &b.$f))&&+
            }
            pub fn empty() {
                let h = <$hist>::new();
                $(ensures("a new container is empty in every field", h.$f.len() == 0);)+
                ensures("a new container has length 0", h.len() == 0 && h.is_empty());
                let d = <$hist as Default>::default();
                $(ensures("a default container is empty in every field", d.$f.len() == 0);)+
                reach("new");
            }
            pub fn push() {
                let mut h: $hist = $any_hist;
                let old = h.clone();
                let v: $state = $any_state;
                h.push(v.clone());
                let mut want = old.clone();
                $(want.$f.push(v.$f.clone());)+
                ensures("push appends every field of the record and keeps the earlier ones", fields_equal(&h, &want));
                ensures("push adds one to the length", h.len() == old.len() + 1 && !h.is_empty());
                $(ensures("all fields have equal length after push", h.$f.len() == h.len());)+
                reach("push");
            }
            pub fn pop() {
                let mut h: $hist = $any_hist;
                let old = h.clone();
                let n = old.len();
                match h.pop() {
                    None => {
                        reach("pop of empty");
                        ensures("pop returns nothing only when empty", n == 0);
                        ensures("pop of an empty container changes nothing", fields_equal(&h, &old));
                    }
                    Some(r) => {
                        reach("pop of record");
                        ensures("pop returns a record only when there is one", n > 0);
                        $(ensures("pop returns every field of the last record", same(&r.$f, &old.$f[n - 1]));)+
                        let mut want = old.clone();
                        $(want.$f.truncate(n - 1);)+
                        ensures("pop removes the last record and keeps the earlier ones", fields_equal(&h, &want));
                    }
                }
                $(ensures("all fields have equal length after pop", h.$f.len() == h.len());)+
            }
            pub fn clear() {
                let mut h: $hist = $any_hist;
                h.clear();
                $(ensures("clear empties every field", h.$f.len() == 0);)+
                ensures("a cleared container is empty", h.len() == 0 && h.is_empty());
                reach("clear");
            }
            pub fn length() {
                let h: $hist = $any_hist;
                let old = h.clone();
                $(ensures("len is the number of records", h.len() == old.$f.len());)+
                ensures("is_empty means no records", h.is_empty() == (h.len() == 0));
                ensures("asking for the length changes nothing", fields_equal(&h, &old));
                reach("length");
            }
            pub fn all() {
                empty();
                push();
                pop();
                clear();
                length();
            }
        }
    };
}
container!(system_state, SystemState, SystemStateHistoryVec, any_sys_hist(), any_sys_state(), [i, time]);
container!(solver_state, SolverState, SolverStateHistoryVec, any_solver_hist(), crate::adaptive::any_config(SolverStateHistoryVec::default()).state, [dt, n_iter, norm_err, norm_err_rel, t_curr, states]);
container!(thermal_state, ThermalMassState, ThermalMassStateHistoryVec, any_thermal_hist(), any_thermal_state(), [temp, dtemp]);
container!(conductance_state, ConductanceState, ConductanceStateHistoryVec, any_conductance().history, any_conductance().state, [q]);
container!(record5, PState, PStateHistoryVec, any_phist(), any_pstate(), [x, dx, y, n, on]);
container!(record_names, OState, OStateHistoryVec, any_ohist(), any_ostate(), [pop, len, value, history, state]);
container!(record1, LState, LStateHistoryVec, any_link().history, any_link().state, [w]);
/// a record type with private fields: records can only be taken from one container and put into another
fn private_record() {
    let mut h = any_3tm_hist();
    let old = h.clone();
    let n = old.len();
    ensures("len is the number of records", n == old.i.len() && n == old.time.len() && h.is_empty() == (n == 0));
    let fresh = SystemState3TMHistoryVec::new();
    ensures("a new container is empty", fresh.i.len() == 0 && fresh.time.len() == 0 && fresh.is_empty() && same(&fresh, &SystemState3TMHistoryVec::default()));
    match h.pop() {
        None => {
            reach("empty");
            ensures("pop returns nothing only when empty and changes nothing", n == 0 && same(&h, &old));
        }
        Some(r) => {
            reach("popped");
            ensures("pop removes the last record only", n > 0 && h.len() == n - 1 && same(&h.i, &old.i[..n - 1].to_vec()) && same(&h.time, &old.time[..n - 1].to_vec()));
            h.push(r);
            ensures("pushing the record popped restores the container", same(&h, &old));
            let mut g = any_3tm_hist();
            let before = g.clone();
            g.push(r);
            let mut want = before;
            want.i.push(old.i[n - 1]);
            want.time.push(old.time[n - 1]);
            ensures("pop and push carry every field of the record", same(&g, &want));
        }
    }
    h.clear();
    ensures("clear empties every field", h.i.len() == 0 && h.time.len() == 0);
}

pub fn saved_node(n: &Node) -> Node {
    let mut w = n.clone();
    w.history.x.push(n.state.x);
    w.history.dx.push(n.state.dx);
    w.history.y.push(n.state.y);
    w.history.n.push(n.state.n);
    w.history.on.push(n.state.on);
    w
}
pub fn saved_link(n: &Link) -> Link {
    let mut w = n.clone();
    w.history.w.push(n.state.w);
    w
}
pub fn saved_mass(n: &ThermalMass) -> ThermalMass {
    let mut w = n.clone();
    w.history.temp.push(n.state.temp);
    w.history.dtemp.push(n.state.dtemp);
    w
}
pub fn saved_reservoir(n: &ThermalReservoir) -> ThermalReservoir {
    let mut w = n.clone();
    w.history.temp.push(n.state.temp);
    w.history.dtemp.push(n.state.dtemp);
    w
}
pub fn saved_conductance(n: &Conductance) -> Conductance {
    let mut w = n.clone();
    w.history.q.push(n.state.q);
    w
}
pub fn saved_group(n: &Group) -> Group {
    let mut w = n.clone();
    w.l1 = saved_link(&n.l1);
    w.n1 = saved_node(&n.n1);
    w.history.w.push(n.state.w);
    w
}
pub fn saved_bundle(n: &Bundle) -> Bundle {
    let mut w = n.clone();
    w.l1 = saved_link(&n.l1);
    w.g1 = saved_group(&n.g1);
    w
}
/// everything of a configuration but the diagnostics record, which a clone may or may not carry
fn bare_conf(new: &SolverTypes, old: &SolverTypes) -> bool {
    same_conf(new, old)
        && match (new, old) {
            (SolverTypes::RK23BogackiShampine(a), SolverTypes::RK23BogackiShampine(b)) => a.state.dt == b.state.dt,
            (SolverTypes::RK45CashKarp(a), SolverTypes::RK45CashKarp(b)) => a.state.dt == b.state.dt,
            _ => true,
        }
}
pub fn bare_node(n: &Node) -> Node {
    Node { history: Default::default(), ..n.clone() }
}
pub fn bare_link(n: &Link) -> Link {
    Link { history: Default::default(), ..n.clone() }
}
pub fn bare_mass(n: &ThermalMass) -> ThermalMass {
    ThermalMass { history: Default::default(), ..n.clone() }
}
pub fn bare_reservoir(n: &ThermalReservoir) -> ThermalReservoir {
    ThermalReservoir { history: Default::default(), ..n.clone() }
}
pub fn bare_conductance(n: &Conductance) -> Conductance {
    Conductance { history: Default::default(), ..n.clone() }
}
pub fn bare_group(n: &Group) -> Group {
    Group { l1: bare_link(&n.l1), n1: bare_node(&n.n1), history: Default::default(), ..n.clone() }
}
pub fn bare_bundle(n: &Bundle) -> Bundle {
    Bundle { l1: bare_link(&n.l1), g1: bare_group(&n.g1), ..n.clone() }
}
pub fn step_solver_carry(s: &mut SolverTypes) {
    match s {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => {
            c.state.dt = 17.0;
            c.dt_max = 19.0;
            c.state.states.push(3.0);
            let st = c.state.clone();
            c.history.push(st);
        }
        SolverTypes::EulerFixed { dt } | SolverTypes::HeunsMethod { dt } | SolverTypes::MidpointMethod { dt } | SolverTypes::RalstonsMethod { dt } | SolverTypes::RK4Fixed { dt } => *dt = 17.0,
    }
}
pub mod roots {
    use super::*;

    pub fn c12_system_state() {
        system_state::all()
    }
    pub fn c12_solver_state() {
        solver_state::all()
    }
    pub fn c12_thermal_state() {
        thermal_state::all()
    }
    pub fn c12_conductance_state() {
        conductance_state::all()
    }
    pub fn c12_private_record() {
        private_record()
    }
    pub fn c12_record5() {
        record5::all()
    }
    pub fn c12_record1() {
        record1::all()
    }
    pub fn c12_record_names() {
        record_names::all()
    }
    pub fn c13_components() {
        let (mut a, mut b, mut c, mut d, mut e) = (any_mass(), any_reservoir(), any_conductance(), any_node(), any_link());
        let want = (saved_mass(&a), saved_reservoir(&b), saved_conductance(&c), saved_node(&d), saved_link(&e));
        a.save_state();
        b.save_state();
        c.save_state();
        d.save_state();
        e.save_state();
        ensures("ThermalMass: one record appended, nothing else changed", same(&a, &want.0));
        ensures("ThermalReservoir: one record appended, nothing else changed", same(&b, &want.1));
        ensures("Conductance: one record appended, nothing else changed", same(&c, &want.2));
        ensures("representative component: one record appended, nothing else changed", same(&d, &want.3));
        ensures("one-field component: one record appended, nothing else changed", same(&e, &want.4));
        reach("components saved");
    }
    pub fn c13_stateless_container() {
        let mut g = any_bundle();
        let want = saved_bundle(&g);
        g.save_state();
        ensures("container without a state: every declared part records once, nothing else changes", same(&g, &want));
        reach("container saved");
    }
    pub fn c13_mixed_system() {
        let mut s = any_mixed(any_solver());
        let mut want = s.clone();
        want.history.i.push(s.state.i);
        want.history.time.push(s.state.time);
        want.a = saved_node(&s.a);
        want.g = saved_group(&s.g);
        want.b = saved_mass(&s.b);
        want.k = saved_link(&s.k);
        want.c = saved_node(&s.c);
        s.save_state();
        reach("system saved");
        ensures("own history gets one record", same(&s.history, &want.history));
        ensures("every stateful component gets one record", same(&s.a, &want.a) && same(&s.b, &want.b) && same(&s.c, &want.c));
        ensures("every saved component gets one record, recursively", same(&s.g, &want.g) && same(&s.k, &want.k));
        ensures("nothing else changes", same(&s, &want));
    }
    pub fn c13_system3tm() {
        let mut s = any_3tm(any_solver());
        let mut want = s.clone();
        want.history.i.push(s.state.i);
        want.history.time.push(s.state.time);
        want.m1 = saved_mass(&s.m1);
        want.m2 = saved_mass(&s.m2);
        want.m3 = saved_mass(&s.m3);
        want.h12 = saved_conductance(&s.h12);
        want.h23 = saved_conductance(&s.h23);
        s.save_state();
        reach("system saved");
        ensures("one record everywhere, nothing else changed", same(&s, &want));
    }
    pub fn c13_system3tm_bc() {
        let mut s = any_3tm_bc(any_solver());
        let mut want = s.clone();
        want.history.i.push(s.state.i);
        want.history.time.push(s.state.time);
        want.m1 = saved_reservoir(&s.m1);
        want.m2 = saved_mass(&s.m2);
        want.m3 = saved_mass(&s.m3);
        want.h12 = saved_conductance(&s.h12);
        want.h23 = saved_conductance(&s.h23);
        s.save_state();
        reach("system saved");
        ensures("one record everywhere, nothing else changed", same(&s, &want));
    }
    pub fn c14_components() {
        let (a, b, c, d, e, g) = (any_mass(), any_reservoir(), any_conductance(), any_node(), any_link(), any_bundle());
        let old = (a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), g.clone());
        let (a2, b2, c2, d2, e2, g2) = (a.bare_clone(), b.bare_clone(), c.bare_clone(), d.bare_clone(), e.bare_clone(), g.bare_clone());
        reach("components cloned");
        ensures("ThermalMass: same value with empty history", same(&a2, &bare_mass(&a)));
        ensures("ThermalReservoir: same value with empty history", same(&b2, &bare_reservoir(&b)));
        ensures("Conductance: same value with empty history", same(&c2, &bare_conductance(&c)));
        ensures("representative component: same value with empty history", same(&d2, &bare_node(&d)));
        ensures("one-field component: same value with empty history", same(&e2, &bare_link(&e)));
        ensures("container: same value, empty histories in its declared parts", same(&g2, &bare_bundle(&g)));
        ensures("originals unchanged", same(&a, &old.0) && same(&b, &old.1) && same(&c, &old.2) && same(&d, &old.3) && same(&e, &old.4) && same(&g, &old.5));
    }
    pub fn c14_mixed_system() {
        let mut s = any_mixed(any_solver());
        let old = s.clone();
        let mut n = s.bare_clone();
        reach("system cloned");
        ensures("solver kind, fixed step, tolerances and carried step are kept", bare_conf(&n.solver_type, &old.solver_type));
        let want = Mixed {
            history: Default::default(),
            a: bare_node(&old.a),
            g: bare_group(&old.g),
            b: bare_mass(&old.b),
            k: bare_link(&old.k),
            c: bare_node(&old.c),
            solver_type: n.solver_type.clone(),
            ..old.clone()
        };
        ensures("same parameters, states, derivatives, flows, schedule, index and time; empty histories", same(&n, &want));
        ensures("original unchanged", same(&s, &old));
        // nothing is shared: changes to the clone do not show in the original, nor the reverse
        let mid = n.clone();
        n.t_report.push(1.0);
        n.state.time = 5.0;
        n.a.state.x = 7.0;
        n.a.tags.push(1.0);
        n.g.n1.state.x = 9.0;
        step_solver_carry(&mut n.solver_type);
        n.save_state();
        ensures("changes to the clone do not show in the original", same(&s, &old));
        n = mid.clone();
        s.t_report.push(1.0);
        s.a.tags.push(2.0);
        step_solver_carry(&mut s.solver_type);
        s.save_state();
        ensures("changes to the original do not show in the clone", same(&n, &mid));
    }
    pub fn c14_system3tm() {
        let mut s = any_3tm(any_solver());
        let old = s.clone();
        let n = s.bare_clone();
        reach("system cloned");
        ensures("solver kind, fixed step, tolerances and carried step are kept", bare_conf(&n.solver_type, &old.solver_type));
        let mut want = old.clone();
        want.history = Default::default();
        want.m1 = bare_mass(&old.m1);
        want.m2 = bare_mass(&old.m2);
        want.m3 = bare_mass(&old.m3);
        want.h12 = bare_conductance(&old.h12);
        want.h23 = bare_conductance(&old.h23);
        want.solver_type = n.solver_type.clone();
        ensures("same parameters, states, derivatives, flows, schedule, index and time; empty histories", same(&n, &want));
        ensures("original unchanged", same(&s, &old));
        let mid = n.clone();
        s.t_report.push(1.0);
        s.m1.state.temp = 7.0;
        step_solver_carry(&mut s.solver_type);
        s.save_state();
        ensures("changes to the original do not show in the clone", same(&n, &mid));
    }
    pub fn c14_system3tm_bc() {
        let mut s = any_3tm_bc(any_solver());
        let old = s.clone();
        let n = s.bare_clone();
        reach("system cloned");
        ensures("solver kind, fixed step, tolerances and carried step are kept", bare_conf(&n.solver_type, &old.solver_type));
        let mut want = old.clone();
        want.history = Default::default();
        want.m1 = bare_reservoir(&old.m1);
        want.m2 = bare_mass(&old.m2);
        want.m3 = bare_mass(&old.m3);
        want.h12 = bare_conductance(&old.h12);
        want.h23 = bare_conductance(&old.h23);
        want.solver_type = n.solver_type.clone();
        ensures("same parameters, states, derivatives, flows, schedule, index and time; empty histories", same(&n, &want));
        ensures("original unchanged", same(&s, &old));
        let mid = n.clone();
        s.t_report.push(1.0);
        s.m1.state.temp = 7.0;
        step_solver_carry(&mut s.solver_type);
        s.save_state();
        ensures("changes to the original do not show in the clone", same(&n, &mid));
    }
}
