//! feature: nets needs types
//! C16: the real thermal components, `connect_states!`/`update_derivs!` and the right-hand sides of the
//! example systems.  The flow and rate laws are contracts of one connection between any two kinds of
//! component (any derivatives left by earlier connections); whole networks are checked on the real
//! systems and on a network with parallel, cyclic, reversed and reservoir-to-reservoir connections.
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};

/// equality of reals; natively up to rounding relative to the size of the summed terms
fn balanced(a: f64, b: f64, size: f64) -> bool {
    req(a, b) || native() && (a - b).abs() <= 1e-9 * size.abs()
}
/// two components and their connection
#[derive(Clone, PartialEq)]
pub struct Pair<A, B> {
    pub a: A,
    pub b: B,
    pub k: Conductance,
}
/// what the contracts need to know about a component
pub trait Thermal: HasState + Clone + PartialEq {
    fn temp(&self) -> f64;
    fn rate(&self) -> f64;
    fn set_rate(&mut self, d: f64);
    /// heat capacity; None for a reservoir
    fn capacity(&self) -> Option<f64>;
}
impl Thermal for ThermalMass {
    fn temp(&self) -> f64 {
        self.state.temp
    }
    fn rate(&self) -> f64 {
        self.state.dtemp
    }
    fn set_rate(&mut self, d: f64) {
        self.state.dtemp = d;
    }
    fn capacity(&self) -> Option<f64> {
        Some(self.c)
    }
}
impl Thermal for ThermalReservoir {
    fn temp(&self) -> f64 {
        self.state.temp
    }
    fn rate(&self) -> f64 {
        self.state.dtemp
    }
    fn set_rate(&mut self, d: f64) {
        self.state.dtemp = d;
    }
    fn capacity(&self) -> Option<f64> {
        None
    }
}
/// rate change a flow `q` into the component causes
fn caused<T: Thermal>(c: &T, q: f64) -> f64 {
    match c.capacity() {
        Some(c) => q / c,
        None => 0.0,
    }
}
fn connection<A: Thermal, B: Thermal>(mut p: Pair<A, B>) {
    let old = p.clone();
    // the flow
    connect_states!(p, (a, b, k));
    let q = old.k.h * (old.a.temp() - old.b.temp());
    ensures("the flow is the conductance times the temperature difference, from first to second", req(p.k.flow(), q));
    let mut want = old.clone();
    want.k.state.q = p.k.state.q;
    ensures("setting the flow changes nothing else", same(&p.a, &want.a) && same(&p.b, &want.b) && same(&p.k, &want.k));
    // its contribution to the rates
    let q = p.k.flow();
    let held = p.clone();
    update_derivs!(p, (a, b, k));
    ensures("the flow leaves the first component", req(p.a.rate(), held.a.rate() - caused(&held.a, q)));
    ensures("the flow enters the second component", req(p.b.rate(), held.b.rate() + caused(&held.b, q)));
    if let (Some(ca), Some(cb)) = (held.a.capacity(), held.b.capacity()) {
        reach("mass to mass");
        ensures("a connection between masses adds no energy", balanced(ca * (p.a.rate() - held.a.rate()), -(cb * (p.b.rate() - held.b.rate())), ca * held.a.rate().abs() + cb * held.b.rate().abs() + q.abs()));
    }
    let mut want = held.clone();
    want.a.set_rate(p.a.rate());
    want.b.set_rate(p.b.rate());
    ensures("updating the rates changes nothing else", same(&p.a, &want.a) && same(&p.b, &want.b) && same(&p.k, &want.k));
    reach("connected");
}
/// reversing a connection reverses its flow and leaves the rates as they were
fn reversed() {
    let mut p = Pair { a: any_mass(), b: any_mass(), k: any_conductance() };
    let mut r = Pair { a: p.b.clone(), b: p.a.clone(), k: p.k.clone() };
    connect_states!(p, (a, b, k));
    connect_states!(r, (a, b, k));
    update_derivs!(p, (a, b, k));
    update_derivs!(r, (a, b, k));
    ensures("the reversed flow is the opposite", req(p.k.flow(), -r.k.flow()));
    ensures("the rates do not depend on the direction", req(p.a.rate(), r.b.rate()) && req(p.b.rate(), r.a.rate()));
    reach("reversed");
}
/// the components' own accessors
fn mass() {
    let mut m = any_mass();
    let mut want = m.clone();
    ensures("a mass's state is its temperature", m.state() == m.state.temp);
    ensures("a mass's derivative is its temperature rate", m.deriv() == m.state.dtemp);
    ensures("a mass's storage is its heat capacity", m.storage() == m.c);
    let x = any_f64("x");
    m.set_state(x);
    want.state.temp = x;
    ensures("setting the state sets the temperature only", same(&m, &want));
    m.set_deriv(x);
    want.state.dtemp = x;
    ensures("setting the derivative sets the rate only", same(&m, &want));
    let y = any_f64("y");
    m.step_deriv(y);
    ensures("stepping the derivative adds to the rate", req(m.state.dtemp, x + y));
    want.state.dtemp = m.state.dtemp;
    ensures("stepping the derivative changes nothing else", same(&m, &want));
    let h = any_f64("h");
    m.step_state_by_dt(&h);
    ensures("a mass's temperature moves by h times its rate", req(m.state.temp, x + h * (x + y)));
    reach("mass");
}
fn reservoir() {
    let mut r = any_reservoir();
    let mut want = r.clone();
    ensures("a reservoir's state is its temperature", r.state() == r.state.temp);
    ensures("a reservoir's storage is infinite", r.storage() == f64::INFINITY);
    let x = any_f64("x");
    r.set_state(x);
    want.state.temp = x;
    ensures("setting the state sets the temperature only", same(&r, &want));
    r.set_deriv(x);
    want.state.dtemp = 0.0;
    ensures("the rate of a reservoir cannot be set", same(&r, &want));
    let q = any_f64("q");
    r.step_deriv(q / r.storage());
    let h = any_f64("h");
    r.step_state_by_dt(&h);
    ensures("no flow changes a reservoir", req(r.state.temp, x) && req(r.state.dtemp, 0.0));
    reach("reservoir");
}
/// masses a, b, c, d in a ring with a chord and a doubled edge, two reservoirs
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        connect_states!(self, (a, b, ab), (b, c, bc), (c, d, cd), (d, a, da), (c, a, ca), (a, b, ab2), (r, a, ra), (c, s, cs), (r, s, rs));
        update_derivs!(self, (a, b, ab), (b, c, bc), (c, d, cd), (d, a, da), (c, a, ca), (a, b, ab2), (r, a, ra), (c, s, cs), (r, s, rs));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Ring {
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: ThermalMass,
    #[use_state]
    pub b: ThermalMass,
    #[save_state]
    pub ab: Conductance,
    #[use_state]
    pub r: ThermalReservoir,
    #[save_state]
    pub bc: Conductance,
    pub cd: Conductance,
    #[use_state]
    pub c: ThermalMass,
    #[save_state]
    pub da: Conductance,
    #[use_state]
    pub s: ThermalReservoir,
    #[use_state]
    pub d: ThermalMass,
    #[save_state]
    pub ca: Conductance,
    pub ab2: Conductance,
    #[save_state]
    pub ra: Conductance,
    #[save_state]
    pub cs: Conductance,
    #[save_state]
    pub rs: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
pub fn any_ring() -> Ring {
    Ring {
        solver_type: any_solver(),
        a: any_mass(),
        b: any_mass(),
        ab: any_conductance(),
        r: any_reservoir(),
        bc: any_conductance(),
        cd: any_conductance(),
        c: any_mass(),
        da: any_conductance(),
        s: any_reservoir(),
        d: any_mass(),
        ca: any_conductance(),
        ab2: any_conductance(),
        ra: any_conductance(),
        cs: any_conductance(),
        rs: any_conductance(),
        t_report: any_vec("t_report", any_len("m")),
        state: any_sys_state(),
        history: any_sys_hist(),
    }
}
/// flow law, rate law, energy balance and frame of one evaluation of the right-hand side.
/// connections are (first, second, conductance); a mass lists its inflows and outflows
macro_rules! network {
    ($f:ident, $any:expr, [$($e:ident: $e0:ident - $e1:ident),+], [$($m:ident: [$($in:ident)*] [$($out:ident)*]),+], [$($r:ident),*], [$($from:ident)*] [$($to:ident)*], [$($given:ident),*]) => {
        fn $f() {
            let mut s = $any;
            let old = s.clone();
            s.update_derivs();
            $(ensures("each flow is its conductance times the temperature difference, from first to second", req(s.$e.flow(), s.$e.h * (s.$e0.state.temp - s.$e1.state.temp)));)+
            $(ensures("each rate is the inflows minus the outflows over the heat capacity", balanced(s.$m.deriv() * s.$m.c, 0.0 $(+ s.$in.flow())* $(- s.$out.flow())*, 0.0 $(+ s.$in.flow().abs())* $(+ s.$out.flow().abs())*));)+
            $(ensures("a reservoir's rate is zero", req(s.$r.deriv(), 0.0));)*
            let size = 0.0 $(+ s.$e.flow().abs())+;
            ensures("the capacity-weighted sum of rates is the net flow from reservoirs", balanced(0.0 $(+ s.$m.c * s.$m.deriv())+, 0.0 $(+ s.$from.flow())* $(- s.$to.flow())*, size));
            let mut want = old;
            $(want.$e.state.q = s.$e.state.q;)+
            $(want.$m.state.dtemp = s.$m.state.dtemp;)+
            $(want.$r.state.dtemp = s.$r.state.dtemp;)*
            $(want.$given.state.temp = s.$given.state.temp;)*
            ensures("evaluating the right-hand side changes flows and rates only", same(&s, &want));
            reach("evaluated");
        }
    };
}
network!(net_3tm, any_3tm(any_solver()), [h12: m1 - m2, h23: m2 - m3], [m1: [] [h12], m2: [h12] [h23], m3: [h23] []], [], [] [], []);
network!(net_3tm_bc, any_3tm_bc(any_solver()), [h12: m1 - m2, h23: m2 - m3], [m2: [h12] [h23], m3: [h23] []], [m1], [h12] [], [m1]);
network!(
    net_ring,
    any_ring(),
    [ab: a - b, bc: b - c, cd: c - d, da: d - a, ca: c - a, ab2: a - b, ra: r - a, cs: c - s, rs: r - s],
    [a: [da ca ra] [ab ab2], b: [ab ab2] [bc], c: [bc] [cd ca cs], d: [cd] [da]],
    [r, s],
    [ra] [cs],
    []
);
/// energy over one Euler step
fn euler_closed() {
    let mut s = any_3tm(any_solver());
    let old = s.clone();
    let h = any_f64("h");
    s.euler(&h);
    let size = s.m1.c * s.m1.state.temp.abs() + s.m2.c * s.m2.state.temp.abs() + s.m3.c * s.m3.state.temp.abs() + 1.0;
    ensures(
        "an Euler step keeps the total energy of a network without reservoirs",
        balanced(s.m1.c * s.m1.state.temp + s.m2.c * s.m2.state.temp + s.m3.c * s.m3.state.temp, old.m1.c * old.m1.state.temp + old.m2.c * old.m2.state.temp + old.m3.c * old.m3.state.temp, size),
    );
    reach("stepped");
}
fn euler_open() {
    let mut s = any_ring();
    let old = s.clone();
    let h = any_f64("h");
    s.euler(&h);
    let gained = s.a.c * (s.a.state.temp - old.a.state.temp) + s.b.c * (s.b.state.temp - old.b.state.temp) + s.c.c * (s.c.state.temp - old.c.state.temp) + s.d.c * (s.d.state.temp - old.d.state.temp);
    let size = s.a.c * s.a.state.temp.abs() + s.b.c * s.b.state.temp.abs() + s.c.c * s.c.state.temp.abs() + s.d.c * s.d.state.temp.abs() + 1.0;
    let given = h * (old.ra.h * (old.r.state.temp - old.a.state.temp) - old.cs.h * (old.c.state.temp - old.s.state.temp));
    ensures("an Euler step adds exactly the net flow from reservoirs times h", balanced(gained, given, size));
    ensures("no flow changes the temperature of a reservoir", req(s.r.state.temp, old.r.state.temp) && req(s.s.state.temp, old.s.state.temp));
    reach("stepped");
}

pub mod roots {
    use super::*;
    pub fn c16_components() {
        mass();
        reservoir();
    }
    pub fn c16_mass_to_mass() {
        connection(Pair { a: any_mass(), b: any_mass(), k: any_conductance() })
    }
    pub fn c16_reservoir_to_mass() {
        connection(Pair { a: any_reservoir(), b: any_mass(), k: any_conductance() })
    }
    pub fn c16_mass_to_reservoir() {
        connection(Pair { a: any_mass(), b: any_reservoir(), k: any_conductance() })
    }
    pub fn c16_reservoir_to_reservoir() {
        connection(Pair { a: any_reservoir(), b: any_reservoir(), k: any_conductance() })
    }
    pub fn c16_reversed() {
        reversed()
    }
    pub fn c16_system3tm() {
        net_3tm()
    }
    pub fn c16_system3tm_bc() {
        net_3tm_bc()
    }
    pub fn c16_ring() {
        net_ring()
    }
    pub fn c16_euler_closed() {
        euler_closed()
    }
    pub fn c16_euler_open() {
        euler_open()
    }
}
