//! feature: pyo3 needs types files dep:pyo3 dess/pyo3 dess-examples/pyo3
//! C20: the methods `#[pyo3_api]` and `#[pymethods]` expose, on the real types and the representative
//! ones.  They are private: the verifier resolves the name Python uses to the method (`walk` to
//! `walk_py`, attribute `m1` to `get_m1`) and executes it; natively the call goes through CPython.
use crate::adaptive::any_config;
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::{System3TMWithBC, SystemState3TMHistoryVec};
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyTuple};

// ------------------------------------------------------------------------------------- calls from Python
pub trait Obj: Clone + pyo3::PyClass + Into<pyo3::PyClassInitializer<Self>> + for<'a> FromPyObject<'a> {}
impl<T: Clone + pyo3::PyClass + Into<pyo3::PyClassInitializer<T>> + for<'a> FromPyObject<'a>> Obj for T {}
/// the memo dictionary `copy.deepcopy` passes
pub struct Memo;
impl IntoPy<PyObject> for Memo {
    fn into_py(self, py: Python<'_>) -> PyObject {
        PyDict::new(py).into()
    }
}
/// a Python `bytes` object
pub struct Bytes(pub Vec<u8>);
impl IntoPy<PyObject> for Bytes {
    fn into_py(self, py: Python<'_>) -> PyObject {
        pyo3::types::PyBytes::new(py, &self.0).into()
    }
}
fn ready() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| pyo3::prepare_freethreaded_python());
}
/// `S(args)`; none if Python raises
#[inline(never)]
pub fn py_new<S: Obj, A: IntoPy<Py<PyTuple>>>(args: A) -> Option<S> {
    ready();
    Python::with_gil(|py| py.get_type::<S>().call1(args).and_then(|o| o.extract()).ok())
}
/// `S.name(args)`
#[inline(never)]
pub fn py_make<S: Obj, A: IntoPy<Py<PyTuple>>>(name: &'static str, args: A) -> Option<S> {
    ready();
    Python::with_gil(|py| py.get_type::<S>().call_method1(name, args).and_then(|o| o.extract()).ok())
}
/// `s.name`
#[inline(never)]
pub fn py_get<S: Obj, T: for<'a> FromPyObject<'a>>(s: &mut S, name: &'static str) -> Option<T> {
    ready();
    Python::with_gil(|py| {
        let o = Py::new(py, s.clone()).unwrap();
        let r = o.as_ref(py).getattr(name).and_then(|v| v.extract()).ok();
        *s = o.extract(py).unwrap();
        r
    })
}
/// `s.name(args)`
#[inline(never)]
pub fn py_call<S: Obj, A: IntoPy<Py<PyTuple>>, T: for<'a> FromPyObject<'a>>(s: &mut S, name: &'static str, args: A) -> Option<T> {
    ready();
    Python::with_gil(|py| {
        let o = Py::new(py, s.clone()).unwrap();
        let r = o.as_ref(py).call_method1(name, args).and_then(|v| v.extract()).ok();
        *s = o.extract(py).unwrap();
        r
    })
}
/// `s.name(args)`, a method that returns nothing; false if Python raises
#[inline(never)]
pub fn py_do<S: Obj, A: IntoPy<Py<PyTuple>>>(s: &mut S, name: &'static str, args: A) -> bool {
    ready();
    Python::with_gil(|py| {
        let o = Py::new(py, s.clone()).unwrap();
        let r = o.as_ref(py).call_method1(name, args).map_or(false, |v| v.is_none());
        *s = o.extract(py).unwrap();
        r
    })
}
/// callee contract: from here on `walk` is some function of the object (its own contracts are C08, C09)
#[inline(never)]
pub fn py_walk_is_a_function() {}

/// the extension module's source, as it stands
#[path = "/repo/dess-examples-pyo3/src/lib.rs"]
pub mod ext;
extern "C" {
    fn PyInit_dess_pyo3() -> *mut pyo3::ffi::PyObject;
}
/// does the extension module, once imported, offer `S` as `name`?
#[inline(never)]
pub fn py_module_has<S: Obj>(name: &'static str, _own_name: &'static str) -> bool {
    static MODULE: std::sync::OnceLock<Option<PyObject>> = std::sync::OnceLock::new();
    ready();
    Python::with_gil(|py| {
        // SAFETY: called once, with the interpreter running and its lock held, as Python's import does
        let m = MODULE.get_or_init(|| unsafe { PyObject::from_owned_ptr_or_opt(py, PyInit_dess_pyo3()) });
        m.as_ref().map_or(false, |m| m.as_ref(py).getattr(name).map_or(false, |c| c.is(py.get_type::<S>())))
    })
}

// ------------------------------------------------------------------------------------- contracts
fn is<T: PartialEq>(name: &str, got: Option<T>, want: &T) {
    match got {
        Some(v) => {
            reach("answered");
            ensures(name, same(&v, want))
        }
        None => ensures(name, false),
    }
}
macro_rules! attributes {
    ($name:ident, $t:ty, $any:expr, [$($f:ident: $ft:ty),*]) => {
        pub fn $name() {
            let mut s: $t = $any;
            let old = s.clone();
            $(is(concat!("attribute `", stringify!($f), "` is the value of that field"), py_get::<$t, $ft>(&mut s, stringify!($f)), &old.$f);)*
            ensures("reading attributes changes nothing", same(&s, &old));
        }
    };
}
fn copies<S: Obj + PartialEq>(mut s: S) {
    let old = s.clone();
    is("__copy__ returns an equal object", py_call::<S, (), S>(&mut s, "__copy__", ()), &old);
    is("__deepcopy__ returns an equal object", py_call::<S, (Memo,), S>(&mut s, "__deepcopy__", (Memo,)), &old);
    is("clone returns an equal object", py_call::<S, (), S>(&mut s, "clone", ()), &old);
    ensures("copying changes nothing", same(&s, &old));
}
fn default_of<S: Obj + Default + PartialEq>() {
    is("default() is the native default", py_make::<S, ()>("default", ()), &S::default());
}
fn texts<S: Obj + PartialEq + SerdeAPI>(mut s: S) {
    let old = s.clone();
    for (name, fmt) in [("to_json", 1u8), ("to_yaml", 2)] {
        match py_call::<S, (), String>(&mut s, name, ()) {
            Some(t) => ensures("to_json and to_yaml encode the whole object", encodes(&t, fmt, &old)),
            None => ensures("to_json and to_yaml do not raise", false),
        }
    }
    ensures("encoding changes nothing", same(&s, &old));
    let c = if native() { vec![codec::encode(1, &s), codec::encode(2, &s), b"{} x".to_vec()] } else { vec![] };
    let t = any_text("json", &c);
    let want = in_text::<S, String>(&t, 1);
    ensures("from_json returns what the codec decodes", same(&py_make::<S, (String,)>("from_json", (t.clone(),)), &want));
    let t = any_text("yaml", &c);
    let want = in_text::<S, String>(&t, 2);
    ensures("from_yaml returns what the codec decodes", same(&py_make::<S, (String,)>("from_yaml", (t.clone(),)), &want));
    match py_call::<S, (), Vec<u8>>(&mut s, "to_bincode", ()) {
        Some(t) => ensures("to_bincode encodes the whole object", encodes(&t, 3, &old)),
        None => ensures("to_bincode does not raise", false),
    }
    let c = if native() { vec![codec::encode(3, &s), b"{} x".to_vec(), codec::encode(1, &s), codec::encode(2, &s)] } else { vec![] };
    let t = any_bytes("bytes", &c);
    let want = in_text::<S, Vec<u8>>(&t, 3);
    ensures("from_bincode returns what the codec decodes", same(&py_make::<S, (Bytes,)>("from_bincode", (Bytes(t.clone()),)), &want));
    reach("texts");
}
fn files<S: Obj + PartialEq + SerdeAPI>(mut s: S) {
    let old = s.clone();
    let c = if native() { vec![codec::encode(1, &s), codec::encode(2, &s), b"{} x".to_vec()] } else { vec![] };
    let file = any_file("file", &c);
    let fmt = wanted_format(&file);
    let fails = save_fails(&file);
    if any_bool("save") {
        let ok = py_do::<S, (String,)>(&mut s, "to_file", (file.clone(),));
        if fmt == 0 {
            ensures("to_file raises for an unsupported name and writes nothing", !ok && files_untouched());
        } else if saving_failed(fails) {
            ensures("to_file raises when saving fails", !ok);
        } else {
            reach("saved");
            ensures("to_file saves the whole object in the format of the extension", ok && holds(&file, fmt, &old));
        }
    } else {
        let r = py_make::<S, (String,)>("from_file", (file.clone(),));
        let want = if fmt == 0 { None } else { in_file::<S>(&file, fmt) };
        reach("loaded");
        ensures("from_file returns what the codec of the extension decodes, else raises", same(&r, &want));
        ensures("from_file writes nothing", files_untouched());
    }
    ensures("no other file is touched", only_touched(&file));
    ensures("the object is unchanged", same(&s, &old));
}
fn decodable_solver(name: &str) -> (String, SolverTypes) {
    let c = if native() { vec![codec::encode(1, &any_solver()), codec::encode(1, &any_solver())] } else { vec![] };
    let t = any_text(name, &c);
    match in_text::<SolverTypes, String>(&t, 1) {
        Some(s) => (t, s),
        None => {
            assume(false);
            loop {}
        }
    }
}
macro_rules! system {
    ($m:ident, $t:ident, $m1:ty, $any_m1:expr, $any:expr) => {
        pub mod $m {
            use super::*;
            type S = $t;
            fn expected(solver_type: SolverTypes, p: (&$m1, &ThermalMass, &Conductance, &ThermalMass, &Conductance, &Vec<f64>)) -> S {
                S { solver_type, m1: p.0.clone(), m2: p.1.clone(), h12: p.2.clone(), m3: p.3.clone(), h23: p.4.clone(), t_report: p.5.clone(), state: SystemState { i: 0, time: 0.0 }, history: SystemStateHistoryVec { i: vec![], time: vec![] } }
            }
            pub fn make() {
                let (m1, m2, h12, m3, h23, t) = ($any_m1, any_mass(), any_conductance(), any_mass(), any_conductance(), any_vec("t_report", any_len("m")));
                let (text, solver) = decodable_solver("solver");
                let got = py_new::<S, (String, $m1, ThermalMass, Conductance, ThermalMass, Conductance, Vec<f64>)>((text.clone(), m1.clone(), m2.clone(), h12.clone(), m3.clone(), h23.clone(), t.clone()));
                is("the constructor puts every argument in its field and starts from zero", got, &expected(solver, (&m1, &m2, &h12, &m3, &h23, &t)));
                let c = any_config(any_solver_hist());
                let got = py_make::<S, (AdaptiveSolverConfig, $m1, ThermalMass, Conductance, ThermalMass, Conductance, Vec<f64>)>("new_rk45_cash_karp", (c.clone(), m1.clone(), m2.clone(), h12.clone(), m3.clone(), h23.clone(), t.clone()));
                is("new_rk45_cash_karp chooses Cash-Karp with the given configuration", got, &expected(SolverTypes::RK45CashKarp(Box::new(c.clone())), (&m1, &m2, &h12, &m3, &h23, &t)));
                let got = py_make::<S, (AdaptiveSolverConfig, $m1, ThermalMass, Conductance, ThermalMass, Conductance, Vec<f64>)>("new_rk23_bogacki_shampine", (c.clone(), m1.clone(), m2.clone(), h12.clone(), m3.clone(), h23.clone(), t.clone()));
                is("new_rk23_bogacki_shampine chooses Bogacki-Shampine with the given configuration", got, &expected(SolverTypes::RK23BogackiShampine(Box::new(c)), (&m1, &m2, &h12, &m3, &h23, &t)));
            }
            attributes!(get, S, $any(any_solver()), [m1: $m1, m2: ThermalMass, h12: Conductance, m3: ThermalMass, h23: Conductance, t_report: Vec<f64>, state: SystemState, history: SystemStateHistoryVec]);
            pub fn solver() {
                let mut s = $any(any_solver());
                let old = s.clone();
                let want = match &old.solver_type {
                    SolverTypes::RK45CashKarp(c) | SolverTypes::RK23BogackiShampine(c) => Some((**c).clone()),
                    _ => None,
                };
                is("attribute `solver_conf` is the adaptive configuration, if there is one", py_get::<S, Option<AdaptiveSolverConfig>>(&mut s, "solver_conf"), &want);
                match py_get::<S, String>(&mut s, "solver_type") {
                    Some(t) => ensures("attribute `solver_type` is the JSON text of the solver", encodes(&t, 1, &old.solver_type)),
                    None => ensures("attribute `solver_type` does not raise", false),
                }
                ensures("reading attributes changes nothing", same(&s, &old));
            }
            pub fn walk() {
                let mut s = $any(any_solver());
                if native() {
                    // a run that ends soon
                    s.t_report = vec![0.0, 0.5, 1.0, 1.5];
                    s.state = SystemState { i: s.state.i % 3, time: if s.state.i % 2 == 0 { 0.0 } else { s.state.time.clamp(-1.0, 2.0) } };
                    s.solver_type = SolverTypes::RalstonsMethod { dt: 0.05 + any_pos("dt") };
                }
                py_walk_is_a_function();
                let mut t = s.clone();
                let r = py_do::<S, ()>(&mut s, "walk", ());
                t.walk();
                // not a number nowhere (equality would tell nothing)
                assume(same(&t, &t));
                ensures("walk does not raise", r);
                ensures("walk leaves the object exactly as the native walk does", same(&s, &t));
                reach("walked");
            }
        }
    };
}
system!(s3tm, System3TM, ThermalMass, any_mass(), any_3tm);
system!(s3tm_bc, System3TMWithBC, ThermalReservoir, any_reservoir(), any_3tm_bc);
attributes!(mass, ThermalMass, any_mass(), [c: f64, state: ThermalMassState, history: ThermalMassStateHistoryVec]);
attributes!(reservoir, ThermalReservoir, any_reservoir(), [state: ThermalMassState, history: ThermalMassStateHistoryVec]);
attributes!(conductance, Conductance, any_conductance(), [h: f64, state: ConductanceState, history: ConductanceStateHistoryVec]);
attributes!(thermal_state, ThermalMassState, any_thermal_state(), [temp: f64, dtemp: f64]);
attributes!(flow_state, ConductanceState, ConductanceState { q: any_f64("q") }, [q: f64]);
attributes!(sys_state, SystemState, any_sys_state(), [i: usize, time: f64]);
attributes!(thermal_hist, ThermalMassStateHistoryVec, any_thermal_hist(), [temp: Vec<f64>, dtemp: Vec<f64>]);
attributes!(flow_hist, ConductanceStateHistoryVec, any_conductance().history, [q: Vec<f64>]);
attributes!(private_hist, SystemState3TMHistoryVec, any_3tm_hist(), [i: Vec<usize>, time: Vec<f64>]);
attributes!(sys_hist, SystemStateHistoryVec, any_sys_hist(), [i: Vec<usize>, time: Vec<f64>]);
attributes!(solver_hist, SolverStateHistoryVec, any_solver_hist(), [dt: Vec<f64>, n_iter: Vec<u8>, norm_err: Vec<Option<f64>>, norm_err_rel: Vec<Option<f64>>, t_curr: Vec<f64>, states: Vec<Vec<f64>>]);
attributes!(config, AdaptiveSolverConfig, any_config(any_solver_hist()), [dt_max: f64, max_iter: u8, atol: f64, rtol: f64, save: bool, save_states: bool, state: SolverState, history: SolverStateHistoryVec]);
attributes!(solver_state, SolverState, any_config(any_solver_hist()).state, [dt: f64, n_iter: u8, norm_err: Option<f64>, norm_err_rel: Option<f64>, t_curr: f64, states: Vec<f64>]);
attributes!(mixed, Mixed, any_mixed(any_solver()), [p: f64, t_report: Vec<f64>, a: Node, g: Group, idle: Node, history: SystemStateHistoryVec, b: ThermalMass, k: Link, c: Node, state: SystemState]);
attributes!(node, Node, any_node(), [history_scale: f64, history: PStateHistoryVec, c: f64, state_ref: LState, state: PState, tags: Vec<f64>, use_state: bool]);

macro_rules! offered {
    ($($t:ident),*) => {
        $(ensures(concat!("the module offers class ", stringify!($t), " under that name"), py_module_has::<$t>(stringify!($t), <$t as pyo3::PyTypeInfo>::NAME));)*
        reach("imported");
    };
}
pub mod roots {
    use super::*;
    pub fn c20_module() {
        offered!(AdaptiveSolverConfig, SolverState, SolverStateHistoryVec, System3TMWithBC, ThermalReservoir, System3TM, SystemState, SystemStateHistoryVec, ThermalMass, ThermalMassState, ThermalMassStateHistoryVec, Conductance, ConductanceState, ConductanceStateHistoryVec);
    }
    pub fn c20_new_components() {
        let (c, t) = (any_f64("c"), any_f64("temp0"));
        let state = ThermalMassState { temp: t, dtemp: 0.0 };
        let history = ThermalMassStateHistoryVec { temp: vec![], dtemp: vec![] };
        is("ThermalMass(c, temp0)", py_new::<ThermalMass, (f64, f64)>((c, t)), &ThermalMass { c, state, history: history.clone() });
        is("ThermalReservoir(temp0)", py_new::<ThermalReservoir, (f64,)>((t,)), &ThermalReservoir { state, history });
        is("Conductance(h)", py_new::<Conductance, (f64,)>((c,)), &Conductance { h: c, state: ConductanceState { q: 0.0 }, history: ConductanceStateHistoryVec { q: vec![] } });
    }
    pub fn c20_new_config() {
        let c = any_config(any_solver_hist());
        let (save, states) = (any_opt_bool("save"), any_opt_bool("save_states"));
        let got = py_new::<AdaptiveSolverConfig, (f64, f64, u8, f64, f64, Option<bool>, Option<bool>)>((c.state.dt, c.dt_max, c.max_iter, c.rtol, c.atol, save, states));
        match got {
            Some(g) => {
                reach("made");
                ensures("the first argument is the initial step", same(&g.state.dt, &c.state.dt));
                ensures("dt_max, max_iter, rtol and atol are in their fields", same(&g.dt_max, &c.dt_max) && g.max_iter == c.max_iter && same(&g.rtol, &c.rtol) && same(&g.atol, &c.atol));
                ensures("save and save_states are as given, else off", g.save == save.unwrap_or(false) && g.save_states == states.unwrap_or(false));
                ensures("the solver state is otherwise as by default", same(&g.state, &SolverState { dt: c.state.dt, ..Default::default() }));
                ensures("the diagnostics history is empty", g.history.len() == 0 && same(&g.history, &SolverStateHistoryVec::new()));
            }
            None => ensures("the constructor does not raise", false),
        }
    }
    pub fn c20_new_system3tm() {
        s3tm::make()
    }
    pub fn c20_new_system3tm_bc() {
        s3tm_bc::make()
    }
    pub fn c20_attributes_system3tm() {
        s3tm::get();
        s3tm::solver()
    }
    pub fn c20_attributes_system3tm_bc() {
        s3tm_bc::get();
        s3tm_bc::solver()
    }
    pub fn c20_attributes_components() {
        mass();
        reservoir();
        conductance();
        thermal_state();
        flow_state();
        sys_state();
    }
    pub fn c20_attributes_histories() {
        thermal_hist();
        flow_hist();
        private_hist();
        sys_hist();
        solver_hist();
    }
    pub fn c20_attributes_config() {
        config();
        solver_state();
    }
    pub fn c20_attributes_mixed() {
        mixed();
        node();
    }
    pub fn c20_walk_system3tm() {
        s3tm::walk()
    }
    pub fn c20_walk_system3tm_bc() {
        s3tm_bc::walk()
    }
    pub fn c20_defaults() {
        default_of::<System3TM>();
        default_of::<System3TMWithBC>();
        default_of::<ThermalMass>();
        default_of::<ThermalReservoir>();
        default_of::<Conductance>();
        default_of::<SystemState>();
        default_of::<ThermalMassState>();
        default_of::<ConductanceState>();
        default_of::<AdaptiveSolverConfig>();
        default_of::<SolverState>();
        default_of::<SolverStateHistoryVec>();
        default_of::<SystemStateHistoryVec>();
        default_of::<ThermalMassStateHistoryVec>();
        default_of::<ConductanceStateHistoryVec>();
        default_of::<SystemState3TMHistoryVec>();
    }
    pub fn c20_copies_mass() {
        copies(any_mass())
    }
    pub fn c20_copies_reservoir() {
        copies(any_reservoir())
    }
    pub fn c20_copies_conductance() {
        copies(any_conductance())
    }
    pub fn c20_copies_config() {
        copies(any_config(any_solver_hist()))
    }
    pub fn c20_copies_solver_state() {
        copies(any_solver_state())
    }
    pub fn c20_copies_solver_history() {
        copies(any_solver_hist())
    }
    pub fn c20_copies_thermal_state() {
        copies(any_thermal_state())
    }
    pub fn c20_copies_thermal_history() {
        copies(any_thermal_hist())
    }
    pub fn c20_copies_flow_state() {
        copies(any_flow_state())
    }
    pub fn c20_copies_flow_history() {
        copies(any_conductance().history)
    }
    pub fn c20_copies_system_state() {
        copies(any_sys_state())
    }
    pub fn c20_copies_system_history() {
        copies(any_sys_hist())
    }
    pub fn c20_copies_private_history() {
        copies(any_3tm_hist())
    }
    pub fn c20_copies_system3tm() {
        copies(any_3tm(any_solver()))
    }
    pub fn c20_copies_system3tm_bc() {
        copies(any_3tm_bc(any_solver()))
    }
    pub fn c20_copies_mixed() {
        copies(any_mixed(any_solver()))
    }
    pub fn c20_texts_mass() {
        texts(any_mass())
    }
    pub fn c20_texts_reservoir() {
        texts(any_reservoir())
    }
    pub fn c20_texts_conductance() {
        texts(any_conductance())
    }
    pub fn c20_texts_config() {
        texts(any_config(any_solver_hist()))
    }
    pub fn c20_texts_solver_state() {
        texts(any_solver_state())
    }
    pub fn c20_texts_solver_history() {
        texts(any_solver_hist())
    }
    pub fn c20_texts_thermal_state() {
        texts(any_thermal_state())
    }
    pub fn c20_texts_thermal_history() {
        texts(any_thermal_hist())
    }
    pub fn c20_texts_flow_state() {
        texts(any_flow_state())
    }
    pub fn c20_texts_flow_history() {
        texts(any_conductance().history)
    }
    pub fn c20_texts_system_state() {
        texts(any_sys_state())
    }
    pub fn c20_texts_system_history() {
        texts(any_sys_hist())
    }
    pub fn c20_texts_private_history() {
        texts(any_3tm_hist())
    }
    pub fn c20_texts_system3tm() {
        texts(any_3tm(any_solver()))
    }
    pub fn c20_texts_system3tm_bc() {
        texts(any_3tm_bc(any_solver()))
    }
    pub fn c20_texts_mixed() {
        texts(any_mixed(any_solver()))
    }
    pub fn c20_files_mass() {
        files(any_mass())
    }
    pub fn c20_files_reservoir() {
        files(any_reservoir())
    }
    pub fn c20_files_conductance() {
        files(any_conductance())
    }
    pub fn c20_files_config() {
        files(any_config(any_solver_hist()))
    }
    pub fn c20_files_solver_state() {
        files(any_solver_state())
    }
    pub fn c20_files_solver_history() {
        files(any_solver_hist())
    }
    pub fn c20_files_thermal_state() {
        files(any_thermal_state())
    }
    pub fn c20_files_thermal_history() {
        files(any_thermal_hist())
    }
    pub fn c20_files_flow_state() {
        files(any_flow_state())
    }
    pub fn c20_files_flow_history() {
        files(any_conductance().history)
    }
    pub fn c20_files_system_state() {
        files(any_sys_state())
    }
    pub fn c20_files_system_history() {
        files(any_sys_hist())
    }
    pub fn c20_files_private_history() {
        files(any_3tm_hist())
    }
    pub fn c20_files_system3tm() {
        files(any_3tm(any_solver()))
    }
    pub fn c20_files_system3tm_bc() {
        files(any_3tm_bc(any_solver()))
    }
    pub fn c20_files_mixed() {
        files(any_mixed(any_solver()))
    }
    pub fn c20_lengths() {
        let mut h = any_thermal_hist();
        let n = h.len();
        is("len() is the native length", py_call::<ThermalMassStateHistoryVec, (), usize>(&mut h, "len", ()), &n);
        let mut h = any_sys_hist();
        let n = h.len();
        is("len() is the native length", py_call::<SystemStateHistoryVec, (), usize>(&mut h, "len", ()), &n);
        let mut h = any_conductance().history;
        let n = h.len();
        is("len() is the native length", py_call::<ConductanceStateHistoryVec, (), usize>(&mut h, "len", ()), &n);
        let mut h = any_3tm_hist();
        let n = h.len();
        is("len() is the native length", py_call::<SystemState3TMHistoryVec, (), usize>(&mut h, "len", ()), &n);
        let mut h = any_solver_hist();
        let n = h.len();
        is("len() is the native length", py_call::<SolverStateHistoryVec, (), usize>(&mut h, "len", ()), &n);
        let mut c = any_config(h);
        let want = c.dt_mean();
        is("dt_mean() is the native mean", py_call::<AdaptiveSolverConfig, (), Option<f64>>(&mut c, "dt_mean", ()), &want);
    }
}
fn any_opt_bool(name: &str) -> Option<bool> {
    match any_u8(name) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    }
}
