//! feature: files needs types
//! C18: the real `SerdeAPI` default methods against contracts of the file system and the codecs, which
//! may fail at any call: which calls are made, on what, in which case, and what is returned.
use crate::adaptive::any_config;
use crate::types::*;
use crate::vrt::*;
use dess::prelude::*;
use dess_examples::components::*;

fn contents<T: SerdeAPI>(v: &T, w: &T) -> Vec<Vec<u8>> {
    if !native() {
        return vec![];
    }
    let mut r = vec![b"{} x".to_vec(), vec![]];
    for x in [v, w] {
        for fmt in [1, 2, 3] {
            r.push(codec::encode(fmt, x));
        }
    }
    r
}
fn save<T: SerdeAPI + PartialEq + Clone>(v: T, w: T) {
    let old = v.clone();
    let file = any_file("file", &contents(&v, &w));
    let fails = save_fails(&file);
    let r = v.to_file(&file);
    let fmt = wanted_format(&file);
    if fmt == 0 {
        reach("other extension");
        ensures("saving under an unsupported name is an error", r.is_err());
        ensures("saving under an unsupported name creates, truncates and writes nothing", files_untouched());
    } else if saving_failed(fails) {
        reach("failed");
        ensures("a failure to create or encode is returned as an error", r.is_err());
    } else {
        reach("saved");
        ensures("saving succeeds when nothing fails", r.is_ok());
        ensures("the file holds the whole value in the format of its extension", holds(&file, fmt, &v));
    }
    ensures("no other file is touched", only_touched(&file));
    ensures("the value is unchanged", same(&v, &old));
}
fn load<T: SerdeAPI + PartialEq + Clone>(v: T, w: T) {
    let file = any_file("file", &contents(&v, &w));
    let r = T::from_file(&file);
    let fmt = wanted_format(&file);
    ensures("loading creates, truncates and writes nothing", files_untouched());
    if fmt == 0 {
        reach("other extension");
        ensures("loading an unsupported name is an error", r.is_err());
    } else {
        match (&r, &in_file::<T>(&file, fmt)) {
            (Ok(a), Some(b)) => {
                reach("loaded");
                ensures("loading returns what the codec of the extension decodes", same(a, b))
            }
            (Err(_), None) => {
                reach("failed");
                ensures("a failure to open or decode is an error", true)
            }
            _ => ensures("loading succeeds exactly when opening and decoding do", false),
        }
    }
}
fn texts<T: SerdeAPI + PartialEq + Clone>(v: T, w: T) {
    ensures("to_json encodes the whole value as JSON", encodes(&v.to_json(), 1, &v));
    ensures("to_yaml encodes the whole value as YAML", encodes(&v.to_yaml(), 2, &v));
    ensures("to_bincode encodes the whole value with bincode", encodes(&v.to_bincode(), 3, &v));
    let c = contents(&v, &w);
    let t = any_text("json", &c);
    decoded("from_json returns what the JSON codec decodes", T::from_json(&t), in_text(&t, 1));
    let t = any_text("yaml", &c);
    decoded("from_yaml returns what the YAML codec decodes", T::from_yaml(&t), in_text(&t, 2));
    let t = any_bytes("bytes", &c);
    decoded("from_bincode returns what bincode decodes", T::from_bincode(&t), in_text(&t, 3));
}
fn decoded<T: PartialEq>(name: &str, r: Result<T, anyhow::Error>, want: Option<T>) {
    match (&r, &want) {
        (Ok(a), Some(b)) => {
            reach("decoded");
            ensures(name, same(a, b))
        }
        (Err(_), None) => {
            reach("not decoded");
            ensures(name, true)
        }
        _ => ensures(name, false),
    }
}

pub mod roots {
    use super::*;
    pub fn c18_save_mass() {
        save(any_mass(), any_mass())
    }
    pub fn c18_save_reservoir() {
        save(any_reservoir(), any_reservoir())
    }
    pub fn c18_save_conductance() {
        save(any_conductance(), any_conductance())
    }
    pub fn c18_save_config() {
        save(any_config(any_solver_hist()), any_config(any_solver_hist()))
    }
    pub fn c18_save_solver() {
        save(any_solver(), any_solver())
    }
    pub fn c18_save_solver_state() {
        save(any_solver_state(), any_solver_state())
    }
    pub fn c18_save_solver_history() {
        save(any_solver_hist(), any_solver_hist())
    }
    pub fn c18_save_thermal_state() {
        save(any_thermal_state(), any_thermal_state())
    }
    pub fn c18_save_thermal_history() {
        save(any_thermal_hist(), any_thermal_hist())
    }
    pub fn c18_save_flow_state() {
        save(any_flow_state(), any_flow_state())
    }
    pub fn c18_save_flow_history() {
        save(any_conductance().history, any_conductance().history)
    }
    pub fn c18_save_system_state() {
        save(any_sys_state(), any_sys_state())
    }
    pub fn c18_save_system_history() {
        save(any_sys_hist(), any_sys_hist())
    }
    pub fn c18_save_private_history() {
        save(any_3tm_hist(), any_3tm_hist())
    }
    pub fn c18_save_system3tm() {
        save(any_3tm(any_solver()), any_3tm(any_solver()))
    }
    pub fn c18_save_system3tm_bc() {
        save(any_3tm_bc(any_solver()), any_3tm_bc(any_solver()))
    }
    pub fn c18_save_mixed() {
        save(any_mixed(any_solver()), any_mixed(any_solver()))
    }
    pub fn c18_load_mass() {
        load(any_mass(), any_mass())
    }
    pub fn c18_load_reservoir() {
        load(any_reservoir(), any_reservoir())
    }
    pub fn c18_load_conductance() {
        load(any_conductance(), any_conductance())
    }
    pub fn c18_load_config() {
        load(any_config(any_solver_hist()), any_config(any_solver_hist()))
    }
    pub fn c18_load_solver() {
        load(any_solver(), any_solver())
    }
    pub fn c18_load_solver_state() {
        load(any_solver_state(), any_solver_state())
    }
    pub fn c18_load_solver_history() {
        load(any_solver_hist(), any_solver_hist())
    }
    pub fn c18_load_thermal_state() {
        load(any_thermal_state(), any_thermal_state())
    }
    pub fn c18_load_thermal_history() {
        load(any_thermal_hist(), any_thermal_hist())
    }
    pub fn c18_load_flow_state() {
        load(any_flow_state(), any_flow_state())
    }
    pub fn c18_load_flow_history() {
        load(any_conductance().history, any_conductance().history)
    }
    pub fn c18_load_system_state() {
        load(any_sys_state(), any_sys_state())
    }
    pub fn c18_load_system_history() {
        load(any_sys_hist(), any_sys_hist())
    }
    pub fn c18_load_private_history() {
        load(any_3tm_hist(), any_3tm_hist())
    }
    pub fn c18_load_system3tm() {
        load(any_3tm(any_solver()), any_3tm(any_solver()))
    }
    pub fn c18_load_system3tm_bc() {
        load(any_3tm_bc(any_solver()), any_3tm_bc(any_solver()))
    }
    pub fn c18_load_mixed() {
        load(any_mixed(any_solver()), any_mixed(any_solver()))
    }
    pub fn c18_texts_mass() {
        texts(any_mass(), any_mass())
    }
    pub fn c18_texts_reservoir() {
        texts(any_reservoir(), any_reservoir())
    }
    pub fn c18_texts_conductance() {
        texts(any_conductance(), any_conductance())
    }
    pub fn c18_texts_config() {
        texts(any_config(any_solver_hist()), any_config(any_solver_hist()))
    }
    pub fn c18_texts_solver() {
        texts(any_solver(), any_solver())
    }
    pub fn c18_texts_solver_state() {
        texts(any_solver_state(), any_solver_state())
    }
    pub fn c18_texts_solver_history() {
        texts(any_solver_hist(), any_solver_hist())
    }
    pub fn c18_texts_thermal_state() {
        texts(any_thermal_state(), any_thermal_state())
    }
    pub fn c18_texts_thermal_history() {
        texts(any_thermal_hist(), any_thermal_hist())
    }
    pub fn c18_texts_flow_state() {
        texts(any_flow_state(), any_flow_state())
    }
    pub fn c18_texts_flow_history() {
        texts(any_conductance().history, any_conductance().history)
    }
    pub fn c18_texts_system_state() {
        texts(any_sys_state(), any_sys_state())
    }
    pub fn c18_texts_system_history() {
        texts(any_sys_hist(), any_sys_hist())
    }
    pub fn c18_texts_private_history() {
        texts(any_3tm_hist(), any_3tm_hist())
    }
    pub fn c18_texts_system3tm() {
        texts(any_3tm(any_solver()), any_3tm(any_solver()))
    }
    pub fn c18_texts_system3tm_bc() {
        texts(any_3tm_bc(any_solver()), any_3tm_bc(any_solver()))
    }
    pub fn c18_texts_mixed() {
        texts(any_mixed(any_solver()), any_mixed(any_solver()))
    }
}
