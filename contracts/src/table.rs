pub const ROOTS: &[(&str, fn())] = &[
    #[cfg(feature = "adaptive")]
    ("c02_attempt", vh::adaptive::roots::c02_attempt),
    #[cfg(feature = "adaptive")]
    ("c03_attempt", vh::adaptive::roots::c03_attempt),
    #[cfg(feature = "adaptive")]
    ("c04_rk23", vh::adaptive::roots::c04_rk23),
    #[cfg(feature = "adaptive")]
    ("c04_rk45", vh::adaptive::roots::c04_rk45),
    #[cfg(feature = "adaptive")]
    ("c05_rk23", vh::adaptive::roots::c05_rk23),
    #[cfg(feature = "adaptive")]
    ("c05_rk23_any_sign", vh::adaptive::roots::c05_rk23_any_sign),
    #[cfg(feature = "adaptive")]
    ("c05_rk45", vh::adaptive::roots::c05_rk45),
    #[cfg(feature = "adaptive")]
    ("c05_rk45_any_sign", vh::adaptive::roots::c05_rk45_any_sign),
    #[cfg(feature = "adaptive")]
    ("c06_rk23", vh::adaptive::roots::c06_rk23),
    #[cfg(feature = "adaptive")]
    ("c06_rk23_any_sign", vh::adaptive::roots::c06_rk23_any_sign),
    #[cfg(feature = "adaptive")]
    ("c06_rk45", vh::adaptive::roots::c06_rk45),
    #[cfg(feature = "adaptive")]
    ("c06_rk45_any_sign", vh::adaptive::roots::c06_rk45_any_sign),
    #[cfg(feature = "adaptive")]
    ("c07_rk23", vh::adaptive::roots::c07_rk23),
    #[cfg(feature = "adaptive")]
    ("c07_rk45", vh::adaptive::roots::c07_rk45),
    #[cfg(feature = "adaptive")]
    ("c07_dt_mean", vh::adaptive::roots::c07_dt_mean),
    #[cfg(feature = "adaptive")]
    ("c10_rk23", vh::adaptive::roots::c10_rk23),
    #[cfg(feature = "adaptive")]
    ("c10_rk45", vh::adaptive::roots::c10_rk45),
    #[cfg(feature = "adaptive")]
    ("c11_rk23", vh::adaptive::roots::c11_rk23),
    #[cfg(feature = "adaptive")]
    ("c11_rk45", vh::adaptive::roots::c11_rk45),
    #[cfg(feature = "adaptive")]
    ("c11_rk23_attempt", vh::adaptive::roots::c11_rk23_attempt),
    #[cfg(feature = "adaptive")]
    ("c11_rk45_attempt", vh::adaptive::roots::c11_rk45_attempt),
    #[cfg(feature = "files")]
    ("c18_save_mass", vh::files::roots::c18_save_mass),
    #[cfg(feature = "files")]
    ("c18_save_reservoir", vh::files::roots::c18_save_reservoir),
    #[cfg(feature = "files")]
    ("c18_save_conductance", vh::files::roots::c18_save_conductance),
    #[cfg(feature = "files")]
    ("c18_save_config", vh::files::roots::c18_save_config),
    #[cfg(feature = "files")]
    ("c18_save_solver", vh::files::roots::c18_save_solver),
    #[cfg(feature = "files")]
    ("c18_save_solver_state", vh::files::roots::c18_save_solver_state),
    #[cfg(feature = "files")]
    ("c18_save_solver_history", vh::files::roots::c18_save_solver_history),
    #[cfg(feature = "files")]
    ("c18_save_thermal_state", vh::files::roots::c18_save_thermal_state),
    #[cfg(feature = "files")]
    ("c18_save_thermal_history", vh::files::roots::c18_save_thermal_history),
    #[cfg(feature = "files")]
    ("c18_save_flow_state", vh::files::roots::c18_save_flow_state),
    #[cfg(feature = "files")]
    ("c18_save_flow_history", vh::files::roots::c18_save_flow_history),
    #[cfg(feature = "files")]
    ("c18_save_system_state", vh::files::roots::c18_save_system_state),
    #[cfg(feature = "files")]
    ("c18_save_system_history", vh::files::roots::c18_save_system_history),
    #[cfg(feature = "files")]
    ("c18_save_private_history", vh::files::roots::c18_save_private_history),
    #[cfg(feature = "files")]
    ("c18_save_system3tm", vh::files::roots::c18_save_system3tm),
    #[cfg(feature = "files")]
    ("c18_save_system3tm_bc", vh::files::roots::c18_save_system3tm_bc),
    #[cfg(feature = "files")]
    ("c18_save_mixed", vh::files::roots::c18_save_mixed),
    #[cfg(feature = "files")]
    ("c18_load_mass", vh::files::roots::c18_load_mass),
    #[cfg(feature = "files")]
    ("c18_load_reservoir", vh::files::roots::c18_load_reservoir),
    #[cfg(feature = "files")]
    ("c18_load_conductance", vh::files::roots::c18_load_conductance),
    #[cfg(feature = "files")]
    ("c18_load_config", vh::files::roots::c18_load_config),
    #[cfg(feature = "files")]
    ("c18_load_solver", vh::files::roots::c18_load_solver),
    #[cfg(feature = "files")]
    ("c18_load_solver_state", vh::files::roots::c18_load_solver_state),
    #[cfg(feature = "files")]
    ("c18_load_solver_history", vh::files::roots::c18_load_solver_history),
    #[cfg(feature = "files")]
    ("c18_load_thermal_state", vh::files::roots::c18_load_thermal_state),
    #[cfg(feature = "files")]
    ("c18_load_thermal_history", vh::files::roots::c18_load_thermal_history),
    #[cfg(feature = "files")]
    ("c18_load_flow_state", vh::files::roots::c18_load_flow_state),
    #[cfg(feature = "files")]
    ("c18_load_flow_history", vh::files::roots::c18_load_flow_history),
    #[cfg(feature = "files")]
    ("c18_load_system_state", vh::files::roots::c18_load_system_state),
    #[cfg(feature = "files")]
    ("c18_load_system_history", vh::files::roots::c18_load_system_history),
    #[cfg(feature = "files")]
    ("c18_load_private_history", vh::files::roots::c18_load_private_history),
    #[cfg(feature = "files")]
    ("c18_load_system3tm", vh::files::roots::c18_load_system3tm),
    #[cfg(feature = "files")]
    ("c18_load_system3tm_bc", vh::files::roots::c18_load_system3tm_bc),
    #[cfg(feature = "files")]
    ("c18_load_mixed", vh::files::roots::c18_load_mixed),
    #[cfg(feature = "files")]
    ("c18_texts_mass", vh::files::roots::c18_texts_mass),
    #[cfg(feature = "files")]
    ("c18_texts_reservoir", vh::files::roots::c18_texts_reservoir),
    #[cfg(feature = "files")]
    ("c18_texts_conductance", vh::files::roots::c18_texts_conductance),
    #[cfg(feature = "files")]
    ("c18_texts_config", vh::files::roots::c18_texts_config),
    #[cfg(feature = "files")]
    ("c18_texts_solver", vh::files::roots::c18_texts_solver),
    #[cfg(feature = "files")]
    ("c18_texts_solver_state", vh::files::roots::c18_texts_solver_state),
    #[cfg(feature = "files")]
    ("c18_texts_solver_history", vh::files::roots::c18_texts_solver_history),
    #[cfg(feature = "files")]
    ("c18_texts_thermal_state", vh::files::roots::c18_texts_thermal_state),
    #[cfg(feature = "files")]
    ("c18_texts_thermal_history", vh::files::roots::c18_texts_thermal_history),
    #[cfg(feature = "files")]
    ("c18_texts_flow_state", vh::files::roots::c18_texts_flow_state),
    #[cfg(feature = "files")]
    ("c18_texts_flow_history", vh::files::roots::c18_texts_flow_history),
    #[cfg(feature = "files")]
    ("c18_texts_system_state", vh::files::roots::c18_texts_system_state),
    #[cfg(feature = "files")]
    ("c18_texts_system_history", vh::files::roots::c18_texts_system_history),
    #[cfg(feature = "files")]
    ("c18_texts_private_history", vh::files::roots::c18_texts_private_history),
    #[cfg(feature = "files")]
    ("c18_texts_system3tm", vh::files::roots::c18_texts_system3tm),
    #[cfg(feature = "files")]
    ("c18_texts_system3tm_bc", vh::files::roots::c18_texts_system3tm_bc),
    #[cfg(feature = "files")]
    ("c18_texts_mixed", vh::files::roots::c18_texts_mixed),
    #[cfg(feature = "fixed")]
    ("c01_euler", vh::fixed::roots::c01_euler),
    #[cfg(feature = "fixed")]
    ("c01_heun", vh::fixed::roots::c01_heun),
    #[cfg(feature = "fixed")]
    ("c01_midpoint", vh::fixed::roots::c01_midpoint),
    #[cfg(feature = "fixed")]
    ("c01_ralston", vh::fixed::roots::c01_ralston),
    #[cfg(feature = "fixed")]
    ("c01_rk4", vh::fixed::roots::c01_rk4),
    #[cfg(feature = "fixed")]
    ("c10_euler", vh::fixed::roots::c10_euler),
    #[cfg(feature = "fixed")]
    ("c10_heun", vh::fixed::roots::c10_heun),
    #[cfg(feature = "fixed")]
    ("c10_midpoint", vh::fixed::roots::c10_midpoint),
    #[cfg(feature = "fixed")]
    ("c10_ralston", vh::fixed::roots::c10_ralston),
    #[cfg(feature = "fixed")]
    ("c10_rk4", vh::fixed::roots::c10_rk4),
    #[cfg(feature = "fixed")]
    ("c11_euler", vh::fixed::roots::c11_euler),
    #[cfg(feature = "fixed")]
    ("c11_heun", vh::fixed::roots::c11_heun),
    #[cfg(feature = "fixed")]
    ("c11_midpoint", vh::fixed::roots::c11_midpoint),
    #[cfg(feature = "fixed")]
    ("c11_ralston", vh::fixed::roots::c11_ralston),
    #[cfg(feature = "fixed")]
    ("c11_rk4", vh::fixed::roots::c11_rk4),
    #[cfg(feature = "histories")]
    ("c12_system_state", vh::histories::roots::c12_system_state),
    #[cfg(feature = "histories")]
    ("c12_solver_state", vh::histories::roots::c12_solver_state),
    #[cfg(feature = "histories")]
    ("c12_thermal_state", vh::histories::roots::c12_thermal_state),
    #[cfg(feature = "histories")]
    ("c12_conductance_state", vh::histories::roots::c12_conductance_state),
    #[cfg(feature = "histories")]
    ("c12_private_record", vh::histories::roots::c12_private_record),
    #[cfg(feature = "histories")]
    ("c12_record5", vh::histories::roots::c12_record5),
    #[cfg(feature = "histories")]
    ("c12_record1", vh::histories::roots::c12_record1),
    #[cfg(feature = "histories")]
    ("c12_record_names", vh::histories::roots::c12_record_names),
    #[cfg(feature = "histories")]
    ("c13_components", vh::histories::roots::c13_components),
    #[cfg(feature = "histories")]
    ("c13_stateless_container", vh::histories::roots::c13_stateless_container),
    #[cfg(feature = "histories")]
    ("c13_mixed_system", vh::histories::roots::c13_mixed_system),
    #[cfg(feature = "histories")]
    ("c13_system3tm", vh::histories::roots::c13_system3tm),
    #[cfg(feature = "histories")]
    ("c13_system3tm_bc", vh::histories::roots::c13_system3tm_bc),
    #[cfg(feature = "histories")]
    ("c14_components", vh::histories::roots::c14_components),
    #[cfg(feature = "histories")]
    ("c14_mixed_system", vh::histories::roots::c14_mixed_system),
    #[cfg(feature = "histories")]
    ("c14_system3tm", vh::histories::roots::c14_system3tm),
    #[cfg(feature = "histories")]
    ("c14_system3tm_bc", vh::histories::roots::c14_system3tm_bc),
    #[cfg(feature = "nets")]
    ("c16_components", vh::nets::roots::c16_components),
    #[cfg(feature = "nets")]
    ("c16_mass_to_mass", vh::nets::roots::c16_mass_to_mass),
    #[cfg(feature = "nets")]
    ("c16_reservoir_to_mass", vh::nets::roots::c16_reservoir_to_mass),
    #[cfg(feature = "nets")]
    ("c16_mass_to_reservoir", vh::nets::roots::c16_mass_to_reservoir),
    #[cfg(feature = "nets")]
    ("c16_reservoir_to_reservoir", vh::nets::roots::c16_reservoir_to_reservoir),
    #[cfg(feature = "nets")]
    ("c16_reversed", vh::nets::roots::c16_reversed),
    #[cfg(feature = "nets")]
    ("c16_system3tm", vh::nets::roots::c16_system3tm),
    #[cfg(feature = "nets")]
    ("c16_system3tm_bc", vh::nets::roots::c16_system3tm_bc),
    #[cfg(feature = "nets")]
    ("c16_ring", vh::nets::roots::c16_ring),
    #[cfg(feature = "nets")]
    ("c16_euler_closed", vh::nets::roots::c16_euler_closed),
    #[cfg(feature = "nets")]
    ("c16_euler_open", vh::nets::roots::c16_euler_open),
    #[cfg(feature = "pyo3")]
    ("c20_module", vh::python::roots::c20_module),
    #[cfg(feature = "pyo3")]
    ("c20_new_components", vh::python::roots::c20_new_components),
    #[cfg(feature = "pyo3")]
    ("c20_new_config", vh::python::roots::c20_new_config),
    #[cfg(feature = "pyo3")]
    ("c20_new_system3tm", vh::python::roots::c20_new_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_new_system3tm_bc", vh::python::roots::c20_new_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_system3tm", vh::python::roots::c20_attributes_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_system3tm_bc", vh::python::roots::c20_attributes_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_components", vh::python::roots::c20_attributes_components),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_histories", vh::python::roots::c20_attributes_histories),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_config", vh::python::roots::c20_attributes_config),
    #[cfg(feature = "pyo3")]
    ("c20_attributes_mixed", vh::python::roots::c20_attributes_mixed),
    #[cfg(feature = "pyo3")]
    ("c20_walk_system3tm", vh::python::roots::c20_walk_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_walk_system3tm_bc", vh::python::roots::c20_walk_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_defaults", vh::python::roots::c20_defaults),
    #[cfg(feature = "pyo3")]
    ("c20_copies_mass", vh::python::roots::c20_copies_mass),
    #[cfg(feature = "pyo3")]
    ("c20_copies_reservoir", vh::python::roots::c20_copies_reservoir),
    #[cfg(feature = "pyo3")]
    ("c20_copies_conductance", vh::python::roots::c20_copies_conductance),
    #[cfg(feature = "pyo3")]
    ("c20_copies_config", vh::python::roots::c20_copies_config),
    #[cfg(feature = "pyo3")]
    ("c20_copies_solver_state", vh::python::roots::c20_copies_solver_state),
    #[cfg(feature = "pyo3")]
    ("c20_copies_solver_history", vh::python::roots::c20_copies_solver_history),
    #[cfg(feature = "pyo3")]
    ("c20_copies_thermal_state", vh::python::roots::c20_copies_thermal_state),
    #[cfg(feature = "pyo3")]
    ("c20_copies_thermal_history", vh::python::roots::c20_copies_thermal_history),
    #[cfg(feature = "pyo3")]
    ("c20_copies_flow_state", vh::python::roots::c20_copies_flow_state),
    #[cfg(feature = "pyo3")]
    ("c20_copies_flow_history", vh::python::roots::c20_copies_flow_history),
    #[cfg(feature = "pyo3")]
    ("c20_copies_system_state", vh::python::roots::c20_copies_system_state),
    #[cfg(feature = "pyo3")]
    ("c20_copies_system_history", vh::python::roots::c20_copies_system_history),
    #[cfg(feature = "pyo3")]
    ("c20_copies_private_history", vh::python::roots::c20_copies_private_history),
    #[cfg(feature = "pyo3")]
    ("c20_copies_system3tm", vh::python::roots::c20_copies_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_copies_system3tm_bc", vh::python::roots::c20_copies_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_copies_mixed", vh::python::roots::c20_copies_mixed),
    #[cfg(feature = "pyo3")]
    ("c20_texts_mass", vh::python::roots::c20_texts_mass),
    #[cfg(feature = "pyo3")]
    ("c20_texts_reservoir", vh::python::roots::c20_texts_reservoir),
    #[cfg(feature = "pyo3")]
    ("c20_texts_conductance", vh::python::roots::c20_texts_conductance),
    #[cfg(feature = "pyo3")]
    ("c20_texts_config", vh::python::roots::c20_texts_config),
    #[cfg(feature = "pyo3")]
    ("c20_texts_solver_state", vh::python::roots::c20_texts_solver_state),
    #[cfg(feature = "pyo3")]
    ("c20_texts_solver_history", vh::python::roots::c20_texts_solver_history),
    #[cfg(feature = "pyo3")]
    ("c20_texts_thermal_state", vh::python::roots::c20_texts_thermal_state),
    #[cfg(feature = "pyo3")]
    ("c20_texts_thermal_history", vh::python::roots::c20_texts_thermal_history),
    #[cfg(feature = "pyo3")]
    ("c20_texts_flow_state", vh::python::roots::c20_texts_flow_state),
    #[cfg(feature = "pyo3")]
    ("c20_texts_flow_history", vh::python::roots::c20_texts_flow_history),
    #[cfg(feature = "pyo3")]
    ("c20_texts_system_state", vh::python::roots::c20_texts_system_state),
    #[cfg(feature = "pyo3")]
    ("c20_texts_system_history", vh::python::roots::c20_texts_system_history),
    #[cfg(feature = "pyo3")]
    ("c20_texts_private_history", vh::python::roots::c20_texts_private_history),
    #[cfg(feature = "pyo3")]
    ("c20_texts_system3tm", vh::python::roots::c20_texts_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_texts_system3tm_bc", vh::python::roots::c20_texts_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_texts_mixed", vh::python::roots::c20_texts_mixed),
    #[cfg(feature = "pyo3")]
    ("c20_files_mass", vh::python::roots::c20_files_mass),
    #[cfg(feature = "pyo3")]
    ("c20_files_reservoir", vh::python::roots::c20_files_reservoir),
    #[cfg(feature = "pyo3")]
    ("c20_files_conductance", vh::python::roots::c20_files_conductance),
    #[cfg(feature = "pyo3")]
    ("c20_files_config", vh::python::roots::c20_files_config),
    #[cfg(feature = "pyo3")]
    ("c20_files_solver_state", vh::python::roots::c20_files_solver_state),
    #[cfg(feature = "pyo3")]
    ("c20_files_solver_history", vh::python::roots::c20_files_solver_history),
    #[cfg(feature = "pyo3")]
    ("c20_files_thermal_state", vh::python::roots::c20_files_thermal_state),
    #[cfg(feature = "pyo3")]
    ("c20_files_thermal_history", vh::python::roots::c20_files_thermal_history),
    #[cfg(feature = "pyo3")]
    ("c20_files_flow_state", vh::python::roots::c20_files_flow_state),
    #[cfg(feature = "pyo3")]
    ("c20_files_flow_history", vh::python::roots::c20_files_flow_history),
    #[cfg(feature = "pyo3")]
    ("c20_files_system_state", vh::python::roots::c20_files_system_state),
    #[cfg(feature = "pyo3")]
    ("c20_files_system_history", vh::python::roots::c20_files_system_history),
    #[cfg(feature = "pyo3")]
    ("c20_files_private_history", vh::python::roots::c20_files_private_history),
    #[cfg(feature = "pyo3")]
    ("c20_files_system3tm", vh::python::roots::c20_files_system3tm),
    #[cfg(feature = "pyo3")]
    ("c20_files_system3tm_bc", vh::python::roots::c20_files_system3tm_bc),
    #[cfg(feature = "pyo3")]
    ("c20_files_mixed", vh::python::roots::c20_files_mixed),
    #[cfg(feature = "pyo3")]
    ("c20_lengths", vh::python::roots::c20_lengths),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_fixed", vh::real::roots::c08_real_system3tm_fixed),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_rk23", vh::real::roots::c08_real_system3tm_rk23),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_rk45", vh::real::roots::c08_real_system3tm_rk45),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_increasing_rk4", vh::real::roots::c08_real_system3tm_increasing_rk4),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_increasing_rk45", vh::real::roots::c08_real_system3tm_increasing_rk45),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_bc_fixed", vh::real::roots::c08_real_system3tm_bc_fixed),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_bc_rk23", vh::real::roots::c08_real_system3tm_bc_rk23),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_bc_rk45", vh::real::roots::c08_real_system3tm_bc_rk45),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_bc_increasing_ralston", vh::real::roots::c08_real_system3tm_bc_increasing_ralston),
    #[cfg(feature = "real")]
    ("c08_real_system3tm_bc_increasing_rk23", vh::real::roots::c08_real_system3tm_bc_increasing_rk23),
    #[cfg(feature = "real")]
    ("c09_real_system3tm", vh::real::roots::c09_real_system3tm),
    #[cfg(feature = "real")]
    ("c09_real_system3tm_bc", vh::real::roots::c09_real_system3tm_bc),
    #[cfg(feature = "real")]
    ("c10_real_system3tm_solve", vh::real::roots::c10_real_system3tm_solve),
    #[cfg(feature = "real")]
    ("c10_real_system3tm_bc_solve", vh::real::roots::c10_real_system3tm_bc_solve),
    #[cfg(feature = "real")]
    ("c10_real_system3tm_walk", vh::real::roots::c10_real_system3tm_walk),
    #[cfg(feature = "real")]
    ("c10_real_system3tm_bc_walk", vh::real::roots::c10_real_system3tm_bc_walk),
    #[cfg(feature = "real")]
    ("c11_real_system3tm_solve", vh::real::roots::c11_real_system3tm_solve),
    #[cfg(feature = "real")]
    ("c11_real_system3tm_bc_solve", vh::real::roots::c11_real_system3tm_bc_solve),
    #[cfg(feature = "real")]
    ("c11_real_system3tm_walk", vh::real::roots::c11_real_system3tm_walk),
    #[cfg(feature = "real")]
    ("c11_real_system3tm_bc_walk", vh::real::roots::c11_real_system3tm_bc_walk),
    #[cfg(feature = "real")]
    ("c21_real_system3tm", vh::real::roots::c21_real_system3tm),
    #[cfg(feature = "real")]
    ("c21_real_system3tm_bc", vh::real::roots::c21_real_system3tm_bc),
    #[cfg(feature = "serial")]
    ("c19_mass", vh::serial::roots::c19_mass),
    #[cfg(feature = "serial")]
    ("c19_reservoir", vh::serial::roots::c19_reservoir),
    #[cfg(feature = "serial")]
    ("c19_conductance", vh::serial::roots::c19_conductance),
    #[cfg(feature = "serial")]
    ("c19_states", vh::serial::roots::c19_states),
    #[cfg(feature = "serial")]
    ("c19_histories", vh::serial::roots::c19_histories),
    #[cfg(feature = "serial")]
    ("c19_private_fields", vh::serial::roots::c19_private_fields),
    #[cfg(feature = "serial")]
    ("c19_solver_config", vh::serial::roots::c19_solver_config),
    #[cfg(feature = "serial")]
    ("c19_solver_types", vh::serial::roots::c19_solver_types),
    #[cfg(feature = "serial")]
    ("c19_system3tm", vh::serial::roots::c19_system3tm),
    #[cfg(feature = "serial")]
    ("c19_system3tm_bc", vh::serial::roots::c19_system3tm_bc),
    #[cfg(feature = "serial")]
    ("c19_mixed", vh::serial::roots::c19_mixed),
    #[cfg(feature = "serial")]
    ("c19_ring", vh::serial::roots::c19_ring),
    #[cfg(feature = "systems")]
    ("c15_mixed", vh::systems::roots::c15_mixed),
    #[cfg(feature = "systems")]
    ("c15_system3tm", vh::systems::roots::c15_system3tm),
    #[cfg(feature = "systems")]
    ("c15_system3tm_bc", vh::systems::roots::c15_system3tm_bc),
    #[cfg(feature = "systems")]
    ("c21_euler", vh::systems::roots::c21_euler),
    #[cfg(feature = "systems")]
    ("c21_heun", vh::systems::roots::c21_heun),
    #[cfg(feature = "systems")]
    ("c21_midpoint", vh::systems::roots::c21_midpoint),
    #[cfg(feature = "systems")]
    ("c21_ralston", vh::systems::roots::c21_ralston),
    #[cfg(feature = "systems")]
    ("c21_rk4", vh::systems::roots::c21_rk4),
    #[cfg(feature = "systems")]
    ("c21_rk23", vh::systems::roots::c21_rk23),
    #[cfg(feature = "systems")]
    ("c21_rk45", vh::systems::roots::c21_rk45),
    #[cfg(feature = "systems")]
    ("c21_one_step_euler", vh::systems::roots::c21_one_step_euler),
    #[cfg(feature = "systems")]
    ("c21_one_step_heun", vh::systems::roots::c21_one_step_heun),
    #[cfg(feature = "systems")]
    ("c21_one_step_midpoint", vh::systems::roots::c21_one_step_midpoint),
    #[cfg(feature = "systems")]
    ("c21_one_step_ralston", vh::systems::roots::c21_one_step_ralston),
    #[cfg(feature = "systems")]
    ("c21_one_step_rk4", vh::systems::roots::c21_one_step_rk4),
    #[cfg(feature = "systems")]
    ("c21_config_itself", vh::systems::roots::c21_config_itself),
    #[cfg(feature = "systems")]
    ("c21_config_mixed", vh::systems::roots::c21_config_mixed),
    #[cfg(feature = "systems")]
    ("c21_config_system3tm", vh::systems::roots::c21_config_system3tm),
    #[cfg(feature = "systems")]
    ("c21_config_system3tm_bc", vh::systems::roots::c21_config_system3tm_bc),
    #[cfg(feature = "systems")]
    ("c08_euler", vh::systems::roots::c08_euler),
    #[cfg(feature = "systems")]
    ("c08_increasing_euler", vh::systems::roots::c08_increasing_euler),
    #[cfg(feature = "systems")]
    ("c08_heun", vh::systems::roots::c08_heun),
    #[cfg(feature = "systems")]
    ("c08_increasing_heun", vh::systems::roots::c08_increasing_heun),
    #[cfg(feature = "systems")]
    ("c08_midpoint", vh::systems::roots::c08_midpoint),
    #[cfg(feature = "systems")]
    ("c08_increasing_midpoint", vh::systems::roots::c08_increasing_midpoint),
    #[cfg(feature = "systems")]
    ("c08_ralston", vh::systems::roots::c08_ralston),
    #[cfg(feature = "systems")]
    ("c08_increasing_ralston", vh::systems::roots::c08_increasing_ralston),
    #[cfg(feature = "systems")]
    ("c08_rk4", vh::systems::roots::c08_rk4),
    #[cfg(feature = "systems")]
    ("c08_increasing_rk4", vh::systems::roots::c08_increasing_rk4),
    #[cfg(feature = "systems")]
    ("c08_rk23", vh::systems::roots::c08_rk23),
    #[cfg(feature = "systems")]
    ("c08_increasing_rk23", vh::systems::roots::c08_increasing_rk23),
    #[cfg(feature = "systems")]
    ("c08_rk45", vh::systems::roots::c08_rk45),
    #[cfg(feature = "systems")]
    ("c08_increasing_rk45", vh::systems::roots::c08_increasing_rk45),
    #[cfg(feature = "systems")]
    ("c09_euler", vh::systems::roots::c09_euler),
    #[cfg(feature = "systems")]
    ("c09_heun", vh::systems::roots::c09_heun),
    #[cfg(feature = "systems")]
    ("c09_midpoint", vh::systems::roots::c09_midpoint),
    #[cfg(feature = "systems")]
    ("c09_ralston", vh::systems::roots::c09_ralston),
    #[cfg(feature = "systems")]
    ("c09_rk4", vh::systems::roots::c09_rk4),
    #[cfg(feature = "systems")]
    ("c09_rk23", vh::systems::roots::c09_rk23),
    #[cfg(feature = "systems")]
    ("c09_rk45", vh::systems::roots::c09_rk45),
    #[cfg(feature = "utils")]
    ("c17_grid", vh::utils::roots::c17_grid),
    #[cfg(feature = "utils")]
    ("c17_grid_of_one_point", vh::utils::roots::c17_grid_of_one_point),
    #[cfg(feature = "utils")]
    ("c17_grid_of_no_points", vh::utils::roots::c17_grid_of_no_points),
    #[cfg(feature = "utils")]
    ("c17_diff", vh::utils::roots::c17_diff),
    #[cfg(feature = "utils")]
    ("c17_almost_eq", vh::utils::roots::c17_almost_eq),
    #[cfg(feature = "utils")]
    ("c17_almost_eq_default", vh::utils::roots::c17_almost_eq_default),
    #[cfg(feature = "whole")]
    ("c10_whole_euler", vh::whole::roots::c10_whole_euler),
    #[cfg(feature = "whole")]
    ("c10_whole_heun", vh::whole::roots::c10_whole_heun),
    #[cfg(feature = "whole")]
    ("c10_whole_midpoint", vh::whole::roots::c10_whole_midpoint),
    #[cfg(feature = "whole")]
    ("c10_whole_ralston", vh::whole::roots::c10_whole_ralston),
    #[cfg(feature = "whole")]
    ("c10_whole_rk4", vh::whole::roots::c10_whole_rk4),
    #[cfg(feature = "whole")]
    ("c10_whole_rk23_attempt", vh::whole::roots::c10_whole_rk23_attempt),
    #[cfg(feature = "whole")]
    ("c10_whole_rk45_attempt", vh::whole::roots::c10_whole_rk45_attempt),
    #[cfg(feature = "whole")]
    ("c11_whole_euler", vh::whole::roots::c11_whole_euler),
    #[cfg(feature = "whole")]
    ("c11_whole_heun", vh::whole::roots::c11_whole_heun),
    #[cfg(feature = "whole")]
    ("c11_whole_midpoint", vh::whole::roots::c11_whole_midpoint),
    #[cfg(feature = "whole")]
    ("c11_whole_ralston", vh::whole::roots::c11_whole_ralston),
    #[cfg(feature = "whole")]
    ("c11_whole_rk4", vh::whole::roots::c11_whole_rk4),
    #[cfg(feature = "whole")]
    ("c11_whole_rk23_attempt", vh::whole::roots::c11_whole_rk23_attempt),
    #[cfg(feature = "whole")]
    ("c11_whole_rk45_attempt", vh::whole::roots::c11_whole_rk45_attempt),
];
