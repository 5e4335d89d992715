#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the table below)."""
import json, os
S='dess/src/solver.rs'; T='dess/src/traits_and_macros.rs'; A='dess/dess-proc-macros/src/solver_attr.rs'
HV='dess/dess-proc-macros/src/history_vec.rs'; HM='dess/dess-proc-macros/src/history_methods.rs'
BC='dess/dess-proc-macros/src/bare_clone.rs'; PY='dess/dess-proc-macros/src/pyo3_api.rs'
C='dess-examples/src/components.rs'; S3='dess-examples/src/three_thermal_mass_sys.rs'; SB='dess-examples/src/three_thrml_mass_w_bc_sys.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Fixed-step methods compute their published one-step map",
 "For every system of first-order ODEs dx/dt=f(t,x), every number of states, every starting time and states and every step size h, one step of the Euler, Heun, midpoint, Ralston (2/3) and classic RK4 methods leaves the states at exactly the value given by that method's published Butcher tableau (real arithmetic), evaluating f at the tableau's stage times and stage states. The step advances time by exactly h, no more and no less.",
 ["inputs","programs"],"all right-hand sides f, all dimensions n>=0, all t, x, h",
 "Tests compare two linear 3-state systems, mostly autonomous, against stored benchmarks with tolerances; a wrong stage time, a wrong node for a non-autonomous or non-linear f, or a coefficient error within tolerance is invisible, and no finite set of f settles 'every f'.",
 [S,A],[("SolverVariantMethods::{euler,heun,midpoint,ralston,rk4fixed}",S),("HasStates::step_states_by_dt/step_states/step_time generated by #[solver]",A)],
 observe=["states() and state().time after the step"])
p("C02","Bogacki-Shampine attempt evaluates the published 2(3) embedded pair",
 "For every system dx/dt=f(t,x), dimension, time, states and step size, one attempt of the RK2(3) adaptive method produces exactly the increments of the published Bogacki-Shampine third-order solution and of its embedded second-order solution (real arithmetic), with every stage evaluated at the tableau's stage time and stage state. The attempt itself changes neither the time nor the states nor the configuration of the system it is run on.",
 ["inputs","programs"],"all f, n, t, x, h",
 "The existing tests check RK23 only against an Euler baseline within 1e-2 on two linear systems; the embedded second-order solution only steers the step size, so a wrong coefficient or stage time in it cannot be seen there.",
 [S],[("rk23_bogacki_shampine_step",S)],observe=["the two returned increments","the system passed in"])
p("C03","Cash-Karp attempt evaluates the published 4(5) embedded pair",
 "For every system dx/dt=f(t,x), dimension, time, states and step size, one attempt of the RK4(5) adaptive method produces exactly the increments of the published Cash-Karp fifth-order solution and of its embedded fourth-order solution (real arithmetic), with every stage evaluated at the tableau's stage time and stage state. The attempt itself changes neither the time nor the states nor the configuration of the system it is run on.",
 ["inputs","programs"],"all f, n, t, x, h",
 "Tests only compare the final trajectory of a linear 3-state system with a tolerance; errors in nodes of non-autonomous stages or in the embedded solution survive that.",
 [S],[("rk45_cash_karp_step",S)],observe=["the two returned increments","the system passed in"])
p("C04","An adaptive step advances only by an accepted attempt",
 "Every adaptive step commits the higher-order increments of exactly one attempt, the last one made, and moves time by exactly that attempt's step size, which is also the value it returns. The attempt is committed only if the absolute error is below the absolute tolerance, or the error meets the tolerance in force (relative error at most the relative tolerance, or, where the increment is zero, absolute error at most the absolute tolerance), or the configured iteration limit has been reached; an attempt that satisfies any of these is never retried. Error estimates are the Euclidean norm of the difference of the two solutions' increments, absolute and relative to the Euclidean norm of the higher-order increment.",
 ["inputs","programs","configurations"],"all f, n, t, x, all tolerances, iteration limits, step sizes, all sequences of rejected attempts",
 "Which attempt sequence occurs depends on f and the tolerances; tests run three configurations and observe only the final trajectory.",
 [S],[("accept/reject loop in rk23_bogacki_shampine and rk45_cash_karp",S)],observe=["states, time, returned step after an adaptive step"])
p("C05","Adaptive steps respect the time remaining and the configured maximum",
 "The step size committed by an adaptive step, and that of every attempt within it, is at most the time remaining to the next report time, at most the configured maximum step and, for the first attempt, exactly the minimum of these two and the step size carried over. With a positive carried step and positive tolerances every attempted step is positive, and at most max(1, iteration limit) attempts are made.",
 ["inputs","configurations","histories"],"all carried steps, maxima, remaining times, tolerances, attempt sequences",
 "The tests never configure a maximum step smaller than the report interval and never look at individual attempts.",
 [S],[("dt clamp and attempt loop in rk23_bogacki_shampine / rk45_cash_karp",S)],observe=["returned step","solver diagnostics"])
p("C06","Adaptive step size is resized by the documented rule",
 "After each attempt the step size is multiplied by the factor (tolerance/error)^0.2 of the tolerance that was met (relative first, then absolute), or by 0.25 if a relative error exists and neither tolerance was met, or by (absolute tolerance/absolute error)^(0.2 if met, else 0.25) when there is no relative error. Hence a step whose error met a tolerance never makes the next step smaller, and an attempt that met no tolerance always makes the next one smaller.",
 ["inputs","configurations"],"all errors, tolerances, step sizes, both adaptive methods",
 "Tests observe only end-of-run trajectories; growth or shrink in the wrong direction merely changes the number of steps.",
 [S],[("dt_coeff computation in rk23_bogacki_shampine / rk45_cash_karp",S)],observe=["carried step size after a step"])
p("C07","Solver diagnostics describe the step actually taken and are recorded when asked",
 "After an adaptive step the diagnostics hold the number of attempts made, the absolute and relative error of the committed attempt and the time at the start of the step. With saving on, exactly one record is appended per step holding those diagnostics, the step size used, and (when state saving is also on) the states reached by the step; with saving off nothing is appended, and earlier records never change. The reported mean step is the arithmetic mean of the recorded steps, and absent when there are none.",
 ["inputs","configurations","histories"],"all step outcomes, all four save/save_states settings, all prior histories",
 "No test turns saving on.",
 [S,HV],[("sc_mut.state.* updates and history.push",S),("AdaptiveSolverConfig::dt_mean",S)],observe=["solver configuration's state and history"])
p("C08","A run yields one record per report time, in order, and never leaves the schedule",
 "For every non-empty schedule of report times with a finite last entry, every solver choice and every system, a run from index zero makes one solve call per report time, each aimed at the next report time in order, and appends exactly one record after each, stopping once time has reached the last report time. It never reads outside the schedule and never panics, and every record carries the index one past the report time it belongs to. No record is taken before its report time. The number of records equals the final index and is at most the length of the schedule; for a strictly increasing schedule that is not yet over when the run starts and whose first entry is not already past, there is exactly one record per report time, taken exactly at it (real arithmetic).",
 ["inputs","configurations","programs"],"all schedules (also unsorted, with duplicates, or with entries that are not numbers before the last), all solver kinds, all systems",
 "Tests run a handful of evenly spaced schedules; off-by-one in the index, duplicate or unsorted entries are not exercised.",
 [A,HM],[("walk / solve_step generated by #[solver]",A),("save_state generated by HistoryMethods",HM)],observe=["history lengths and recorded indices"])
p("C09","Steps are clipped so that each report time is met exactly",
 "While solving towards a report time, each step starts strictly before it and never passes it (real arithmetic), each fixed step is the minimum of the configured step and the time remaining, and solving ends with time equal to the report time if it started before it and unchanged otherwise. Every fixed step makes strict progress when the configured step is positive, so a fixed-step run reaches every report time in finitely many steps.",
 ["inputs","configurations","programs"],"all report times, configured steps, start times, solver kinds",
 "Tests use evenly spaced schedules where the step usually divides the interval and check trajectories, not individual steps.",
 [A],[("solve_step generated by #[solver]",A)],observe=["time after each step and after solving to a report time"])
p("C10","Derivatives and flows are consistent with the state after every step",
 "After every step of every solver method the system's derivatives equal the system's right-hand side evaluated at its current time and states, and so do its flow variables, so that each saved record of states, derivatives and flows is mutually consistent. A record taken without any intervening step repeats the previous values.",
 ["inputs","programs","configurations"],"all systems, all seven methods, all step sizes",
 "Tests compare temperatures only; derivative and flow histories are never checked.",
 [S,A],[("trailing update_derivs in every step method",S),("update_derivs from #[solver] args",A)],observe=["derivs(), flow(), saved histories"])
p("C11","A step changes nothing but state, derivatives, flows and solver diagnostics",
 "A step of any solver method leaves unchanged the report schedule, the report index, every configured parameter (tolerances, maximum step, iteration limit, saving flags, solver kind and fixed step size), every component parameter and every recorded history other than the solver's own. Intermediate stage evaluations leave no trace in the system.",
 ["inputs","programs","configurations"],"all systems, all seven methods",
 "No test compares the untouched parts of a system before and after a step.",
 [S,A],[("bare_clone'd stage systems in each method",S),("field writes in #[solver] impl",A)],observe=["all other public fields before/after a step"])
p("C12","History containers behave as a list of records",
 "For every record type, the derived history container behaves exactly as a list of whole records: new and default are empty, pushing appends one record with every field value kept, popping returns the last pushed record with every field and removes it (or nothing when empty), clearing empties every field, and length and emptiness always agree with the number of records. After any sequence of these operations all per-field sequences have equal length.",
 ["histories","inputs"],"all sequences of push/pop/clear, all record values, every derived container",
 "No test pops or clears; pushes are only checked through temperatures.",
 [HV],[("HistoryVec derive",HV)],observe=["container API and public per-field vectors"])
p("C13","Saving appends exactly one current record everywhere it is declared",
 "Saving the state of a system appends exactly one record, a copy of the current state, to its own history and to the history of every component declared as stateful or saved, recursively, and changes nothing else. Hence all these histories always keep the same length through a run.",
 ["inputs","histories"],"all systems built with the derive, all current states, all prior histories",
 "Tests read two temperature histories only.",
 [HM],[("HistoryMethods derive (save_state)",HM)],observe=["all component histories"])
p("C14","A bare clone equals the original minus histories and shares nothing",
 "A bare clone of a component or system carries the same parameters, states, derivatives, flows, schedule, index, time and solver configuration as the original, with empty histories in the system and in every stateful or saved component. The original is unchanged, and later changes to either never show in the other.",
 ["inputs","histories"],"all components and systems, all values and histories",
 "One test checks one default system after one run.",
 [BC],[("BareClone derive",BC)],observe=["public fields of clone and original"])
p("C15","State vectors map to components in declaration order, all states, no cross-talk",
 "Reading, setting or incrementing the state, derivative and storage vectors of a system addresses exactly its stateful components, one element each, in declaration order; setting then reading returns the vector set, incrementing adds elementwise, and stepping by h adds h times the derivative to each and advances time by h. No other quantity is changed, and resetting derivatives sets all of them to zero.",
 ["inputs","programs"],"all vectors, all component values, systems with any declared mix of stateful and saved fields",
 "Tests only use these vectors implicitly, in systems whose results are compared with tolerance.",
 [A,T],[("HasStates/SolverBase impl generated by #[solver]",A),("HasState default methods",T)],observe=["HasStates and SolverBase API"])
p("C16","Thermal networks obey Fourier flow and conserve energy",
 "For every network of masses, reservoirs and conductances, the flow through a conductance equals its conductance times the temperature difference of the two ends, positive from first to second, and the temperature rate of each mass equals the sum of its inflows minus outflows divided by its heat capacity. Energy is conserved: the capacity-weighted sum of rates equals the net flow from reservoirs (zero without any), one Euler step preserves total energy without reservoirs, and a reservoir's rate from its connections is zero so that no flow changes its temperature.",
 ["inputs","programs"],"all temperatures, conductances, positive capacities, topologies built with the connection macros",
 "Tests compare two fixed parameter sets with stored numbers; sign or storage mix-ups that cancel there are not excluded for other parameters or topologies.",
 [C,T,S3,SB],[("Conductance::set_flow, ThermalMass/ThermalReservoir HasState impls",C),("connect_states!/update_derivs! macros",T)],observe=["flow(), deriv() of components after derivative evaluation"])
p("C17","Grid, difference and comparison utilities match their definitions",
 "An evenly spaced grid of n points from a to b has exactly n points, the k-th being a + k(b-a)/(n-1) so that first and last are a and b, a grid of one point is a alone and of none is empty. The difference of a sequence has one element fewer (none for an empty sequence), each the next minus the current element. Approximate equality is true exactly when the absolute difference, or its ratio to the magnitude of the sum, is below the given tolerance, 1e-8 by default, and is symmetric.",
 ["inputs"],"all a, b, n; all sequences; all pairs and tolerances",
 "Linspace is only used to set up tests; diff and approximate equality have no test.",
 [T,"dess/src/utilities.rs"],[("Linspace::linspace, Diff::diff",T),("almost_eq","dess/src/utilities.rs")],observe=["returned vectors/booleans"])
p("C18","File format is chosen by extension, and unsupported names never touch data",
 "Saving to or loading from a file uses the JSON codec exactly for the extension json and the YAML codec exactly for yaml; for any other extension, or none, an error is returned, and saving then creates or truncates no file. A failure to create, open, encode or decode a file, or to decode a text, is returned as an error and never panics. The text and binary encoders and decoders call their own format's codec on the whole value.",
 ["inputs","fault_sequences"],"all file names, all values, all I/O and codec outcomes",
 "No test exercises files other than stored benchmarks with fixed names, and none injects an I/O failure.",
 [T],[("SerdeAPI::{to_file,from_file,to_json,from_json,to_yaml,from_yaml,to_bincode,from_bincode}",T)],observe=["results; calls to codec and file system"])
p("C19","Serialised data restores to an equal value",
 "For every value with finite numbers of every configuration, component, history and system type, serialising and then deserialising it through any faithful format returns an equal value: every public and private data field, solver variant and history entry is carried under its own name and none is lost, defaulted or exchanged.",
 ["inputs"],"all values of all serialisable types",
 "Only stored System benchmarks are read back; most types and variants are never round-tripped.",
 [T,S,C,S3,SB],[("derive(Serialize, Deserialize) via common_derives","dess/dess-proc-macros/src/lib.rs"),("history container derive",HV)],observe=["equality after a round trip"])
p("C20","The Python interface builds and exposes objects faithfully",
 "Objects constructed from Python carry every argument in the field it names, start with zero time, index and empty histories, and choose the solver requested; every exposed attribute returns the current value of the field of that name; copying yields an equal independent object; running the walk method does exactly what the native run does. The extension module offers every configuration, component, system, state and history class under its own name.",
 ["inputs"],"all argument values, all exposed attributes",
 "No stable test crosses the Python boundary.",
 [PY,S,C,S3,SB,"dess-examples-pyo3/src/lib.rs"],[("pyo3_api macro and its #[new]/getter blocks",PY),("module registration","dess-examples-pyo3/src/lib.rs")],observe=["fields after construction, getter results"])
p("C21","The configured solver is the one that runs, with its configured step",
 "Solving towards a report time executes exactly the step method of the configured solver kind, with its own configured step size, for every one of the seven kinds, on every step. The adaptive configuration is available exactly for the two adaptive kinds and is the one embedded in the configured solver, for reading and for writing.",
 ["configurations","inputs"],"all seven kinds, all step sizes, all systems built with the solver attribute",
 "Tests' tolerances cannot tell second-order methods from each other, and RK23 from RK45.",
 [A],[("match on solver_type in solve_step; sc / sc_mut",A)],observe=["states after solving vs the method's one-step map"])
p("C22","Fixed-step and adaptive runs are accurate to their order in floating point",
 "For every smooth system the global error of a run shrinks with the configured step at the order of the configured method, including the effect of floating-point rounding.",
 ["inputs","programs"],"all smooth f, all step sizes",
 "A convergence statement over all f and h; tests sample one.",
 [S,A],[("all step methods",S)],observe=["trajectory error"])
p("C23","Adaptive runs always terminate",
 "A run with an adaptive solver and positive tolerances reaches its last report time after finitely many steps for every system.",
 ["inputs","programs","configurations"],"all f, tolerances",
 "Liveness over unbounded histories.",
 [S,A],[("step resizing and accept loop",S)],observe=["run returns"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,x['id']
