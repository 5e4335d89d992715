NOTE.update({
'C01':'Proved for an arbitrary system: state vector of any length, uninterpreted right-hand side f(t,x), any dt.',
'C02':'Proved for an arbitrary system: state vector of any length, uninterpreted right-hand side f(t,x), any dt.',
'C03':'Proved for an arbitrary system: state vector of any length, uninterpreted right-hand side f(t,x), any dt.',
'C04':'Proved for an arbitrary system over the contract of one attempt (increments an uninterpreted function of the step size), any number of attempts by loop invariant, non-negative tolerances.',
'C05':'As C04, for positive tolerances, positive carried step, positive maximum and positive time remaining.',
'C06':'As C04, for positive tolerances, positive carried step, positive maximum and positive time remaining; powf over the reals is axiomatised (positivity, monotone comparison with 1).',
'C07':'As C04, with any diagnostics history; dt_mean for a history of any length.',
'C10':'Proved for every solver method over an arbitrary system, and again for the fixed-step methods over the methods the attribute and the walk macro generate for the two real systems and two representative ones.',
'C11':'Proved for every solver method and both single attempts over an arbitrary system, and again for the fixed-step methods over the generated methods of the two real systems and two representative ones.',
'C08':'Proved for every solver kind on the two real systems (every step method replaced by its contract, which may also leave anything in component states and solver diagnostics) and on a representative system of the solver attribute whose step methods are replaced by their contract (any step size in (0, remaining], C05/C09), schedules of any length with any entries but a finite last one, by loop invariants.',
'C09':'Proved for every solver kind on the two real systems (every step method replaced by its contract, which may also leave anything in component states and solver diagnostics) and on a representative system of the solver attribute whose step methods are replaced by their contract (fixed: time advances by the given step, C01; adaptive: by a step in (0, remaining], C05), any report time and configured step. That finitely many steps suffice follows from the proved strict progress by a step that is the configured one or the last; the number of steps itself is not an obligation.',
'C12':'Proved for the derived containers of every record type in /repo and three representative ones, for a container of any length.',
'C13':'Proved for the real systems and components and for a harness system mixing use_state, save_state, nested and plain fields; histories of any length.',
'C14':'Proved for the real systems and components and for a harness system mixing bare_clone-annotated, history and plain fields; aliasing is excluded by Rust ownership (no shared pointers in the types), which the engine relies on.',
'C15':'Proved for the real systems and a harness system mixing use_state and save_state fields; all vectors and component values.',
'C16':'Flow law, rate law, frame and energy balance are proved as contracts of one connection between any two kinds of component with any rates already accumulated, and for whole networks on the two real systems and a nine-connection network (cycle, chord, doubled edge, reservoir to reservoir); that a network of any size is a sequence of such connections follows from the macros repeating one statement per tuple.',
'C17':'Proved for grids of any size, sequences of any length, all finite values and tolerances.',
'C18':'Proved over assumed contracts of std::fs, std::path, serde_json, serde_yaml, bincode and anyhow (each call may fail; a codec is a partial function of the text; encoding a plain value does not fail), for any file name and values of every serialisable type of dess and dess-examples and a representative system; the file and codec calls made are an exact ghost trace.',
'C19':'Proved for the derived impls of every serialisable type in dess and dess-examples and of two harness systems, against an exact in-memory format read by name and by position; containers of any length. serde\'s own Vec impls are assumed to carry the sequence whole; serde\'s Option, Box, primitive, seed and missing-field code is executed.',
'C20':'Proved for the exposed methods of every real type and of representative types given to the macro (constructors, attributes, walk, copies, default, JSON/YAML/bincode text, files, len, dt_mean) and for the registration of the classes in the extension module (`add_class` assumed to succeed and to offer the class under its NAME); pyo3\'s glue (argument conversion, attribute names bound to the method of that name) is assumed; the bounded native runs go through CPython.',
'C21':'Proved for every solver kind: on the two real systems and a recorder system the attribute-generated solve_step calls the configured kind with its configured step on every iteration; on an arbitrary system one solve towards a report time within one step gives the tableau of that kind; accessors on the real systems and a mixed one.',
})
P='not claimed: '
NA.update({
'C22':'accuracy of floating-point rounding is outside the contracts: the verifier treats f64 arithmetic as exact real arithmetic, and no installed deductive back end decides rounding-error bounds over loops of unbounded length',
'C23':'termination of the step loop (a lower bound on adaptive step sizes for every system) is a liveness property the partial-correctness contracts do not express',
})
for p in props:
    if p['id'] not in NA: NA[p['id']]=P+'no contract has been built for it yet'
