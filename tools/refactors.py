"""refactors.py [ID...]: behaviour-preserving edits; every check must stay quiet on them (development aid, works in /tmp/ref).
Prints, per edit, the properties whose check is not fully proved any more and any alarm."""
import os,sys,subprocess,re,shutil
V='/verif'; B=os.environ.get('REFDIR','/tmp/ref/w')
S='dess/src/solver.rs'; SA='dess/dess-proc-macros/src/solver_attr.rs'; HV='dess/dess-proc-macros/src/history_vec.rs'; HM='dess/dess-proc-macros/src/history_methods.rs'
BC='dess/dess-proc-macros/src/bare_clone.rs'; PY='dess/dess-proc-macros/src/pyo3_api.rs'; TM='dess/src/traits_and_macros.rs'; UT='dess/src/utilities.rs'; CO='dess-examples/src/components.rs'
NORM='''            sc_mut.state.norm_err = Some(
                delta%d
                    .iter()
                    .zip(&delta%d)
                    .map(|(d%d, d%d)| (d%d - d%d).powi(2))
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),
            );
'''
def norm(a,b): return NORM%(a,b,a,b,a,b)
R={}
R['norm_helper']=[(S,norm(2,3),"            sc_mut.state.norm_err = Some(norm_of_difference(&delta2, &delta3));\n"),(S,norm(4,5),"            sc_mut.state.norm_err = Some(norm_of_difference(&delta4, &delta5));\n"),
 (S,"pub trait SolverBase:","""/// euclidean norm of the difference of two increments
fn norm_of_difference(low: &[f64], high: &[f64]) -> f64 {
    let mut sum = 0.;
    for (l, h) in low.iter().zip(high) {
        let e = l - h;
        sum += e * e;
    }
    sum.sqrt()
}

pub trait SolverBase:""")]
R['rk4_index_loop']=[(S,"""        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }
""","""        let n = k1s.len();
        let mut delta: Vec<f64> = Vec::with_capacity(n);
        for i in 0..n {
            let weighted = k1s[i] + 2. * (k2s[i] + k3s[i]) + k4s[i];
            delta.push(weighted * dt / 6.);
        }
""")]
R['rk4_map_collect']=[(S,"""        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }
""","""        let delta: Vec<f64> = (0..k1s.len())
            .map(|i| (k1s[i] + 2. * k2s[i] + 2. * k3s[i] + k4s[i]) * *dt / 6.)
            .collect();
""")]
R['rk4_while']=[(S,"""        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }
""","""        let mut delta = vec![0.; k1s.len()];
        let mut j = 0;
        while j < delta.len() {
            delta[j] = 1. / 6. * (k1s[j] + 2. * k2s[j] + 2. * k3s[j] + k4s[j]) * dt;
            j += 1;
        }
""")]
R['heun_combined']=[(S,"""            .map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)""","""            .map(|(d_1, d_2)| (d_1 + d_2) / 2.)""")]
R['tol_met_map_or']=[(S,"""            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
""","""            let err = sc_mut.state.norm_err.unwrap();
            let tol_met = sc_mut
                .state
                .norm_err_rel
                .map_or(err <= sc_mut.atol, |e| e <= sc_mut.rtol);
""",0),(S,"""            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
""","""            let tol_met = if let Some(rel) = sc_mut.state.norm_err_rel {
                rel <= sc_mut.rtol
            } else {
                sc_mut.state.norm_err.map(|e| e <= sc_mut.atol).unwrap_or_default()
            };
""",0)]
R['walk_for']=[(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }
""","""                loop {
                    let end = self.t_report[self.t_report.len() - 1];
                    if !(self.state.time < end) {
                        break;
                    }
                    self.advance_one();
                }
            }
            fn advance_one(&mut self) {
                self.solve_step();
                self.state.i += 1;
                self.save_state();
""")]
R['dispatch_helper']=[(SA,"""                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
                    match""","""                let target = self.t_report[self.state.i];
                loop {
                    if self.state.time >= target || self.state.time.is_nan() || target.is_nan() {
                        return;
                    }
                    let dt = target - self.state.time;
                    match"""),(SA,"""                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
""","""                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = if dt_fixed < &dt { *dt_fixed } else { dt };
""")]
R['history_vec_pop_map']=[(HV,"""                if self.is_empty() {
                    None
                } else {
                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
                    Some(#original_name{#(#field_names: #field_names),*})
                }
""","""                match self.len() {
                    0 => None,
                    _ => {
                        let record = #original_name{#(#field_names: self.#field_names.pop()?),*};
                        Some(record)
                    }
                }
"""),(HV,"#(self.#field_names.clear();)*","#(self.#field_names.truncate(0);)*"),(HV,"self.#first_field.is_empty()","self.len() == 0")]
R['bare_clone_literal']=[(BC,"""                let mut new = Self::default();
                #(new.#fields_to_bare_clone = self.#fields_to_bare_clone.bare_clone();)*
                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*
                new
""","""                Self {
                    #(#fields_to_clone: self.#fields_to_clone.clone(),)*
                    #(#fields_to_bare_clone: self.#fields_to_bare_clone.bare_clone(),)*
                    ..Default::default()
                }
""")]
R['states_vec_macro']=[(SA,"""                let mut states: Vec<f64> = Vec::new();
                #(states.push(self.#fields_with_state.state());)*
                states
""","""                vec![#(self.#fields_with_state.state()),*]
"""),(SA,"""                let mut iter = val.iter();
                #(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*
""","""                let mut k = 0;
                #(
                    self.#fields_with_state.set_deriv(val[k]);
                    k += 1;
                )*
"""),(SA,"#(self.#fields_with_state.set_deriv(0.0);)*","#(self.#fields_with_state.set_deriv(Default::default());)*")]
R['save_state_order']=[(HM,"""                    #self_state_push;
                    #(self.#fields_with_state.save_state();)*
""","""                    #(self.#fields_with_state.save_state();)*
                    #self_state_push;
""")]
R['almost_eq_reorder']=[(UT,"((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon","""{
        let gap = (val1 - val2).abs();
        gap < epsilon || gap / (val1 + val2).abs() < epsilon
    }""")]
R['diff_loop']=[(TM,"""        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
""","""        let mut out = Vec::new();
        for i in 1..self.len() {
            out.push(self[i] - self[i - 1]);
        }
        out
""")]
R['diff_zip_skip']=[(TM,"""        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
""","""        self.iter().zip(self.iter().skip(1)).map(|(x, y)| y - x).collect()
""")]
R['linspace_map']=[(TM,"""        let v_norm: Vec<f64> = (0..=n_steps)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
""","""        (0..n_elements).map(|k| start + k as f64 * step_size).collect()
""")]
R['to_file_text']=[(TM,"""            "json" => {
                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            _ => Err(anyhow!("Unsupported file extension {}", extension)),
""","""            "json" => Ok(serde_json::to_writer(File::create(&file)?, self)?),
            "yaml" => {
                let handle = File::create(&file)?;
                serde_yaml::to_writer(handle, self)?;
                Ok(())
            }
            other => anyhow::bail!("Unsupported file extension {}", other),
""")]
R['from_file_ext_first']=[(TM,"""        let file = File::open(filename)?;
        match extension {
            "yaml" => Ok(serde_yaml::from_reader(file)?),
            "json" => Ok(serde_json::from_reader(file)?),
            _ => Err""","""        match extension {
            "json" => Ok(serde_json::from_reader(File::open(filename)?)?),
            "yaml" => Ok(serde_yaml::from_reader(File::open(filename)?)?),
            _ => Err""")]
R['components_helper']=[(CO,"self.state.q = self.h * (p0.state() - p1.state());","""let (hot, cold) = (p0.state(), p1.state());
        self.state.q = heat_rate(self.h, hot, cold);"""),(CO,"/// Struct for tracking flow variables in Conductance","""/// heat flowing through a conductance
fn heat_rate(h: f64, hot: f64, cold: f64) -> f64 {
    h * hot - h * cold
}

/// Struct for tracking flow variables in Conductance""")]
R['update_macro_local']=[(TM,"""            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());
""","""            let q = $sys.$c.flow();
            $sys.$s1.step_deriv(q / $sys.$s1.storage());
            $sys.$s0.step_deriv(-(q / $sys.$s0.storage()));
""")]
R['config_update_fn']=[(S,"""                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step
                sc_mut.state.dt *= dt_coeff;
                break (delta3, dt_used);
            };
            // adapt for next iteration in current time step
            sc_mut.state.dt *= dt_coeff;
""","""                break (delta3, sc_mut.resize(dt_coeff));
            };
            // adapt for next iteration in current time step
            sc_mut.resize(dt_coeff);
"""),(S,"""impl AsMut<AdaptiveSolverConfig> for""","""impl AdaptiveSolverConfig {
    /// scales the step size by `factor` and returns the previous one
    fn resize(&mut self, factor: f64) -> f64 {
        let used = self.state.dt;
        self.state.dt = used * factor;
        used
    }
}

impl AsMut<AdaptiveSolverConfig> for""")]
R['rk45_stage_helper']=[(S,"""        let mut sys4 = self.bare_clone();
        sys4.step_time(&dt);
        sys4.step_states({
            let (k1s, k2s, k3s, k4s) = (k1s.clone(), k2s.clone(), k3s.clone(), k4s.clone());
            let zipped = zip!(k1s, k2s, k3s, k4s);
            let mut steps = vec![];
            for (k1, (k2, (k3, k4))) in zipped {
                steps.push((-11. / 54. * k1 + 5. / 2. * k2 - 70. / 27. * k3 + 35. / 27. * k4) * dt);
            }
            steps
        });
        sys4.update_derivs();
        let k5s = sys4.derivs();
""","""        let k5s = self.stage(
            dt,
            weighted(&[(-11. / 54., &k1s), (2.5, &k2s), (-70. / 27., &k3s), (35. / 27., &k4s)], dt),
        );
"""),(S,"""pub trait SolverVariantMethods: SolverBase {
""","""/// weighted sum of stage derivatives times the step size
fn weighted(terms: &[(f64, &Vec<f64>)], dt: f64) -> Vec<f64> {
    (0..terms[0].1.len())
        .map(|i| terms.iter().map(|(w, k)| w * k[i]).sum::<f64>() * dt)
        .collect()
}

pub trait SolverVariantMethods: SolverBase {
    /// derivatives after moving a copy by `dt` and `steps`
    fn stage(&self, dt: f64, steps: Vec<f64>) -> Vec<f64> {
        let mut sys = self.bare_clone();
        sys.step_time(&dt);
        sys.step_states(steps);
        sys.update_derivs();
        sys.derivs()
    }
""")]
R['dt_mean_sum']=[(S,"""        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }
""","""        let n = self.history.dt.len();
        (n > 0).then(|| self.history.dt.iter().sum::<f64>() / n as f64)
""")]
R['py_walk_ufcs']=[(PY,"                self.clone()\n            }\n\n            #[pyo3(name = \"clone\")]","                Clone::clone(self)\n            }\n\n            #[pyo3(name = \"clone\")]"),(PY,'format!("self.{}.clone()", &fname)','format!("Clone::clone(&self.{})", &fname)'),(PY,"Ok(Self::from_json(json_str)?)","Self::from_json(json_str).map_err(Into::into)")]
R['powf_sqrt_chain']=[(S,"""                    .map(|(d2, d3)| (d2 - d3).powi(2))
""","""                    .map(|(d2, d3)| {
                        let e = d3 - d2;
                        e * e
                    })
""")]
R['states_saved_by_loop']=[(S,"""                self.states()
                    .clone()
                    .iter()
                    .zip(delta3.clone())
                    .map(|(s, d)| s + d)
                    .collect::<Vec<f64>>()
""","""                let mut reached = self.states();
                for (s, d) in reached.iter_mut().zip(&delta3) {
                    *s += d;
                }
                reached
""")]
R['dt_coeff_helper']=[(S,"""                    None => (sc_mut.rtol / norm_err_rel).powf(if norm_err_rel <= sc_mut.rtol {
                        0.2
                    } else {
                        0.25
                    }),
""","""                    None => unreachable!("an absolute error is always there"),
""",1)]
R['min_chain_if']=[(S,"sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);","""let limit = dt_max.min(sc_mut.dt_max);
        if sc_mut.state.dt > limit {
            sc_mut.state.dt = limit;
        }""",1)]
# ---- second set
R['push_destructure']=[(HV,"""                #(self.#field_names.push(value.#field_names);)*
""","""                let #original_name { #(#field_names),* } = value;
                #(self.#field_names.push(#field_names);)*
"""),(HV,"""                self.#first_field.len()
""","""                let n = self.#first_field.len();
                n
""")]
R['norm_fold']=[(S,norm(2,3),"""            sc_mut.state.norm_err = Some(
                delta2
                    .iter()
                    .zip(delta3.iter())
                    .fold(0., |acc, (low, high)| acc + (high - low).powi(2))
                    .sqrt(),
            );
"""),(S,norm(4,5),"""            let difference: Vec<f64> = delta4.iter().zip(&delta5).map(|(d4, d5)| d4 - d5).collect();
            sc_mut.state.norm_err = Some(l2(&difference));
"""),(S,"""            let norm_d5 = delta5
                .iter()
                .map(|d5| d5.powi(2))
                .collect::<Vec<f64>>()
                .iter()
                .sum::<f64>()
                .sqrt();
""","            let norm_d5 = l2(&delta5);\n"),(S,"pub trait SolverBase:","""/// euclidean norm
fn l2(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

pub trait SolverBase:""")]
R['while_not_accepted']=[(S,"""        let (delta3, dt_used) = loop {
            let sc""","""        let mut accepted: Option<(Vec<f64>, f64)> = None;
        while accepted.is_none() {
            let sc"""),(S,"""                break (delta3, dt_used);
            };
            // adapt for next iteration in current time step
            sc_mut.state.dt *= dt_coeff;
        };
""","""                accepted = Some((delta3, dt_used));
            } else {
                // adapt for next iteration in current time step
                sc_mut.state.dt *= dt_coeff;
            }
        }
        let (delta3, dt_used) = accepted.unwrap();
""")]
R['save_then']=[(S,"""            let states = if sc.save {
                self.states()
                    .clone()
                    .iter()
                    .zip(delta5.clone())
                    .map(|(s, d)| s + d)
                    .collect::<Vec<f64>>()
            } else {
                vec![]
            };
""","""            let states: Vec<f64> = sc
                .save
                .then(|| self.states().into_iter().zip(&delta5).map(|(s, d)| s + d).collect())
                .unwrap_or_default();
"""),(S,"""            // conditions for breaking loop
            // if there is a relative error, use that
            // otherwise, use the absolute error
""","",1) if 0 else (S,"sc_mut.state.norm_err.unwrap() < sc_mut.atol\n                || tol_met;","tol_met\n                || matches!(sc_mut.state.norm_err, Some(e) if e < sc_mut.atol);",1)]
R['almost_eq_returns']=[(UT,"""    let epsilon = epsilon.unwrap_or(1e-8);
    ((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon
""","""    let tol = match epsilon {
        Some(e) => e,
        None => 1e-8,
    };
    let gap = (val1 - val2).abs();
    if gap < tol {
        return true;
    }
    gap / (val1 + val2).abs() < tol
""")]
R['dt_mean_loop']=[(S,"""        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }
""","""        if self.history.len() == 0 {
            return None;
        }
        let mut total = 0.;
        for dt in &self.history.dt {
            total += *dt;
        }
        Some(total / (self.history.dt.len() as f64))
""")]
R['rk4_stage_helper']=[(S,"""        let mut sys1 = self.bare_clone();
        sys1.step_states_by_dt(&(dt / 2.));
        sys1.update_derivs();
        let k2s = sys1.derivs();

        // k3 = f(x_i + 1 / 2 * h, y_i + 1 / 2 * k2 * h)
        let mut sys2 = self.bare_clone();
        sys2.set_derivs(&k2s);
        sys2.step_states_by_dt(&(dt / 2.));
        sys2.update_derivs();
        let k3s = sys2.derivs();

        // k4 = f(x_i + h, y_i + k3 * h)
        let mut sys3 = self.bare_clone();
        sys3.set_derivs(&k3s);
        sys3.step_states_by_dt(dt);
        sys3.update_derivs();
        let k4s = sys3.derivs();
""","""        let k2s = self.slope_at(&k1s, &(0.5 * dt));

        // k3 = f(x_i + 1 / 2 * h, y_i + 1 / 2 * k2 * h)
        let k3s = self.slope_at(&k2s, &(0.5 * dt));

        // k4 = f(x_i + h, y_i + k3 * h)
        let k4s = self.slope_at(&k3s, dt);
"""),(S,"pub trait SolverVariantMethods: SolverBase {\n","""pub trait SolverVariantMethods: SolverBase {
    /// derivatives after a trial step of `dt` along `slope`
    fn slope_at(&self, slope: &[f64], dt: &f64) -> Vec<f64> {
        let mut trial = self.bare_clone();
        trial.set_derivs(slope);
        trial.step_states_by_dt(dt);
        trial.update_derivs();
        trial.derivs()
    }
""")]
R['rk45_index_loop']=[(S,"""        let zipped = zip!(k1s, k2s, k3s, k4s, k5s, k6s);
        for (k1, (_k2, (k3, (k4, (k5, k6))))) in zipped {
            delta5.push(
                (37. / 378. * k1 + 250. / 621. * k3 + 125. / 594. * k4 + 512. / 1_771. * k6) * dt,
            );
            delta4.push(
                (2825. / 27_648. * k1
                    + 18_575. / 48_384. * k3
                    + 13_525. / 55_296. * k4
                    + 277. / 14_336. * k5
                    + 1. / 4. * k6)
                    * dt,
            );
        }
""","""        for i in 0..k1s.len() {
            let (k1, k3, k4, k5, k6) = (k1s[i], k3s[i], k4s[i], k5s[i], k6s[i]);
            let low = 2825. / 27_648. * k1
                + 18_575. / 48_384. * k3
                + 13_525. / 55_296. * k4
                + 277. / 14_336. * k5
                + 0.25 * k6;
            let high = 37. / 378. * k1 + 250. / 621. * k3 + 125. / 594. * k4 + 512. / 1_771. * k6;
            delta4.push(dt * low);
            delta5.push(dt * high);
        }
""")]
R['set_states_index']=[(SA,"""                let mut iter = val.iter();
                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*
""","""                let mut position = 0;
                #(
                    self.#fields_with_state.set_state(val[position]);
                    position += 1;
                )*
"""),(SA,"""                let mut iter = val.iter();
                #(self.#fields_with_state.step_state(iter.next().unwrap().clone());)*
""","""                let mut iter = val.into_iter();
                #(self.#fields_with_state.step_state(iter.next().expect("a step for every state"));)*
""")]
R['derivs_vec_literal']=[(SA,"""                let mut derivs: Vec<f64> = Vec::new();
                #(derivs.push(self.#fields_with_state.deriv());)*
                derivs
""","""                vec![#(self.#fields_with_state.deriv()),*]
"""),(SA,"""                let mut storages: Vec<f64> = Vec::new();
                #(storages.push(self.#fields_with_state.storage());)*
                storages
""","""                [#(self.#fields_with_state.storage()),*].to_vec()
"""),(SA,"""                #(self.#fields_with_state.step_state_by_dt(dt);)*
                self.step_time(dt);
""","""                let steps: Vec<f64> = self.derivs().iter().map(|d| d * dt).collect();
                self.step_states(steps);
                self.step_time(dt);
""")]
R['sc_or_pattern']=[(SA,"""                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
                }
            }
            fn sc_mut""","""                    SolverTypes::RK45CashKarp(sc) | SolverTypes::RK23BogackiShampine(sc) => Some(&**sc),
                    SolverTypes::EulerFixed { .. }
                    | SolverTypes::HeunsMethod { .. }
                    | SolverTypes::MidpointMethod { .. }
                    | SolverTypes::RalstonsMethod { .. }
                    | SolverTypes::RK4Fixed { .. } => None,
                }
            }
            fn sc_mut"""),(SA,"""                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
                }
            }
            fn state(""","""                    SolverTypes::RK45CashKarp(sc) | SolverTypes::RK23BogackiShampine(sc) => Some(sc.as_mut()),
                    _ => None,
                }
            }
            fn state(""")]
R['dispatch_fixed_dt']=[(SA,"""                    let dt = self.t_report[self.state.i] - self.state.time;
                    match &self.solver_type {
                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.euler(&dt);
                        },
                        SolverTypes::HeunsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.heun(&dt);
                        },
""","""                    let remaining = self.t_report[self.state.i] - self.state.time;
                    let dt = match &self.solver_type {
                        SolverTypes::EulerFixed{dt}
                        | SolverTypes::HeunsMethod{dt}
                        | SolverTypes::MidpointMethod{dt}
                        | SolverTypes::RalstonsMethod{dt}
                        | SolverTypes::RK4Fixed{dt} => remaining.min(*dt),
                        _ => remaining,
                    };
                    match &self.solver_type {
                        SolverTypes::EulerFixed{..} => {
                            self.euler(&dt);
                        },
                        SolverTypes::HeunsMethod{..} => {
                            self.heun(&dt);
                        },
"""),]
R['walk_last_helper']=[(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
""","""                while !self.finished() {
"""),(SA,"""            /// Runs `solver_type` specific step method that calls
""","""            /// whether the end of the schedule has been reached
            fn finished(&self) -> bool {
                let end = *self.t_report.last().unwrap();
                !(end > self.state.time)
            }
            /// Runs `solver_type` specific step method that calls
""")]
R['module_helper']=[('dess-examples-pyo3/src/lib.rs',"""    m.add_class::<Conductance>()?;
    m.add_class::<ConductanceState>()?;
    m.add_class::<ConductanceStateHistoryVec>()?;
    Ok(())
}""","""    add_conductance(m)
}

/// classes about conductances
fn add_conductance(m: &PyModule) -> PyResult<()> {
    m.add_class::<Conductance>()?;
    m.add_class::<ConductanceState>()?;
    m.add_class::<ConductanceStateHistoryVec>()
}""")]
R['module_order']=[('dess-examples-pyo3/src/lib.rs',"""    m.add_class::<Conductance>()?;
    m.add_class::<ConductanceState>()?;
    m.add_class::<ConductanceStateHistoryVec>()?;
    Ok(())
""","""    if let Err(e) = m.add_class::<ConductanceState>() {
        return Err(e);
    }
    m.add_class::<ConductanceStateHistoryVec>()?;
    m.add_class::<Conductance>()
""")]
R['euler_via_states']=[(S,"""        self.update_derivs();
        self.step_states_by_dt(dt);
        self.update_derivs();
    }
    /// Heun's""","""        self.update_derivs();
        let slopes = self.derivs();
        let steps: Vec<f64> = slopes.iter().map(|slope| slope * dt).collect();
        self.step_states(steps);
        self.step_time(dt);
        self.update_derivs();
    }
    /// Heun's""")]
R['heun_no_second_copy']=[(S,"""        updated_self.set_derivs(&deriv_mean);
        //steps states using the average derivative
        updated_self.step_states_by_dt(dt);
        //saving updated state
        let new_state = updated_self.states();
        //setting state to be the updated state
        self.set_states(new_state);
        self.update_derivs();
""","""        let new_state = updated_self
            .states()
            .iter()
            .zip(deriv_mean.iter())
            .map(|(x, d)| x + d * dt)
            .collect();
        //setting state to be the updated state
        self.set_states(new_state);
        self.update_derivs();
"""),(S,"""        let mut updated_self = self.bare_clone();
        //recording initial derivative value for later use
""","""        let updated_self = self.bare_clone();
        //recording initial derivative value for later use
""")]
R['mass_helper']=[(CO,"""        self.state.temp = val;
""","""        let ThermalMassState { temp, .. } = &mut self.state;
        *temp = val;
""",0),(CO,"""        self.state.q = self.h * (p0.state() - p1.state());
""","""        let drop = p0.state() - p1.state();
        self.state = ConductanceState { q: drop * self.h };
"""),(CO,"""    fn step_deriv(&mut self, val: f64) {
        self.state.dtemp += val;
    }
    fn storage(&self) -> f64 {
        self.c
""","""    fn step_deriv(&mut self, val: f64) {
        let total = self.deriv() + val;
        self.set_deriv(total);
    }
    fn storage(&self) -> f64 {
        self.c
""")]
R['py_getters_let']=[(PY,'format!("self.{}.clone()", &fname)','format!("let value = &self.{}; value.to_owned()", &fname)'),(PY,"""                Ok(Self::default())
""","""                let made: Self = Default::default();
                Ok(made)
"""),(PY,"""                Ok(self.to_file(filename)?)
""","""                match self.to_file(filename) {
                    Ok(()) => Ok(()),
                    Err(e) => Err(e.into()),
                }
"""),(PY,"""                Ok(Self::from_bincode(encoded.as_bytes())?)
""","""                let bytes: &[u8] = encoded.as_bytes();
                let made = Self::from_bincode(bytes)?;
                Ok(made)
""")]
R['new_py_struct_update']=[(S,"""        Self{
            dt_max,
            max_iter,
            atol,
            rtol,
            save: save.unwrap_or(false),
            save_states: save_states.unwrap_or(false),
            state: SolverState {
                dt: dt_init,
                ..Default::default()
            },
            history: Default::default(),
        }
""","""        let mut config = Self {
            dt_max,
            max_iter,
            rtol,
            atol,
            ..Default::default()
        };
        config.state.dt = dt_init;
        if let Some(flag) = save {
            config.save = flag;
        }
        config.save_states = matches!(save_states, Some(true));
        config
""")]
R['zip_macro_into']=[(TM,"""        $x.iter().zip(
            zip!($($y), +))""","""        IntoIterator::into_iter(&$x).zip(zip!($($y), +))""")]
R['reset_through_set']=[(SA,"""                #(self.#fields_with_state.set_deriv(0.0);)*
""","""                let zeros = vec![0.0; self.derivs().len()];
                self.set_derivs(&zeros);
"""),(SA,"self.state.time += dt;","self.state.time = self.state.time + *dt;")]
R['coeff_match_tuple']=[(S,"""            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => {
                    //ensures that if either rtol or atol are met, then the step succeeds
                    //prioritizes rtol -- if both atol and rtol are met, rtol is used
                    if norm_err_rel <= sc_mut.rtol {
                        (sc_mut.rtol / norm_err_rel).powf(0.2)
                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
                        (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                    } else {
                        0.25
                    }
""","""            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => {
                    //ensures that if either rtol or atol are met, then the step succeeds
                    //prioritizes rtol -- if both atol and rtol are met, rtol is used
                    let grow = |tol: f64, err: f64| (tol / err).powf(0.2);
                    match sc_mut.state.norm_err {
                        _ if norm_err_rel <= sc_mut.rtol => grow(sc_mut.rtol, norm_err_rel),
                        Some(e) if e <= sc_mut.atol => grow(sc_mut.atol, e),
                        _ => 0.25,
                    }
""")]
# ---- third set
R['done_flag']=[(S,"""        let (delta5, dt_used) = loop {
            let sc""","""        let mut done = false;
        let mut committed = Vec::new();
        let mut dt_used = 0.;
        while !done {
            let sc"""),(S,"""            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                || tol_met;

            if break_cond {""","""            done = tol_met
                || sc_mut.state.n_iter >= sc_mut.max_iter
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol;

            if done {""",1),(S,"""                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step
                sc_mut.state.dt *= dt_coeff;
                break (delta5, dt_used);
            };
            // adapt for next iteration in current time step
            sc_mut.state.dt *= dt_coeff;
        };
""","""            }
            dt_used = sc_mut.state.dt;
            // adapt for the next attempt, in this step or the next
            sc_mut.state.dt *= dt_coeff;
            committed = delta5;
        }
        let delta5 = committed;
""")]
R['flag_loops']=[(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }
""","""                let mut going = &self.state.time < self.t_report.last().unwrap();
                while going {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                    going = &self.state.time < self.t_report.last().unwrap();
                }
"""),(SA,"""                while self.state.time < self.t_report[self.state.i] {
                    let dt =""","""                loop {
                    if !(self.state.time < self.t_report[self.state.i]) {
                        break;
                    }
                    let dt =""")]
R['error_helper']=[(S,"""            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
""","            let tol_met = sc_mut.tolerance_met();\n",0),(S,"""            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
""","            let tol_met = sc_mut.tolerance_met();\n",0),(S,"""impl AdaptiveSolverConfig {
""","""impl AdaptiveSolverConfig {
    /// whether the latest attempt met the tolerance in force
    fn tolerance_met(&self) -> bool {
        match (self.state.norm_err_rel, self.state.norm_err) {
            (Some(rel), _) => rel <= self.rtol,
            (None, Some(err)) => err <= self.atol,
            (None, None) => unreachable!(),
        }
    }
    /// saves the diagnostics, if asked to
    fn record(&mut self) {
        if self.save {
            let state = self.state.clone();
            self.history.push(state);
        }
    }
"""),(S,"""                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used""","""                sc_mut.record();
                // store used""",0),(S,"""                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used""","""                sc_mut.record();
                // store used""",0),(S,"""        let sc_mut = self.sc_mut().unwrap();
        // reset iteration counter
        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);
""","""        if let Some(sc) = self.sc_mut() {
            sc.state.n_iter = 0;
            sc.state.dt = sc.dt_max.min(*dt_max).min(sc.state.dt);
        }
""",0)]
# ---- fourth set: whole functions in another style.  ('fn',name) stands for the text of that function.
def HEAD(a): return '''        let sc_mut = self.sc_mut().unwrap();
'''
R['butcher_rk4']=[(S,('fn','rk4fixed'),"""    fn rk4fixed(&mut self, dt: &f64) {
        const NODES: [f64; 3] = [0.5, 0.5, 1.];
        const WEIGHTS: [f64; 4] = [1. / 6., 1. / 3., 1. / 3., 1. / 6.];
        self.update_derivs();
        let mut ks: Vec<Vec<f64>> = vec![self.derivs()];
        for c in NODES {
            let mut sys = self.bare_clone();
            sys.set_derivs(&ks[ks.len() - 1]);
            sys.step_states_by_dt(&(c * dt));
            sys.update_derivs();
            ks.push(sys.derivs());
        }
        let n = ks[0].len();
        let delta: Vec<f64> = (0..n)
            .map(|i| WEIGHTS.iter().zip(&ks).map(|(w, k)| w * k[i]).sum::<f64>() * dt)
            .collect();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
""")]
R['rk4_running_delta']=[(S,('fn','rk4fixed'),"""    fn rk4fixed(&mut self, dt: &f64) {
        self.update_derivs();
        let mut k = self.derivs();
        let mut delta: Vec<f64> = k.iter().map(|k1| k1 / 6. * dt).collect();
        for (share, weight) in [(0.5, 1. / 3.), (0.5, 1. / 3.), (1., 1. / 6.)] {
            let mut trial = self.bare_clone();
            trial.set_derivs(&k);
            trial.step_states_by_dt(&(share * dt));
            trial.update_derivs();
            k = trial.derivs();
            for (d, ki) in delta.iter_mut().zip(&k) {
                *d += weight * ki * dt;
            }
        }
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
""")]
R['rk23_combine']=[(S,('fn','rk23_bogacki_shampine_step'),"""    fn rk23_bogacki_shampine_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        fn combine(terms: &[(f64, &[f64])], dt: f64) -> Vec<f64> {
            let n = terms[0].1.len();
            let mut out = vec![0.0; n];
            for (coeff, ks) in terms {
                for (o, k) in out.iter_mut().zip(ks.iter()) {
                    *o += coeff * k;
                }
            }
            out.iter_mut().for_each(|o| *o *= dt);
            out
        }
        self.update_derivs();
        let k1s = self.derivs();
        let slope_after = |sys: &Self, ks: &[f64], h: f64| {
            let mut trial = sys.bare_clone();
            trial.set_derivs(ks);
            trial.step_states_by_dt(&h);
            trial.update_derivs();
            trial.derivs()
        };
        let k2s = slope_after(self, &k1s, 0.5 * dt);
        let k3s = slope_after(self, &k2s, 0.75 * dt);
        let delta3 = combine(&[(2. / 9., &k1s), (1. / 3., &k2s), (4. / 9., &k3s)], dt);
        let mut end = self.bare_clone();
        end.step_states(delta3.clone());
        end.step_time(&dt);
        end.update_derivs();
        let k4s = end.derivs();
        let delta2 = combine(&[(7. / 24., &k1s), (1. / 4., &k2s), (1. / 3., &k3s), (1. / 8., &k4s)], dt);
        (delta2, delta3)
    }
""")]
R['rk45_tableau']=[(S,('fn','rk45_cash_karp_step'),"""    fn rk45_cash_karp_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        const C: [f64; 5] = [1. / 5., 3. / 10., 3. / 5., 1., 7. / 8.];
        const A: [[f64; 5]; 5] = [
            [1. / 5., 0., 0., 0., 0.],
            [3. / 40., 9. / 40., 0., 0., 0.],
            [3. / 10., -9. / 10., 6. / 5., 0., 0.],
            [-11. / 54., 5. / 2., -70. / 27., 35. / 27., 0.],
            [1_631. / 55_296., 175. / 512., 575. / 13_824., 44_275. / 110_592., 253. / 4096.],
        ];
        const B5: [f64; 6] = [37. / 378., 0., 250. / 621., 125. / 594., 0., 512. / 1_771.];
        const B4: [f64; 6] = [2825. / 27_648., 0., 18_575. / 48_384., 13_525. / 55_296., 277. / 14_336., 1. / 4.];
        self.update_derivs();
        let mut ks: Vec<Vec<f64>> = Vec::with_capacity(6);
        ks.push(self.derivs());
        let n = ks[0].len();
        let weighted = |ks: &[Vec<f64>], w: &[f64]| -> Vec<f64> {
            (0..n)
                .map(|i| {
                    let mut sum = 0.;
                    for (k, w) in ks.iter().zip(w) {
                        sum += w * k[i];
                    }
                    sum * dt
                })
                .collect()
        };
        for (c, a) in C.iter().zip(&A) {
            let mut sys = self.bare_clone();
            sys.step_time(&(c * dt));
            sys.step_states(weighted(&ks, a));
            sys.update_derivs();
            ks.push(sys.derivs());
        }
        (weighted(&ks, &B4), weighted(&ks, &B5))
    }
""")]
GEN='''    /// attempts steps with `attempt`, which returns the low and the high order increments,
    /// until one is accepted; takes it and returns the `dt` it used
    fn adaptive_step<F>(&mut self, dt_max: &f64, attempt: F) -> f64
    where
        F: Fn(&mut Self, f64) -> (Vec<f64>, Vec<f64>),
    {
        let sc = self.sc_mut().unwrap();
        sc.state.n_iter = 0;
        sc.state.dt = sc.state.dt.min(*dt_max).min(sc.dt_max);
        loop {
            let dt = self.sc().unwrap().state.dt;
            let (low, high) = attempt(self, dt);
            let states = if self.sc().unwrap().save {
                self.states().iter().zip(&high).map(|(s, d)| s + d).collect::<Vec<f64>>()
            } else {
                vec![]
            };
            let t_curr = self.state().time;
            let norm_err = low.iter().zip(&high).map(|(l, h)| (l - h).powi(2)).sum::<f64>().sqrt();
            let norm_high = high.iter().map(|h| h * h).sum::<f64>().sqrt();
            let norm_err_rel = if norm_high == 0. { None } else { Some(norm_err / norm_high) };
            let sc = self.sc_mut().unwrap();
            sc.state.n_iter += 1;
            sc.state.norm_err = Some(norm_err);
            sc.state.norm_err_rel = norm_err_rel;
            sc.state.t_curr = t_curr;
            if sc.save_states {
                sc.state.states = states;
            }
            let (tol_met, dt_coeff) = match norm_err_rel {
                Some(rel) if rel <= sc.rtol => (true, (sc.rtol / rel).powf(0.2)),
                Some(_) if norm_err <= sc.atol => (false, (sc.atol / norm_err).powf(0.2)),
                Some(_) => (false, 0.25),
                None if norm_err <= sc.atol => (true, (sc.atol / norm_err).powf(0.2)),
                None => (false, (sc.atol / norm_err).powf(0.25)),
            };
            let accepted = tol_met || norm_err < sc.atol || sc.state.n_iter >= sc.max_iter;
            if accepted && sc.save {
                let state = sc.state.clone();
                sc.history.push(state);
            }
            sc.state.dt = dt * dt_coeff;
            if accepted {
                self.step_states(high);
                self.step_time(&dt);
                self.update_derivs();
                return dt;
            }
        }
    }
'''
R['generic_adaptive']=[(S,('fn','rk23_bogacki_shampine'),"""    fn rk23_bogacki_shampine(&mut self, dt_max: &f64) -> f64 {
        self.adaptive_step(dt_max, |sys, dt| sys.rk23_bogacki_shampine_step(dt))
    }
"""+GEN),(S,('fn','rk45_cash_karp'),"""    fn rk45_cash_karp(&mut self, dt_max: &f64) -> f64 {
        self.adaptive_step(dt_max, Self::rk45_cash_karp_step)
    }
""")]
R['local_dt']=[(S,('fn','rk23_bogacki_shampine'),"""    fn rk23_bogacki_shampine(&mut self, dt_max: &f64) -> f64 {
        let (mut dt, max_iter, atol, rtol, save, save_states) = {
            let sc = self.sc().unwrap();
            (sc.state.dt.min(*dt_max).min(sc.dt_max), sc.max_iter, sc.atol, sc.rtol, sc.save, sc.save_states)
        };
        let mut n_iter: u8 = 0;
        let t_curr = self.state().time;
        let delta3 = loop {
            let (delta2, delta3) = self.rk23_bogacki_shampine_step(dt);
            n_iter += 1;
            let mut sq_err = 0.;
            let mut sq_d3 = 0.;
            for i in 0..delta3.len() {
                sq_err += (delta2[i] - delta3[i]) * (delta2[i] - delta3[i]);
                sq_d3 += delta3[i] * delta3[i];
            }
            let norm_err = sq_err.sqrt();
            let norm_err_rel = (sq_d3 != 0.).then(|| norm_err / sq_d3.sqrt());
            let states = match save {
                true => self.states().into_iter().zip(&delta3).map(|(s, d)| s + d).collect(),
                false => Vec::new(),
            };
            let sc = self.sc_mut().unwrap();
            sc.state.dt = dt;
            sc.state.n_iter = n_iter;
            sc.state.norm_err = Some(norm_err);
            sc.state.norm_err_rel = norm_err_rel;
            sc.state.t_curr = t_curr;
            if save_states {
                sc.state.states = states;
            }
            let tol_met = norm_err_rel.map_or(norm_err <= atol, |rel| rel <= rtol);
            let coeff = if let Some(rel) = norm_err_rel {
                if rel <= rtol {
                    (rtol / rel).powf(0.2)
                } else if norm_err <= atol {
                    (atol / norm_err).powf(0.2)
                } else {
                    0.25
                }
            } else {
                let exponent = if tol_met { 0.2 } else { 0.25 };
                (atol / norm_err).powf(exponent)
            };
            if n_iter < max_iter && norm_err >= atol && !tol_met {
                dt *= coeff;
                continue;
            }
            if save {
                sc.history.push(sc.state.clone());
            }
            sc.state.dt *= coeff;
            break delta3;
        };
        self.step_states(delta3);
        self.step_time(&dt);
        self.update_derivs();
        dt
    }
""")]
R['state_literal']=[(S,norm(4,5),"""            let norm_err = delta4
                .iter()
                .zip(delta5.iter())
                .fold(0., |acc: f64, (d4, d5)| acc + (d4 - d5).powi(2))
                .sqrt();
"""),(S,"""            sc_mut.state.norm_err_rel = if norm_d5 != 0. {
                // `unwrap` is ok here because `norm_err` will always be some by this point
                Some(sc_mut.state.norm_err.unwrap() / norm_d5)
            } else {
                // avoid dividing by 0
                None
            };

            sc_mut.state.t_curr = t_curr;

            if sc_mut.save_states {
                sc_mut.state.states = states;
            }
""","""            let states = if sc_mut.save_states {
                states
            } else {
                std::mem::take(&mut sc_mut.state.states)
            };
            sc_mut.state = SolverState {
                dt,
                n_iter: sc_mut.state.n_iter,
                norm_err: Some(norm_err),
                norm_err_rel: if norm_d5 == 0. { None } else { Some(norm_err / norm_d5) },
                t_curr,
                states,
            };
""")]
R['method_pointer']=[(SA,"""                    match &self.solver_type {
                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.euler(&dt);
                        },
                        SolverTypes::HeunsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.heun(&dt);
                        },
                        SolverTypes::MidpointMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.midpoint(&dt);
                        },
                        SolverTypes::RalstonsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.ralston(&dt);
                        },
                        SolverTypes::RK23BogackiShampine(_sc) => {
                            let dt = self.rk23_bogacki_shampine(&dt);
                        },
                        SolverTypes::RK4Fixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.rk4fixed(&dt);
                        },
                        SolverTypes::RK45CashKarp(_sc) => {
                            let dt = self.rk45_cash_karp(&dt);
                        },
                    }
""","""                    let (step, dt_fixed): (fn(&mut Self, &f64), f64) = match &self.solver_type {
                        SolverTypes::EulerFixed{dt} => (Self::euler, *dt),
                        SolverTypes::HeunsMethod{dt} => (Self::heun, *dt),
                        SolverTypes::MidpointMethod{dt} => (Self::midpoint, *dt),
                        SolverTypes::RalstonsMethod{dt} => (Self::ralston, *dt),
                        SolverTypes::RK4Fixed{dt} => (Self::rk4fixed, *dt),
                        SolverTypes::RK23BogackiShampine(_) => {
                            self.rk23_bogacki_shampine(&dt);
                            continue;
                        }
                        SolverTypes::RK45CashKarp(_) => {
                            self.rk45_cash_karp(&dt);
                            continue;
                        }
                    };
                    step(self, &dt.min(dt_fixed));
""")]
R['clone_solver_type']=[(SA,"""                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
                    match &self.solver_type {""","""                let t_next = self.t_report[self.state.i];
                loop {
                    let dt = t_next - self.state.time;
                    if !(dt > 0.) {
                        break;
                    }
                    match &self.solver_type.clone() {""")]
R['macro_rules_set']=[(SA,"""                let mut iter = val.iter();
                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*""","""                let mut i: usize = 0;
                #(
                    self.#fields_with_state.set_state(val[i]);
                    i += 1;
                )*"""),(SA,"""                let mut iter = val.iter();
                #(self.#fields_with_state.step_state(iter.next().unwrap().clone());)*""","""                let mut vals = val.into_iter();
                #(
                    let component = &mut self.#fields_with_state;
                    let next = component.state() + vals.next().expect("a value per state");
                    component.set_state(next);
                )*"""),(SA,"""                #(self.#fields_with_state.step_state_by_dt(dt);)*
                self.step_time(dt);""","""                let val: Vec<f64> = self.derivs().iter().map(|d| d * dt).collect();
                self.step_states(val);
                self.step_time(dt);""")]
R['set_flow_chain']=[(CO,"""        self.state.q = self.h * (p0.state() - p1.state());""","""        let (hot, cold) = (p0.state(), p1.state());
        let drop = hot - cold;
        self.state = ConductanceState { q: drop * self.h };"""),(TM,"""            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());""","""            let flow = $sys.$c.flow();
            for (component, sign) in [
                (&mut $sys.$s0 as &mut dyn HasState, -1.),
                (&mut $sys.$s1 as &mut dyn HasState, 1.),
            ] {
                let rate = sign * flow / component.storage();
                component.step_deriv(rate);
            }""")]
R['linspace_push']=[(TM,"""        let v_norm: Vec<f64> = (0..=n_steps)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
""","""        let mut v = Vec::with_capacity(n_elements);
        let mut i = 0;
        while i <= n_steps {
            v.push(start + i as f64 * step_size);
            i += 1;
        }
        v
"""),(TM,"""        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
""","""        let mut out = vec![];
        let mut it = self.iter();
        let Some(mut prev) = it.next() else {
            return out;
        };
        for x in it {
            out.push(x - prev);
            prev = x;
        }
        out
""")]
R['midpoint_via_copy']=[(S,('fn','midpoint'),"""    fn midpoint(&mut self, dt: &f64) {
        self.update_derivs();
        let middle = {
            let mut half = self.bare_clone();
            let h = dt / 2.;
            half.step_states_by_dt(&h);
            half.update_derivs();
            half.derivs()
        };
        let step = middle.iter().map(|k| k * dt).collect();
        self.step_states(step);
        self.step_time(dt);
        self.update_derivs();
    }
"""),(S,('fn','ralston'),"""    fn ralston(&mut self, dt: &f64) {
        self.update_derivs();
        let first = self.derivs();
        let mut ahead = self.bare_clone();
        ahead.step_states_by_dt(&(dt * 2. / 3.));
        ahead.update_derivs();
        let mut blend = ahead.derivs();
        for (b, f) in blend.iter_mut().zip(first) {
            *b = 0.25 * f + 0.75 * *b;
        }
        self.set_derivs(&blend);
        self.step_states_by_dt(dt);
        self.update_derivs();
    }
"""),(S,('fn','heun'),"""    fn heun(&mut self, dt: &f64) {
        self.update_derivs();
        let start = self.states();
        let k1 = self.derivs();
        self.step_states_by_dt(dt);
        self.update_derivs();
        let k2 = self.derivs();
        let end: Vec<f64> = zip!(start, k1, k2)
            .map(|(s, (a, b))| s + dt * (a + b) / 2.)
            .collect();
        self.set_states(end);
        self.update_derivs();
    }
""")]
R['dt_mean_checked']=[(S,"""        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }""","""        match self.history.len() {
            0 => None,
            n => {
                let total: f64 = self.history.dt.iter().copied().sum();
                Some(total / n as f64)
            }
        }"""),(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""","""                let end = self.t_report[self.t_report.len() - 1];
                loop {
                    if self.state.time >= end {
                        return;
                    }
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""")]
R['remaining_local']=[(SA,"""                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
""","""                let t_next = self.t_report[self.state.i];
                let mut remaining = t_next - self.state.time;
                while remaining > 0. {
                    let dt = remaining;
"""),(SA,"""                            let dt = self.rk45_cash_karp(&dt);
                        },
                    }
""","""                            let dt = self.rk45_cash_karp(&dt);
                        },
                    }
                    remaining = t_next - self.state.time;
"""),(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""","""                let end = *self.t_report.last().unwrap();
                let mut t = self.state.time;
                while t < end {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                    t = self.state.time;
                }""")]
# ---- fifth set: the same loops in yet other shapes
WALK="""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }"""
SOLVE="""                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
"""
R['walk_some_and']=[(SA,WALK,"""                while self.t_report.last().map_or(false, |end| self.state.time < *end) {
                    self.report();
                }"""),(SA,"""            /// Runs `solver_type` specific step method that calls
""","""            fn report(&mut self) {
                self.solve_step();
                self.state.i += 1;
                self.save_state();
            }
            /// Runs `solver_type` specific step method that calls
"""),(SA,SOLVE,"""                let target = self.t_report[self.state.i];
                while target - self.state.time > 0. {
                    let dt = target - self.state.time;
""")]
R['walk_recorded_closure']=[(SA,WALK,"""                let n = self.t_report.len();
                let over = |s: &Self| !(s.state.time < s.t_report[n - 1]);
                loop {
                    if over(self) {
                        break;
                    }
                    self.solve_step();
                    self.state.i = self.state.i + 1;
                    self.save_state();
                }"""),(SA,SOLVE,"""                loop {
                    let target = self.t_report[self.state.i];
                    if !(target > self.state.time) {
                        return;
                    }
                    let dt = target - self.state.time;
""")]
R['walk_index_local']=[(SA,WALK,"""                let end = *self.t_report.last().unwrap();
                let mut i = self.state.i;
                while self.state.time < end {
                    self.solve_step();
                    i += 1;
                    self.state.i = i;
                    self.save_state();
                }"""),(SA,SOLVE,"""                let i = self.state.i;
                let mut now = self.state.time;
                let target = self.t_report[i];
                while now < target {
                    let dt = target - now;
"""),(SA,"""                            let dt = self.rk45_cash_karp(&dt);
                        },
                    }
""","""                            let dt = self.rk45_cash_karp(&dt);
                        },
                    }
                    now = self.state.time;
""")]
R['walk_let_else']=[(SA,WALK,"""                loop {
                    match self.t_report.last() {
                        Some(end) if self.state.time < *end => {
                            self.solve_step();
                            self.state.i += 1;
                            self.save_state();
                        }
                        Some(_) => break,
                        None => panic!("empty schedule"),
                    }
                }"""),(SA,SOLVE,"""                while let Some(dt) = Some(self.t_report[self.state.i] - self.state.time).filter(|dt| *dt > 0.) {
""")]
R['step_returns_early']=[(S,"""        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);

        // loop to find `dt` that results in meeting tolerance
        // and does not exceed `dt_max`
        let (delta3, dt_used) = loop {
            let sc = self.sc().unwrap();
            let dt = sc.state.dt;
""","""        let limit = sc_mut.dt_max.min(*dt_max);
        sc_mut.state.dt = if sc_mut.state.dt < limit { sc_mut.state.dt } else { limit };
        sc_mut.state.n_iter = Default::default();

        let (delta3, dt_used) = loop {
            let Some(sc) = self.sc() else { unreachable!() };
            let dt = sc.state.dt;
"""),(S,"""            let states = if sc.save {
                self.states()
                    .clone()
                    .iter()
                    .zip(delta3.clone())
                    .map(|(s, d)| s + d)
                    .collect::<Vec<f64>>()
            } else {
                vec![]
            };

            let t_curr = self.state().time;
""","""            let saving = sc.save;
            let t_curr = self.state().time;
            let mut states = vec![];
            if saving {
                states = self.states();
                for (s, d) in states.iter_mut().zip(delta3.iter()) {
                    *s += d;
                }
            }
""")]
POP="""                if self.is_empty() {
                    None
                } else {
                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
                    Some(#original_name{#(#field_names: #field_names),*})
                }"""
PUSH="                #(self.#field_names.push(value.#field_names);)*"
CLEAR="                #(self.#field_names.clear();)*"
LEN="""                self.#first_field.len()
            }
"""
R['history_extend_remove']=[(HV,PUSH,"                #(self.#field_names.extend(std::iter::once(value.#field_names));)*"),(HV,POP,"""                let last = self.len().checked_sub(1)?;
                Some(#original_name { #(#field_names: self.#field_names.remove(last)),* })"""),(HV,CLEAR,"                *self = Self::default();"),(HV,LEN,LEN.replace(".len()",".iter().count()"))]
R['history_insert_swap']=[(HV,PUSH,"                #(let n = self.#field_names.len(); self.#field_names.insert(n, value.#field_names);)*"),(HV,POP,"""                match self.len() {
                    0 => None,
                    n => Some(#original_name { #(#field_names: self.#field_names.swap_remove(n - 1)),* }),
                }"""),(HV,CLEAR,"                #(self.#field_names.truncate(0);)*"),(HV,"self.#first_field.is_empty()","self.len() < 1")]
R['history_take_option']=[(HV,PUSH,"""                let #original_name { #(#field_names),* } = value;
                #(self.#field_names.reserve(1);)*
                #(self.#field_names.push(#field_names);)*"""),(HV,POP,"""                Some(#original_name { #(#field_names: self.#field_names.pop()?),* })"""),(HV,CLEAR,"                #(self.#field_names = Vec::new();)*"),(HV,"self.#first_field.is_empty()","matches!(self.#first_field.len(), 0)")]
R['history_drain']=[(HV,PUSH,"                #(self.#field_names.append(&mut vec![value.#field_names]);)*"),(HV,POP,"""                if self.len() > 0 {
                    return Some(#original_name { #(#field_names: self.#field_names.split_off(self.#field_names.len() - 1).remove(0)),* });
                }
                None"""),(HV,CLEAR,"                #(self.#field_names.drain(..);)*")]
TM='dess/src/traits_and_macros.rs'
TOF="""        match extension {
            "json" => {
                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            _ => Err(anyhow!("Unsupported file extension {}", extension)),
        }
"""
FROMF="""        match extension {
            "yaml" => Ok(serde_yaml::from_reader(file)?),
            "json" => Ok(serde_json::from_reader(file)?),
            _ => Err(anyhow!("Unsupported file extension {}", extension)),
        }
"""
R['files_buffered']=[(TM,TOF,"""        let json = match extension {
            "json" => true,
            "yaml" => false,
            other => anyhow::bail!("Unsupported file extension {}", other),
        };
        let mut out = std::io::BufWriter::new(File::create(&file)?);
        if json {
            serde_json::to_writer(&mut out, self)?;
        } else {
            serde_yaml::to_writer(&mut out, self)?;
        }
        std::io::Write::flush(&mut out)?;
        Ok(())
"""),(TM,FROMF,"""        let file = std::io::BufReader::new(file);
        if extension == "json" {
            return serde_json::from_reader(file).map_err(Into::into);
        }
        anyhow::ensure!(extension == "yaml", "Unsupported file extension {}", extension);
        serde_yaml::from_reader(file).map_err(anyhow::Error::from)
""")]
R['files_open_options']=[(TM,TOF,"""        let create = || std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&file);
        if extension == "json" {
            serde_json::to_writer(create()?, self).map_err(|e| anyhow!(e))
        } else if extension == "yaml" {
            serde_yaml::to_writer(create()?, self).map_err(|e| anyhow!(e))
        } else {
            Err(anyhow!("Unsupported file extension {extension}"))
        }
"""),(TM,"""    fn from_json(json_str: &str) -> Result<Self, anyhow::Error> {
        Ok(serde_json::from_str(json_str)?)
""","""    fn from_json(json_str: &str) -> Result<Self, anyhow::Error> {
        match serde_json::from_str(json_str) {
            Ok(value) => Ok(value),
            Err(err) => Err(anyhow::Error::new(err)),
        }
""")]
R['files_enum']=[(TM,"        let file = PathBuf::from(filename);\n",""),(TM,TOF,"""        enum Format {
            Json,
            Yaml,
        }
        let format = match extension {
            "json" => Format::Json,
            "yaml" => Format::Yaml,
            _ => return Err(anyhow!("Unsupported file extension {}", extension)),
        };
        let file = File::create(Path::new(filename))?;
        match format {
            Format::Json => serde_json::to_writer(file, self)?,
            Format::Yaml => serde_yaml::to_writer(file, self)?,
        }
        Ok(())
""")]
R['almost_eq_local']=[('dess/src/utilities.rs',"""    ((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon
""","""    let gap = (val2 - val1).abs();
    if gap < epsilon {
        return true;
    }
    let scale = f64::abs(val2 + val1);
    gap / scale < epsilon
""")]
def sh(c,cwd=None,env=None): return subprocess.run(c,shell=True,cwd=cwd,env={**os.environ,**(env or {})},stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
R['time_guard']=[(SA,"                self.step_time(dt);\n            }","                if *dt != 0.0 {\n                    self.step_time(dt);\n                }\n            }",0)]
R['reset_if_nonzero']=[(SA,"#(self.#fields_with_state.set_deriv(0.0);)*","#(if self.#fields_with_state.deriv() != 0.0 {\n                    self.#fields_with_state.set_deriv(0.0);\n                })*")]
R['history_len_last']=[(HV,"let first_field = &field_names[0];","let first_field = field_names.last().unwrap();")]
R['save_sorted']=[(HM,"""    let fields_with_state = fields
        .iter()
        .zip(use_state_vec)
        .filter(|(_f, hsv)| *hsv)
        .map(|(f, _hsv)| f.ident.as_ref().unwrap())
        .collect::<Vec<_>>();
""","""    let mut fields_with_state = fields
        .iter()
        .zip(use_state_vec)
        .filter(|(_f, hsv)| *hsv)
        .map(|(f, _hsv)| f.ident.as_ref().unwrap())
        .collect::<Vec<_>>();
    fields_with_state.sort();
    fields_with_state.reverse();
""")]
R['walk_loop_break']=[(SA,"""                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""","""                loop {
                    match self.t_report.last() {
                        Some(t_end) if self.state.time < *t_end => {}
                        Some(_) => break,
                        None => panic!("empty schedule"),
                    }
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""")]
R['solve_loop_dt']=[(SA,"""                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
""","""                let t_next = self.t_report[self.state.i];
                loop {
                    let dt = t_next - self.state.time;
                    if !(dt > 0.0) {
                        break;
                    }
""")]
R['states_lazy']=[(S,"""            let states = if sc.save {
                self.states()
                    .clone()
                    .iter()
                    .zip(delta5.clone())
                    .map(|(s, d)| s + d)
                    .collect::<Vec<f64>>()
            } else {
                vec![]
            };
""","""            let mut states: Vec<f64> = Vec::new();
            if sc.save {
                states = self.states();
                states
                    .iter_mut()
                    .zip(delta5.iter())
                    .for_each(|(s, d)| *s += d);
            }
""")]
R['cap_dt_helper']=[(S,"        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);","        sc_mut.cap_dt(*dt_max);",0),(S,"        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);","        sc_mut.cap_dt(*dt_max);",0),(S,"impl AdaptiveSolverConfig {\n","""impl AdaptiveSolverConfig {
    /// limits the carried step to the time remaining and the configured maximum
    fn cap_dt(&mut self, remaining: f64) {
        let cap = if remaining < self.dt_max { remaining } else { self.dt_max };
        if self.state.dt > cap {
            self.state.dt = cap;
        }
    }
""")]
R['sc_if_let']=[(SA,"""                match &self.solver_type {
                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
                }""","""                if let SolverTypes::RK45CashKarp(sc) = &self.solver_type {
                    return Some(sc.as_ref());
                }
                if let SolverTypes::RK23BogackiShampine(sc) = &self.solver_type {
                    return Some(sc.as_ref());
                }
                None""")]
R['linspace_from_fn']=[(TM,"""        let v_norm: Vec<f64> = (0..=n_steps)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
""","""        let mut v = Vec::with_capacity(n_elements);
        let mut k = 0;
        while k < n_elements {
            v.push(start + step_size * (k as f64));
            k += 1;
        }
        v
""")]
R['mass_default_step']=[(CO,"""    fn step_deriv(&mut self, val: f64) {
        self.state.dtemp += val;
    }
    fn storage(&self) -> f64 {
        self.c""","""    fn storage(&self) -> f64 {
        self.c""")]
R['norm_products']=[(S,".map(|(d4, d5)| (d4 - d5).powi(2))\n                    .collect::<Vec<f64>>()\n                    .iter()\n                    .sum::<f64>()\n                    .sqrt(),",".map(|(d4, d5)| {\n                        let e = d5 - d4;\n                        e * e\n                    })\n                    .fold(0.0, |acc, e| acc + e)\n                    .sqrt(),")]
R['commit_helper']=[(S,"        self.step_states(delta5);\n        self.step_time(&dt_used);\n        self.update_derivs();","        self.advance(delta5, dt_used);"),(S,"        self.step_states(delta3);\n        self.step_time(&dt_used);\n        self.update_derivs();","        self.advance(delta3, dt_used);"),(S,"pub trait SolverVariantMethods: SolverBase {\n","""pub trait SolverVariantMethods: SolverBase {
    /// moves time and states and brings the derivatives up to date
    fn advance(&mut self, delta: Vec<f64>, dt: f64) {
        self.step_time(&dt);
        self.step_states(delta);
        self.update_derivs();
    }
""")]
R['flow_delta']=[(CO,"        self.state.q = self.h * (p0.state() - p1.state());","        let (hot, cold) = (p0.state(), p1.state());\n        let ConductanceState { q } = &mut self.state;\n        *q = -((cold - hot) * self.h);")]
R['update_macro_rate']=[(TM,"""            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());""","""            {
                let q = $sys.$c.flow();
                let (c0, c1) = ($sys.$s0.storage(), $sys.$s1.storage());
                $sys.$s1.step_deriv(q / c1);
                $sys.$s0.step_deriv(-(q / c0));
            }""")]
R['py_tofile_match']=[(PY,"Ok(self.to_file(filename)?)","match self.to_file(filename) {\n                    Ok(()) => Ok(()),\n                    Err(e) => Err(e.into()),\n                }")]
R['py_new_default']=[('dess-examples/src/components.rs',"""        Self {
            h,
            state: ConductanceState {
                q: Default::default(),
            },
            history: ConductanceStateHistoryVec {
                q: Default::default(),
            },
        }""","""        let mut new = Self::default();
        new.h = h;
        new""")]
R['midpoint_scaled']=[(S,"        updated_self.step_states_by_dt(&(0.5 * dt));","        let half = dt / 2.0;\n        updated_self.step_states_by_dt(&half);")]
R['extra_update']=[(S,"        //saving updated state\n        let new_state","        debug_assert!(deriv_0.len() == deriv_1.len());\n        //saving updated state\n        let new_state")]
def main():
    if os.path.exists(B): shutil.rmtree(B)
    os.makedirs(B)
    sh(f"cp -a /repo {B}/repo; mkdir -p {B}/verif; cd /verif && tar c --exclude=.work --exclude=.git --exclude=seeded --exclude=evidence --exclude=__pycache__ . | tar x -C {B}/verif")
    sh(f"grep -rlE '/verif|/repo' {B}/verif | xargs sed -i 's#/verif#{B}/verif#g; s#\"/repo#\"{B}/repo#g; s#-C /repo#-C {B}/repo#g'")
    os.makedirs(B+'/verif/.work'); sh(f'cp -a /verif/.work/driver {B}/verif/.work/driver')
    ids=[a for a in sys.argv[1:] if a in R] or list(R); props=[a for a in sys.argv[1:] if re.match(r'C\d\d$',a)] or ['C%02d'%i for i in range(1,22)]
    for k in ids:
        sh('git checkout -q -- .',B+'/repo'); bad=False
        for f,old,new,*nth in R[k]:
            p=f'{B}/repo/{f}'; t=open(p).read()
            if isinstance(old,tuple): old=re.search(r'    fn %s\b.*?\n    \}\n'%old[1],t,re.S).group(0)
            parts=t.split(old); n=nth[0] if nth else 0
            if len(parts)<n+2 or not nth and len(parts)!=2 and not f.endswith('x'): print(k,'EDIT',len(parts)-1,old[:50]); bad=len(parts)<n+2
            if bad: break
            open(p,'w').write(old.join(parts[:n+1])+new+old.join(parts[n+1:]))
        if bad: continue
        b=sh('cargo build -q --offline -p dess -p dess-examples',B+'/repo',dict(RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=B+'/target',RUSTFLAGS='-Awarnings'))
        if b.returncode: print(k,'DOES NOT BUILD',b.stdout[-600:]); continue
        print('==',k,flush=True)
        for p in props:
            o=sh(f'python3-vt engine/check.py {p}',B+'/verif',dict(VERIF_SEED='1',VERIF_TIER='quick'))
            last=[l for l in o.stdout.splitlines() if l.startswith(p+':')]
            m=re.search(r'(\d+)/(\d+) contract',last[0]) if last else None
            if o.returncode or not m or m.group(1)!=m.group(2): print('  ',p,'rc',o.returncode,o.stdout[:900].replace('\n','\n       '),flush=True)
if __name__=="__main__": main()
