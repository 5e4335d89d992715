//! Specification-side vector arithmetic (ordinary Rust, executed by the verifier like any other code).
use crate::vrt::*;

/// sqrt(sum of squares)
pub fn norm2(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// x + c * k, elementwise
pub fn axpy(x: &[f64], c: f64, k: &[f64]) -> Vec<f64> {
    x.iter().zip(k).map(|(x, k)| x + c * k).collect()
}
pub fn scaled(c: f64, k: &[f64]) -> Vec<f64> {
    k.iter().map(|k| c * k).collect()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(a, b)| a - b).collect()
}
/// x^e for real x>=0
pub fn rpow(x: f64, e: f64) -> f64 {
    x.powf(e)
}
/// one row of an explicit Runge-Kutta tableau: stage time fraction and weights of the previous stages
pub struct Stage<'a>(pub f64, pub &'a [f64]);
/// stage derivatives k_1..k_s of an explicit Runge-Kutta tableau for the system `p` at (t, x), step h
pub fn rk_stages(p: f64, t: f64, x: &[f64], h: f64, tab: &[Stage]) -> Vec<Vec<f64>> {
    let mut ks: Vec<Vec<f64>> = Vec::new();
    for Stage(c, a) in tab {
        let mut y = x.to_vec();
        for j in 0..a.len() {
            y = axpy(&y, h * a[j], &ks[j]);
        }
        ks.push(rhs(p, t + c * h, &y));
    }
    ks
}
/// increment h * sum_j b_j k_j
pub fn rk_delta(n: usize, h: f64, b: &[f64], ks: &[Vec<f64>]) -> Vec<f64> {
    let mut d = vec![0.0; n];
    for j in 0..b.len() {
        d = axpy(&d, h * b[j], &ks[j]);
    }
    d
}
