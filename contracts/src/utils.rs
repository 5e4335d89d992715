//! feature: utils
//! C17: `Linspace::linspace`, `Diff::diff` and `almost_eq` against their definitions.
use crate::vrt::*;
use dess::prelude::*;
use dess::utilities::almost_eq;

fn grid(n: usize) {
    let a = any_f64("a");
    let b = any_f64("b");
    let v: Vec<f64> = Vec::linspace(a, b, n);
    ensures("the grid has the requested number of points", v.len() == n);
    if n > 1 {
        reach("two points or more");
        ensures("the k-th point is a + k (b - a) / (n - 1)", forall(n, |k| req(v[k] * ((n - 1) as f64), a * ((n - 1) as f64) + (k as f64) * (b - a))));
        ensures("the grid starts at a", req(v[0], a));
        ensures("the grid ends at b", req(v[n - 1], b));
    }
    if n == 1 {
        reach("one point");
        ensures("the grid of one point is the start", v[0] == a);
    }
    if n == 0 {
        reach("no points");
        ensures("the grid of no points is empty", v.is_empty());
    }
}
fn difference() {
    let m = any_len("m");
    let x = any_vec("x", m);
    let d = x.diff();
    if m == 0 {
        reach("empty");
        ensures("the difference of an empty sequence is empty", d.is_empty());
    } else {
        reach("not empty");
        ensures("the difference has one element fewer", d.len() == m - 1);
        ensures("each element is the next minus the current", forall(m - 1, |k| d[k] == x[k + 1] - x[k]));
    }
}
/// |x - y| below the tolerance, or its ratio to the magnitude of the sum
fn close(x: f64, y: f64, eps: f64) -> bool {
    (x - y).abs() < eps || x + y != 0.0 && (x - y).abs() / (x + y).abs() < eps
}
fn compare(x: f64, y: f64, eps: Option<f64>) {
    let used = match eps {
        Some(e) => e,
        None => 1e-8,
    };
    let r = almost_eq(x, y, eps);
    if r {
        reach("equal");
    } else {
        reach("different");
    }
    if native() {
        // away from the rounding of the quotient itself
        let q = (x - y).abs() / (x + y).abs();
        assume(!((q - used).abs() < 1e-12));
    }
    ensures("approximately equal exactly when the difference or the ratio is below the tolerance", r == close(x, y, used));
    ensures("approximate equality is symmetric", r == almost_eq(y, x, eps));
}

pub mod roots {
    use super::*;
    pub fn c17_grid() {
        let n = any_len("n");
        assume(n >= 2);
        grid(n)
    }
    pub fn c17_grid_of_one_point() {
        grid(1)
    }
    pub fn c17_grid_of_no_points() {
        grid(0)
    }
    pub fn c17_diff() {
        difference()
    }
    pub fn c17_almost_eq() {
        let x = any_f64("x");
        let y = any_f64("y");
        compare(x, y, Some(any_f64("eps")))
    }
    pub fn c17_almost_eq_default() {
        let x = any_f64("x");
        let d = any_f64("d");
        let y = if native() { x + d * 1e-8 } else { any_f64("y") };
        compare(x, y, None)
    }
}
