//! Specification primitives.  The verifier (engine/) gives them their symbolic meaning; the bodies
//! here are their executable meaning, used only to replay counterexamples and for the bounded
//! run-time stand-in on the natively compiled real code.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Ctx {
    pub seed: u64,
    pub rng: u64,
    pub model: HashMap<String, f64>,
    pub failed: Vec<String>,
    pub passed: u64,
    pub log: Vec<String>,
    pub clock: u64,
    pub names: HashMap<String, usize>,
    pub panic: Option<String>,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
pub struct Rejected;

pub fn next() -> u64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.rng = c.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = c.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
fn unit() -> f64 {
    (next() >> 11) as f64 / (1u64 << 53) as f64
}
/// the k-th arbitrary value of a given name is called name'k (as the verifier names it)
fn uniq(name: &str) -> String {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let k = c.names.entry(name.to_string()).or_insert(0);
        *k += 1;
        if *k == 1 {
            name.to_string()
        } else {
            format!("{name}'{}", *k - 1)
        }
    })
}
fn from_model(name: &str) -> Option<f64> {
    CTX.with(|c| c.borrow().model.get(name).copied())
}
fn note(name: &str, v: String) {
    CTX.with(|c| c.borrow_mut().log.push(format!("{name}={v}")));
}

/// an arbitrary finite real number
#[inline(never)]
pub fn any_f64(name: &str) -> f64 {
    let name = &uniq(name);
    let v = from_model(name).unwrap_or_else(|| match next() % 16 {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 0.5,
        4 => 2.0,
        5 => (next() % 7) as f64 * 0.25,
        6 if *name != "h" => (unit() - 0.5) * 200.0,
        7..=11 => unit() * 2.0,
        _ => (unit() - 0.5) * 8.0,
    });
    note(name, format!("{v:?}"));
    v
}
/// an arbitrary strictly positive real number
#[inline(never)]
pub fn any_pos(name: &str) -> f64 {
    let name = &uniq(name);
    let v = from_model(name).filter(|v| *v > 0.0).unwrap_or_else(|| match next() % 8 {
        0 => 1.0,
        1 => 0.5,
        2 => 0.1,
        3 => 10.0,
        4 => 10f64.powi(-((next() % 9) as i32)),
        _ => unit() * 2.0 + 1e-3,
    });
    note(name, format!("{v:?}"));
    v
}
/// an arbitrary non-negative real number
#[inline(never)]
pub fn any_nonneg(name: &str) -> f64 {
    let name = &uniq(name);
    let v = from_model(name).filter(|v| *v >= 0.0).unwrap_or_else(|| match next() % 8 {
        0 => 0.0,
        1 => 0.5,
        2 => 10.0,
        3..=5 => 10f64.powi(-((next() % 9) as i32)),
        _ => unit() * 2.0,
    });
    note(name, format!("{v:?}"));
    v
}
#[inline(never)]
pub fn any_usize(name: &str) -> usize {
    let name = &uniq(name);
    let v = from_model(name).map(|v| v as usize).unwrap_or_else(|| (next() % 6) as usize);
    note(name, v.to_string());
    v
}
#[inline(never)]
pub fn any_u8(name: &str) -> u8 {
    let name = &uniq(name);
    let v = from_model(name).map(|v| v as u8).unwrap_or_else(|| if next() % 5 == 0 { next() as u8 } else { (next() % 7) as u8 });
    note(name, v.to_string());
    v
}
#[inline(never)]
pub fn any_bool(name: &str) -> bool {
    let name = &uniq(name);
    let v = from_model(name).map(|v| v != 0.0).unwrap_or_else(|| next() % 2 == 0);
    note(name, v.to_string());
    v
}
/// an arbitrary sequence length (unbounded in the verifier)
#[inline(never)]
pub fn any_len(name: &str) -> usize {
    let name = &uniq(name);
    let v = from_model(name).map(|v| (v as usize).min(6)).unwrap_or_else(|| (next() % 5) as usize);
    note(name, v.to_string());
    v
}
/// an arbitrary sequence of n reals
#[inline(never)]
pub fn any_vec(name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| any_f64(&format!("{name}[{i}]"))).collect()
}
/// an arbitrary sequence of n floats, infinities and NaN included
#[inline(never)]
pub fn any_xvec(name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| any_xf64(&format!("{name}[{i}]"))).collect()
}
#[inline(never)]
pub fn any_vec_usize(name: &str, n: usize) -> Vec<usize> {
    (0..n).map(|i| any_usize(&format!("{name}[{i}]"))).collect()
}
#[inline(never)]
pub fn any_vec_u8(name: &str, n: usize) -> Vec<u8> {
    (0..n).map(|i| any_u8(&format!("{name}[{i}]"))).collect()
}
/// restricts the inputs considered
#[inline(never)]
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(Rejected);
    }
}
/// a postcondition
#[inline(never)]
pub fn ensures(name: &str, c: bool) {
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        if c {
            x.passed += 1
        } else {
            x.failed.push(name.to_string())
        }
    });
}
/// true when this is the native execution
#[inline(never)]
pub fn native() -> bool {
    true
}
/// equality of reals (natively: up to accumulated rounding)
#[inline(never)]
pub fn req(a: f64, b: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let s = a.abs().max(b.abs());
    (a - b).abs() <= 1e-9 * s + 1e-11
}
/// natively rejects a trial whose values leave the range in which f64 behaves like the reals
pub fn in_range(v: f64) {
    if native() && (v != 0.0 && v.abs() < 1e-100 || v.abs() > 1e100) {
        std::panic::panic_any(Rejected);
    }
}
#[inline(never)]
pub fn seq_eq(a: &[f64], b: &[f64]) -> bool {
    let m = a.iter().chain(b).fold(0.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| req(*x, *y) || (x - y).abs() <= 1e-8 * m)
}
/// exact equality of sequences of plain data
#[inline(never)]
#[allow(clippy::eq_op)]
pub fn same_seq<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a == b || (a != a && b != b)
}
/// structural equality (natively a value holding a NaN is not compared with another one holding one; the
/// verifier's reals have none and it reads this as equality)
#[inline(never)]
#[allow(clippy::eq_op)]
pub fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b || (a != a && b != b)
}
/// reachability probe: the verifier must find some path through every probe (guards against vacuity)
#[inline(never)]
pub fn reach(_name: &str) {}

/// The right-hand side f(t, x) of an arbitrary system with identity `p`: uninterpreted in the verifier.
#[inline(never)]
pub fn rhs(p: f64, t: f64, x: &[f64]) -> Vec<f64> {
    tick();
    let h = |k: usize| {
        let s = CTX.with(|c| c.borrow().seed);
        let mut z = s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((k as u64 + 1).wrapping_mul(0xD1B54A32D192ED03)) ^ p.to_bits();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        ((z >> 11) as f64 / (1u64 << 53) as f64) * 2.0 - 1.0
    };
    let mode = CTX.with(|c| c.borrow().seed) % 8;
    let n = x.len();
    (0..n)
        .map(|i| {
            let b = 100 * i;
            match mode {
                0 => h(b),
                1 => 0.0,
                _ => {
                    let mut a = h(b + 1) * 0.7 * t;
                    for (j, xj) in x.iter().enumerate() {
                        a += h(b + 2 + j) * xj;
                    }
                    h(b + 50) + h(b + 51) * x[i] + h(b + 52) * t + h(b + 53) * a.sin() * 2.0 + h(b + 54) * (t * 1.3 + x[i]).cos()
                }
            }
        })
        .collect()
}

/// an arbitrary f64: finite, infinite or NaN
#[inline(never)]
pub fn any_xf64(name: &str) -> f64 {
    match next() % 12 {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        _ => any_f64(name),
    }
}
fn mix(name: &str, i: u64, args: &[f64]) -> f64 {
    let mut z = CTX.with(|c| c.borrow().seed).wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
    for b in name.bytes() {
        z = (z ^ b as u64).wrapping_mul(0x100000001B3);
    }
    for a in args {
        z = (z ^ a.to_bits()).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^= z >> 29;
    }
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    (z >> 11) as f64 / (1u64 << 53) as f64
}
/// n uninterpreted reals depending on (name, args)
#[inline(never)]
pub fn fun_vec(name: &str, n: usize, args: &[f64]) -> Vec<f64> {
    tick();
    (0..n).map(|i| shaped(name, i as u64, args)).collect()
}
/// native values of an uninterpreted function: per trial generic, zero, small integers (ties), the
/// same for every name, or different from trial to trial in one of these ways per name
fn shaped(name: &str, i: u64, args: &[f64]) -> f64 {
    let s = CTX.with(|c| c.borrow().seed);
    let name = if s % 7 == 3 { "" } else { name };
    let m = (mix(name, 977, &[]) * 8.0) as u64;
    let v = mix(name, i, args);
    match m {
        0 => 0.0,
        1 => (v * 3.0).floor() - 1.0,
        2 => (v * 2.0).floor(),
        3 => 1e-3 * (4.0 * v - 2.0) * args.first().copied().unwrap_or(1.0),
        _ => 4.0 * v - 2.0,
    }
}
/// an uninterpreted real depending on (name, i, args)
#[inline(never)]
pub fn fun(name: &str, i: usize, args: &[f64]) -> f64 {
    tick();
    shaped(name, i as u64, args)
}
/// guards a native trial against running forever: such a trial is abandoned, not failed
pub fn tick() {
    let n = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.clock += 1;
        c.clock
    });
    if n > 200_000 {
        std::panic::panic_any(Rejected);
    }
}
/// for every i < n: f(i)
#[inline(never)]
pub fn forall<F: Fn(usize) -> bool>(n: usize, f: F) -> bool {
    (0..n).all(f)
}
/// a candidate invariant for the loops that follow (checked, never assumed unchecked)
#[inline(never)]
pub fn loop_inv<F: Fn() -> bool>(_name: &str, _f: F) {}
#[inline(never)]
/// a candidate invariant about any one of the finite numbers that a loop changes, wherever it is kept
pub fn loop_inv_over<F: Fn(f64) -> bool>(_name: &str, _f: F) {}
#[inline(never)]
pub fn no_loop_inv() {}
/// types of which arbitrary values can be generated natively
pub trait Arb: Sized {
    fn arb(name: &str) -> Self;
}
impl Arb for f64 {
    fn arb(name: &str) -> f64 {
        any_f64(name)
    }
}
impl Arb for usize {
    fn arb(name: &str) -> usize {
        any_usize(name)
    }
}
impl Arb for u8 {
    fn arb(name: &str) -> u8 {
        any_u8(name)
    }
}
impl Arb for bool {
    fn arb(name: &str) -> bool {
        any_bool(name)
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(name: &str) -> Self {
        if next() % 3 == 0 {
            None
        } else {
            Some(T::arb(name))
        }
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(name: &str) -> Self {
        (0..next() % 4).map(|i| T::arb(&format!("{name}.{i}"))).collect()
    }
}
/// an arbitrary sequence of n values
#[inline(never)]
pub fn any_vec_of<T: Arb>(name: &str, n: usize) -> Vec<T> {
    (0..n).map(|i| T::arb(&format!("{name}[{i}]"))).collect()
}
/// an arbitrary value
#[inline(never)]
pub fn any<T: Arb>(name: &str) -> T {
    T::arb(name)
}

// ---------------------------------------------------------------- files and codecs (C18)
/// from here on, calls of the functions whose name ends with `::name` go to `f`, their contract (the real
/// functions run natively)
#[inline(never)]
pub fn use_contract<F>(_name: &'static str, _f: F) {}
/// the codecs: 1 JSON, 2 YAML, 3 bincode
pub mod codec {
    use serde::{de::DeserializeOwned, Serialize};
    pub fn encode<T: Serialize>(fmt: u8, v: &T) -> Vec<u8> {
        match fmt {
            1 => serde_json::to_vec(v).unwrap(),
            2 => serde_yaml::to_string(v).unwrap().into_bytes(),
            _ => bincode::serialize(v).unwrap(),
        }
    }
    pub fn decode<T: DeserializeOwned>(fmt: u8, b: &[u8]) -> Option<T> {
        match fmt {
            1 => serde_json::from_slice(b).ok(),
            2 => serde_yaml::from_slice(b).ok(),
            _ => bincode::deserialize(b).ok(),
        }
    }
}
thread_local! {
    static DIR: RefCell<Option<(std::path::PathBuf, Vec<(String, Option<Vec<u8>>)>)>> = RefCell::new(None);
}
fn listing(d: &std::path::Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut r = vec![];
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            let p = e.path();
            if p.is_dir() {
                r.push((p.display().to_string(), None));
                r.extend(listing(&p));
            } else {
                r.push((p.display().to_string(), std::fs::read(&p).ok()));
            }
        }
    }
    r.sort();
    r
}
fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vh-scratch-{}", std::process::id()))
}
/// removes the scratch directory of the file contracts
pub fn clean_up() {
    writes_fail(false);
    DIR.with(|d| {
        if d.borrow_mut().take().is_some() {
            let _ = std::env::set_current_dir(std::env::temp_dir());
            let _ = std::fs::remove_dir_all(scratch());
        }
    });
}
/// an arbitrary file name; natively one in a fresh scratch directory, the file existing or not with
/// any of the given contents
#[inline(never)]
pub fn any_file(name: &str, contents: &[Vec<u8>]) -> String {
    clean_up();
    let d = scratch();
    std::fs::create_dir_all(d.join("sub.json")).unwrap();
    std::fs::create_dir_all(d.join("sub")).unwrap();
    std::env::set_current_dir(&d).unwrap();
    const NAMES: [&str; 26] = [
        "a.json", "a.yaml", "b.x.json", "b.x.yaml", "a.yml", "a", "a.JSON", "a.Yaml", ".json", ".yaml", "a.json.txt", "a.yaml.json", "a.json.yaml", "sub.json/a", "sub.json/a.yaml",
        "gone/a.json", "gone/a.yaml", "sub.json", "a.json5", "a.xjson", "ajson", "a.", "a.txt", "sub/a.json", "sub/a.yaml", "a.bin",
    ];
    let f = d.join(NAMES[(next() % 26) as usize]).display().to_string();
    if next() % 3 != 0 && !contents.is_empty() {
        let _ = std::fs::write(&f, &contents[(next() % contents.len() as u64) as usize]);
    }
    note(name, f.clone());
    let l = listing(&d);
    DIR.with(|x| *x.borrow_mut() = Some((d, l)));
    f
}
/// the codec its extension asks for: 1 json, 2 yaml, 0 none of them
#[inline(never)]
pub fn wanted_format(file: &str) -> u8 {
    let base = file.rsplit('/').next().unwrap_or("");
    match base.rfind('.') {
        Some(k) if k > 0 && &base[k + 1..] == "json" => 1,
        Some(k) if k > 0 && &base[k + 1..] == "yaml" => 2,
        _ => 0,
    }
}
/// nothing was created, truncated, written or removed
#[inline(never)]
pub fn files_untouched() -> bool {
    DIR.with(|d| d.borrow().as_ref().map_or(true, |(d, l)| listing(d) == *l))
}
/// no file but this one was created, truncated, written or removed
#[inline(never)]
pub fn only_touched(file: &str) -> bool {
    DIR.with(|d| {
        d.borrow().as_ref().map_or(true, |(d, l)| {
            let keep = |l: Vec<(String, Option<Vec<u8>>)>| l.into_iter().filter(|(n, _)| n != file).collect::<Vec<_>>();
            keep(listing(d)) == keep(l.clone())
        })
    })
}
/// the file system or the codec fails on this save
#[inline(never)]
pub fn save_fails(file: &str) -> bool {
    let p = std::path::Path::new(file);
    if next() % 4 == 0 {
        note("every write fails (RLIMIT_FSIZE 0)", "true".to_string());
        writes_fail(true);
        return true;
    }
    p.is_dir() || !p.parent().map_or(false, |p| p.is_dir())
}
#[cfg(target_os = "linux")]
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
/// natively: files can be created but nothing can be written to them
pub fn writes_fail(on: bool) {
    #[cfg(target_os = "linux")]
    unsafe {
        // SIGXFSZ ignored, RLIMIT_FSIZE's soft limit
        signal(25, 1);
        setrlimit(1, &[if on { 0 } else { u64::MAX }, u64::MAX]);
    }
    let _ = on;
}
/// the save failed: natively as predicted, in the verifier as the file system and the codec did
#[inline(never)]
pub fn saving_failed(predicted: bool) -> bool {
    writes_fail(false);
    predicted
}
/// the file now holds `v`, whole and alone, encoded by this codec
#[inline(never)]
pub fn holds<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(file: &str, fmt: u8, v: &T) -> bool {
    std::fs::read(file).map_or(false, |b| encodes(&b, fmt, v))
}
/// what this codec decodes from the file, if the file can be opened and decoded
#[inline(never)]
pub fn in_file<T: serde::de::DeserializeOwned>(file: &str, fmt: u8) -> Option<T> {
    std::fs::read(file).ok().and_then(|b| codec::decode(fmt, &b))
}
/// the text (or bytes) is the whole of `v` encoded by this codec
#[inline(never)]
pub fn encodes<E: AsRef<[u8]>, T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(e: &E, fmt: u8, v: &T) -> bool {
    // up to what the codec itself does to floats: compared with its own encoding of the value
    let back: Option<T> = codec::decode(fmt, e.as_ref());
    back.is_some() && back == codec::decode(fmt, &codec::encode(fmt, v)) && (fmt != 2 || codec::decode::<T>(1, e.as_ref()).is_none())
}
/// an arbitrary text; natively one of the given or a damaged one
#[inline(never)]
pub fn any_text(name: &str, contents: &[Vec<u8>]) -> String {
    let mut t = String::from_utf8_lossy(&contents[(next() % contents.len() as u64) as usize]).into_owned();
    if next() % 6 == 0 {
        t = t.chars().take(t.len() / 3).collect();
    }
    note(name, t.clone());
    t
}
#[inline(never)]
pub fn any_bytes(name: &str, contents: &[Vec<u8>]) -> Vec<u8> {
    let mut t = contents[(next() % contents.len() as u64) as usize].clone();
    if next() % 6 == 0 {
        t.truncate(t.len() / 2);
    }
    note(name, format!("{t:?}"));
    t
}
/// what this codec decodes from the text (or bytes)
#[inline(never)]
pub fn in_text<T: serde::de::DeserializeOwned, E: AsRef<[u8]>>(e: &E, fmt: u8) -> Option<T> {
    codec::decode(fmt, e.as_ref())
}
