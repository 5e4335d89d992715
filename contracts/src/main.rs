//! vh-replay ROOT --seed S --trials N [--only K] [--model FILE] [--seconds T]
//! Runs a contract root natively on the real code with generated inputs; prints one JSON line.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;
use vh::vrt::*;
include!("table.rs");
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    if a.len() < 2 {
        for (n, _) in ROOTS {
            println!("{n}");
        }
        return;
    }
    let f = ROOTS.iter().find(|(n, _)| *n == a[1]).unwrap_or_else(|| panic!("no root {}", a[1])).1;
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let trials: u64 = opt("--trials").map_or(1000, |s| s.parse().unwrap());
    let only: Option<u64> = opt("--only").map(|s| s.parse().unwrap());
    let secs: f64 = opt("--seconds").map_or(30.0, |s| s.parse().unwrap());
    let mut model = std::collections::HashMap::new();
    if let Some(p) = opt("--model") {
        for l in std::fs::read_to_string(p).unwrap().lines() {
            if let Some((k, v)) = l.split_once('=') {
                if let Ok(v) = v.parse::<f64>() {
                    model.insert(k.to_string(), v);
                }
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
        CTX.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.panic = m.map(|m| format!("{m} at {}", i.location().map_or(String::new(), |l| l.to_string())));
            }
        });
    }));
    let t0 = Instant::now();
    let (mut ran, mut rejected, mut passed) = (0u64, 0u64, 0u64);
    let mut k = only.unwrap_or(0);
    let end = only.map_or(trials, |k| k + 1);
    while k < end && t0.elapsed().as_secs_f64() < secs {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(k);
        CTX.with(|c| *c.borrow_mut() = Ctx { seed: s, rng: s.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5DEECE66D, model: model.clone(), ..Default::default() });
        let r = catch_unwind(AssertUnwindSafe(f));
        writes_fail(false);
        let (mut failed, log, pass, pn) = CTX.with(|c| {
            let c = c.borrow();
            (c.failed.clone(), c.log.clone(), c.passed, c.panic.clone())
        });
        match r {
            Err(e) if e.downcast_ref::<Rejected>().is_some() => {
                rejected += 1;
                // postconditions checked before the trial was abandoned still count
            }
            Err(_) => failed.push(format!("no panic: {}", pn.unwrap_or_default())),
            Ok(()) => {
                ran += 1;
                passed += pass;
            }
        }
        if !failed.is_empty() {
            clean_up();
            println!("{{\"failed\":{},\"seed\":{seed},\"trial\":{k},\"inputs\":{},\"ran\":{ran}}}", list(&failed), list(&log));
            std::process::exit(1);
        }
        k += 1;
    }
    clean_up();
    println!("{{\"failed\":[],\"seed\":{seed},\"ran\":{ran},\"rejected\":{rejected},\"passed\":{passed}}}");
}
