//! Executable form of the contracts: every property's postcondition is evaluated on the real
//! functions of /repo for generated arguments.  It is used to (1) look for a concrete failing
//! input when an obligation is not discharged and (2) as the bounded stand-in for functions that
//! the verifier cannot take.  Oracles here are written from the property text, not from /repo.
mod common;
mod p1;
mod p2;
use common::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

type Case = fn(&mut Rng, &mut Log) -> Res;

fn table() -> Vec<(&'static str, Case)> {
    vec![
        ("C01", p2::c01), ("C02", p1::c02), ("C03", p1::c03), ("C04", p1::c04), ("C05", p1::c05),
        ("C06", p1::c06), ("C07", p1::c07), ("C08", p1::c08), ("C09", p1::c09), ("C10", p1::c10),
        ("C11", p1::c11), ("C12", p2::c12), ("C13", p2::c13), ("C14", p2::c14), ("C15", p2::c15),
        ("C16", p2::c16),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: harness search ID SEED MS [TRACE] | one ID SEED CASE | digest SEED N"); std::process::exit(2); }
    match a[1].as_str() {
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let ms: u64 = a[4].parse().unwrap();
            let trace = a.get(5).cloned();
            let f = table().into_iter().find(|t| t.0 == a[2]).expect("id").1;
            std::panic::set_hook(Box::new(|_| {}));
            let start = Instant::now();
            let mut n = 0u64;
            let mut nontrivial = 0u64;
            let mut sample = String::new();
            let mut seen = std::collections::HashSet::new();
            while start.elapsed() < Duration::from_millis(ms) {
                if let Some(t) = &trace { let mut fl = std::fs::File::create(t).unwrap(); write!(fl, "{}", n).unwrap(); }
                let mut log = Log::default();
                let r = run(f, seed, n, &mut log);
                if log.nontrivial && seen.insert(log.hash) { nontrivial += 1; }
                if sample.is_empty() && log.nontrivial { sample = log.text.join("; "); }
                if let Err(e) = r {
                    println!("FAIL {} seed={} case={}", a[2], seed, n);
                    println!("{}", e);
                    for l in log.text { println!("  {}", l); }
                    std::process::exit(1);
                }
                n += 1;
            }
            println!("OK {} evaluations={} distinct_nontrivial={}", a[2], n, nontrivial);
            println!("SAMPLE {}", sample.chars().take(600).collect::<String>());
        }
        "one" => {
            let seed: u64 = a[3].parse().unwrap();
            let case: u64 = a[4].parse().unwrap();
            let f = table().into_iter().find(|t| t.0 == a[2]).expect("id").1;
            let mut log = Log { echo: true, ..Log::default() };
            match run(f, seed, case, &mut log) {
                Ok(()) => println!("case passes"),
                Err(e) => { println!("FAIL {}", e); std::process::exit(1); }
            }
        }
        "digest" => {
            let seed: u64 = a[2].parse().unwrap();
            let n: u64 = a[3].parse().unwrap();
            for i in 0..n { println!("{}", p2::digest(&mut Rng::new(seed, i))); }
        }
        _ => std::process::exit(2),
    }
}

fn run(f: Case, seed: u64, case: u64, log: &mut Log) -> Res {
    let mut rng = Rng::new(seed, case);
    match catch_unwind(AssertUnwindSafe(|| f(&mut rng, log))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}
