//! replay <harness> [hex bytes of each nondeterministic value]...   (exit 1: the contract fails)
//! replay --random <harness> <seed> <runs> <seconds>   draws the values instead
//! replay --list             names the harnesses
//! replay --native           runs every native stand-in, one line each
use std::panic;
use rowcol_contracts::nd;
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness name");
    if name == "--list" {
        for (n, _) in rowcol_contracts::table() { println!("{}", n); }
        return
    }
    if name == "--native" {
        let mut bad = 0;
        for (n, f) in rowcol_contracts::natives() {
            println!("RUNNING {}", n);
            let r = panic::catch_unwind(f);
            println!("NATIVE {} {}", n, if r.is_ok() { "ok" } else { "FAILED" });
            bad += r.is_err() as i32;
        }
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    if name == "--random" {
        let name = args.next().unwrap();
        let (seed, runs, secs): (u64, u64, u64) = (args.next().unwrap().parse().unwrap(), args.next().unwrap().parse().unwrap(), args.next().unwrap().parse().unwrap());
        let f = find(&name);
        let must_panic = name.rsplit("::").next().unwrap().starts_with("panics_");
        let start = std::time::Instant::now();
        panic::set_hook(Box::new(|_| {}));
        let (mut n, mut met) = (0, 0);
        while n < runs && start.elapsed().as_secs() < secs {
            nd::RNG.with(|r| r.set((seed.wrapping_mul(1000003).wrapping_add(n + 1)).wrapping_mul(0x9e3779b97f4a7c15) | 1));
            for _ in 0..4 { nd::rnd(); }
            nd::LOG.with(|l| l.borrow_mut().clear());
            n += 1;
            match panic::catch_unwind(f) {
                Err(e) if e.downcast_ref::<nd::Unmet>().is_some() => continue,
                r => { met += 1; if r.is_err() != must_panic {
                    println!("REPLAY: contract fails on the real code\nVALUES {}", nd::log());
                    std::process::exit(1)
                } }
            }
        }
        println!("RANDOM {} runs, {} met the preconditions", n, met);
        return
    }
    let vals: Vec<Vec<u8>> = args.map(|a| {
        if a == "-" { return vec![] }
        (0..a.len() / 2).map(|i| u8::from_str_radix(&a[2 * i..2 * i + 2], 16).unwrap()).collect()
    }).collect();
    rowcol_contracts::nd::VALS.with(|v| *v.borrow_mut() = vals.into_iter().collect());
    let f = find(&name);
    let must_panic = name.rsplit("::").next().unwrap().starts_with("panics_");
    let r = panic::catch_unwind(f);
    let bad = r.is_err() != must_panic;
    println!("REPLAY: {}", if bad { "contract fails on the real code" } else { "contract holds for these values" });
    std::process::exit(if bad { 1 } else { 0 });
}
fn find(name: &str) -> fn() {
    rowcol_contracts::table().into_iter().chain(rowcol_contracts::natives())
        .find(|x| x.0 == name || x.0 == format!("rowcol_contracts::{}", name))
        .unwrap_or_else(|| { println!("REPLAY: no harness {}", name); std::process::exit(78) }).1
}
