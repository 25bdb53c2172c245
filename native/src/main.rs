//! Replays of verifier counterexamples, and a seeded search for failing inputs,
//! on the real code through its public API only (no hooks).
//!
//!   vnative search <PROP> <seconds> <seed> [lits-file]   -> exit 0 / 1 (prints FAIL ... case)
//!   vnative replay <PROP> <case>                          -> exit 0 / 1
//!
//! This is never the deciding step of a property: it turns a failed obligation
//! into a failing input, and serves as the *bounded* stand-in when an obligation
//! cannot be generated from the current source.

#[path = "../../spec/spec.rs"]
#[allow(dead_code)]
mod spec;
mod cases;
mod oracle;

use cases::*;
use std::time::{Duration, Instant};

fn main() {
    // panics of the code under test are caught and reported by the oracles
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "sqrt" {
        std::process::exit(sqrt());
    }
    if a.len() == 2 && a[1] == "serve" {
        return serve();
    }
    if a.len() < 4 {
        eprintln!("usage: vnative search PROP SECONDS SEED [LITS] | replay PROP CASE");
        std::process::exit(2);
    }
    match a[1].as_str() {
        "replay" => {
            let case = match Case::parse(&a[3]) {
                Some(c) => c,
                None => {
                    eprintln!("cannot parse case");
                    std::process::exit(2);
                }
            };
            match oracle::check(&a[2], &case) {
                Ok(()) => println!("PASS"),
                Err(e) => {
                    println!("FAIL {}", e);
                    println!("CASE {}", case.show());
                    std::process::exit(1);
                }
            }
        }
        "search" => {
            let secs: f64 = a[3].parse().unwrap();
            let seed: u64 = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(1);
            let lits: Vec<i64> = a
                .get(5)
                .and_then(|p| std::fs::read_to_string(p).ok())
                .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
                .unwrap_or_default();
            let nthreads = 8u64;
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let hs: Vec<_> = (0..nthreads)
                .map(|t| {
                    let prop = a[2].clone();
                    let lits = lits.clone();
                    std::thread::spawn(move || {
                        let mut g = Gen::new(seed * 1000 + t, lits);
                        let mut n = 0u64;
                        let mut nontrivial = 0u64;
                        let mut sample = String::new();
                        while Instant::now() < end || n < 200 {
                            let c = g.case(&prop, n * nthreads + t);
                            n += 1;
                            if c.nontrivial() {
                                nontrivial += 1;
                                if sample.is_empty() {
                                    sample = c.show();
                                }
                            }
                            if let Err(e) = oracle::check(&prop, &c) {
                                return (n, nontrivial, sample, Some((e, oracle::shrink(&prop, c))));
                            }
                            if Instant::now() > end + Duration::from_secs(20) {
                                break;
                            }
                        }
                        (n, nontrivial, sample, None)
                    })
                })
                .collect();
            let mut total = 0;
            let mut nt = 0;
            let mut fail = None;
            let mut sample = String::new();
            for h in hs {
                let (n, k, s, f) = h.join().expect("search thread died");
                total += n;
                nt += k;
                if sample.is_empty() {
                    sample = s;
                }
                if fail.is_none() {
                    fail = f;
                }
            }
            println!("CASES {} NONTRIVIAL {}", total, nt);
            println!("SAMPLE {}", sample);
            if let Some((e, c)) = fail {
                println!("FAIL {}", e);
                println!("CASE {}", c.show());
                std::process::exit(1);
            }
            println!("PASS");
        }
        _ => std::process::exit(2),
    }
}

/// lines `enc FMT ALG WEIGH RED GREEN BLUE W H HEX` and `dec FMT W H HEX`, answered with the bytes in hex
fn serve() {
    use std::io::BufRead;
    use texpresso::*;
    let fmt = |s: &str| [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5][s.parse::<usize>().unwrap() - 1];
    let unhex = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let a: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| a[i].parse::<usize>().unwrap();
        let out = if a[0] == "enc" {
            let f = fmt(a[1]);
            let p = Params {
                algorithm: [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit][n(2)],
                weights: [a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()],
                weigh_colour_by_alpha: n(3) == 1,
            };
            let mut o = vec![0u8; f.compressed_size(n(7), n(8))];
            f.compress(&unhex(a[9]), n(7), n(8), p, &mut o);
            o
        } else {
            let mut o = vec![0u8; 4 * n(2) * n(3)];
            fmt(a[1]).decompress(&unhex(a[4]), n(2), n(3), &mut o);
            o
        };
        println!("{}", out.iter().map(|b| format!("{:02x}", b)).collect::<String>());
    }
}

/// sqrtf(a) is at most the power of two that bounds a, and from 1 to 4 for a from 1 to 16: every
/// float from 0 to 65536
fn sqrt() -> i32 {
    fn lg(b: u32) -> u32 {
        if b <= 0x3f80_0000 {
            0
        } else if b < 0x7f00_0000 {
            (b - 0x3f80_0000 + 0x7f_ffff) / 0x80_0000
        } else {
            1000
        }
    }
    let hs: Vec<_> = (0..8u32)
        .map(|t| {
            std::thread::spawn(move || {
                let mut b = t;
                while b <= 0x4780_0000 {
                    let r = libm::sqrtf(f32::from_bits(b)).to_bits();
                    if lg(r) > lg(b) {
                        return Some(b);
                    }
                    // from 1 to 16: from 1 to 4
                    if 0x3f80_0000 <= b && b <= 0x4180_0000 && !(0x3f80_0000 <= r && r <= 0x4080_0000) {
                        return Some(b);
                    }
                    b += 8;
                }
                None
            })
        })
        .collect();
    for h in hs {
        if let Some(b) = h.join().unwrap() {
            println!("sqrtf({:08x}) out of range", b);
            return 1;
        }
    }
    println!("OK {}", 0x4780_0001u32);
    0
}
