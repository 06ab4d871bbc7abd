//! `obs run DIR quick|thorough`: write the estimates of every case to DIR/<case>.f64
//! `obs describe CASE INDEX quick|thorough`: the history behind one estimate
use std::sync::atomic::{AtomicU32, Ordering};
fn each(n: u32, f: impl Fn(u32) + Sync) {
    let next = AtomicU32::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n {
                    break;
                }
                f(n - 1 - k);
            });
        }
    });
}
/// What rounding may change: a sum of 2^p terms may be taken in any order, near
/// 2^32 the large range correction magnifies it, and a logarithm near 1 may be a
/// difference of two, times 2^25 (HyperLogLog++).
fn tolerance(case: u32, pf: u32, x: f64) -> f64 {
    let p = 4 + (if case < pf { case.max(1) - 1 } else { (case - pf).max(1) - 1 }) / 5;
    let rel = if x.abs() > 1e9 { 1e-9 } else { f64::max(1e-12, (8u64 << p) as f64 * f64::EPSILON) };
    let abs = if case < pf { 1e-9 } else { 2e-7 };
    abs + rel * x.abs()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let th = a.last().unwrap() == "thorough";
    match a[1].as_str() {
        "run" => {
            let (pf, all) = obs::cases(th);
            let n = if cfg!(feature = "std") { all } else { pf };
            let next = AtomicU32::new(0);
            let ops = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= n {
                            break;
                        }
                        let c = n - 1 - k;
                        let r = std::panic::catch_unwind(|| obs::run(c, usize::MAX, th));
                        let path = format!("{}/{}.f64", a[2], c);
                        match r {
                            Ok(o) => {
                                let b: Vec<u8> = o.v.iter().flat_map(|x| x.to_le_bytes()).collect();
                                std::fs::write(path, b).unwrap();
                            }
                            Err(_) => std::fs::write(format!("{}/{}.panic", a[2], c), "panicked").unwrap(),
                        }
                        ops.fetch_add(obs::OPS.with(|c| c.replace(0)), Ordering::Relaxed);
                    });
                }
            });
            println!("{}", ops.into_inner());
        }
        // two result directories: prints what differs, or a summary
        "compare" => {
            let (pf, all) = obs::cases(th);
            let n = if a[4] == "1" { pf } else { all };
            let get = |d: &str, c: u32| -> Option<Vec<f64>> {
                let b = std::fs::read(format!("{}/{}.f64", d, c)).ok()?;
                Some(b.chunks(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())).collect())
            };
            let (mut cmp, mut exact, mut worst) = (0u64, 0u64, 0f64);
            for c in 0..n {
                match (get(&a[2], c), get(&a[3], c)) {
                    (Some(x), Some(y)) => {
                        for i in 0..x.len().max(y.len()) {
                            let (p, q) = (x.get(i).copied(), y.get(i).copied());
                            cmp += 1;
                            if let (Some(p), Some(q)) = (p, q) {
                                if p.to_bits() == q.to_bits() {
                                    exact += 1;
                                    continue;
                                }
                                let d = (p - q).abs();
                                if d <= tolerance(c, pf, p) {
                                    worst = worst.max(d / p.abs());
                                    continue;
                                }
                            }
                            println!("DIFF {} {} {:?} {:?}", c, i, p, q);
                            break;
                        }
                    }
                    (None, None) => {}
                    (x, _) => println!("DIFF {} 0 {} {}", c, if x.is_some() { "ran" } else { "panicked" }, if x.is_some() { "panicked" } else { "ran" }),
                }
            }
            println!("SUMMARY {} {} {:e}", cmp, exact, worst);
        }
        // how many values a result directory holds, how many distinct, a sample
        "count" => {
            let mut seen = std::collections::HashSet::new();
            let mut n = 0u64;
            for c in 0..obs::cases(th).1 {
                for x in std::fs::read(format!("{}/{}.f64", a[2], c)).unwrap_or_default().chunks(8) {
                    seen.insert(u64::from_le_bytes(x.try_into().unwrap()));
                    n += 1;
                }
            }
            println!("{} {}", n, seen.len());
        }
        // save DIR: every case of wire.rs to DIR/<case>.bin (or .panic)
        "save" => {
            let n = if cfg!(feature = "std") { obs::wire::cases().1 } else { obs::wire::cases().0 };
            each(n, |c| match std::panic::catch_unwind(|| obs::wire::save(c)) {
                Ok(b) => std::fs::write(format!("{}/{}.bin", a[2], c), b).unwrap(),
                Err(_) => std::fs::write(format!("{}/{}.panic", a[2], c), "panicked").unwrap(),
            });
        }
        // load BLOBS DIR: every BLOBS/<case>-<k>.bin to DIR/<case>-<k>.f64 (or .panic)
        "load" => {
            let n = if cfg!(feature = "std") { obs::wire::cases().1 } else { obs::wire::cases().0 };
            each(n, |c| {
                for k in 0.. {
                    let Ok(b) = std::fs::read(format!("{}/{}-{}.bin", a[2], c, k)) else { break };
                    match std::panic::catch_unwind(|| obs::wire::load(c, usize::MAX, &b)) {
                        Ok(o) => {
                            let b: Vec<u8> = o.v.iter().flat_map(|x| x.to_le_bytes()).collect();
                            std::fs::write(format!("{}/{}-{}.f64", a[3], c, k), b).unwrap();
                        }
                        Err(_) => std::fs::write(format!("{}/{}-{}.panic", a[3], c, k), "panicked").unwrap(),
                    }
                }
            });
        }
        "wirename" => println!("{}", obs::wire::name(a[2].parse().unwrap())),
        // wiredescribe CASE INDEX BLOB
        "wiredescribe" => {
            let o = obs::wire::load(a[2].parse().unwrap(), a[3].parse().unwrap(), &std::fs::read(&a[4]).unwrap());
            println!("{}", o.text.unwrap_or_default());
        }
        // wirecheck DIR: within each .f64, the restored sketches against the one never saved
        "wirecheck" => {
            let (mut cmp, mut files) = (0u64, 0u64);
            let mut seen = std::collections::HashSet::new();
            let mut names: Vec<_> = std::fs::read_dir(&a[2]).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
            names.sort();
            for f in names {
                let stem = f.file_stem().unwrap().to_string_lossy().into_owned();
                files += 1;
                if f.extension().map_or(false, |e| e == "panic") {
                    println!("DIFF {} 0 the operations do not finish, or the sketch is not accepted", stem);
                    continue;
                }
                let v: Vec<f64> = std::fs::read(&f).unwrap().chunks(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())).collect();
                let n = v.len() / 3;
                assert!(n > 0 && v.len() % 3 == 0);
                for i in n..v.len() {
                    let (x, y) = (v[i % n], v[i]);
                    cmp += 1;
                    seen.insert(y.to_bits());
                    if !((x - y).abs() <= 2e-7 + 1e-9 * x.abs()) {
                        println!("DIFF {} {} never saved {} restored {}", stem, i, x, y);
                        break;
                    }
                }
            }
            println!("SUMMARY {} {} {}", files, cmp, seen.len());
        }
        "describe" => {
            let o = obs::run(a[2].parse().unwrap(), a[3].parse().unwrap(), th);
            println!("{}", o.text.unwrap_or_default());
        }
        _ => std::process::exit(2),
    }
}
