//! P19: the evaluation program, driven through its command line in a scratch
//! directory. MC_EVL names the binary built from the current tree.
use crate::gen::*;
use crate::report::*;
use crate::sk::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = format!("{}/work/scratch-evl-{}-{}", verif(), std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(PathBuf::from(d))
    }
    fn sub(&self, n: &str) -> PathBuf {
        let d = self.0.join(n);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The program, ended when it does not finish (the watchdog has reported that by then).
fn program(bin: &str) -> Command {
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "150", bin]);
    c
}
fn evl(dir: &Path, args: &[String]) -> Result<(), String> {
    beat();
    let bin = std::env::var("MC_EVL").expect("MC_EVL");
    let o = program(&bin).env("RUST_BACKTRACE", "0").args(args).current_dir(dir).output().map_err(|e| format!("cannot start evl: {}", e))?;
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("evl exited with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)))
    }
}
fn s(x: impl std::fmt::Display) -> String {
    x.to_string()
}

/// The output file for an input file.
fn find(out: &Path, base: &str) -> Result<PathBuf, String> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(out)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.file_name().unwrap().to_string_lossy().ends_with(base))
        .collect();
    if v.len() != 1 {
        return Err(format!("{} output files for input {}", v.len(), base));
    }
    Ok(v.remove(0))
}

fn near(printed: u64, e: f64) -> bool {
    [e, e + 1e-6, e - 1e-6].iter().any(|x| x.trunc() as u64 == printed)
}

fn expect_file<T: Sk>(ctx: &mut Ctx, p: u8, out: &Path, base: &str, hs: &[u64], how: &str) -> bool {
    let fail = |ctx: &mut Ctx, m: String| {
        ctx.fail(m, vec![format!("evl run -t {} -m hashes -p {} {}: input {} = {:?}", if T::KIND == Kind::Pf { "hll" } else { "hllp" }, p, how, base, &hs[..hs.len().min(40)])]);
        false
    };
    let f = match find(out, base) {
        Ok(f) => f,
        Err(e) => return fail(ctx, e),
    };
    let text = std::fs::read_to_string(&f).unwrap_or_default();
    let lines: Vec<&str> = text.lines().collect();
    ctx.evaluations += 1;
    if lines.len() != hs.len() {
        return fail(ctx, format!("{} lines for {} hashes", lines.len(), hs.len()));
    }
    let mut sk = T::new_(p);
    for (i, l) in lines.iter().enumerate() {
        sk.ins(hs[i]);
        let e = sk.cnt();
        let w: Vec<&str> = l.split(' ').collect();
        ctx.evaluations += 1;
        ctx.outcome(e);
        let ok = w.len() == 2 && w[0] == s(i + 1) && w[1].parse::<u64>().map_or(false, |v| near(v, e));
        if !ok {
            return fail(ctx, format!("line {} is '{}' but a fresh sketch of the first {} hashes estimates {}", i + 1, l, i + 1, e));
        }
    }
    ctx.states += 1;
    ctx.transitions += hs.len() as u64;
    ctx.traces += 1;
    true
}

fn ty<T: Sk>() -> String {
    s(if T::KIND == Kind::Pf { "hll" } else { "hllp" })
}
fn letters<T: Sk>(p: u8, n: usize) -> Vec<u64> {
    let mut v = alphabet(T::KIND, p, n);
    if T::KIND == Kind::Pf {
        v = v.into_iter().map(|h| h & 0xffff_ffff).collect();
    }
    v
}
fn write(d: &Path, name: &str, hs: &[u64]) -> String {
    let f = d.join(name);
    let t: String = hs.iter().map(|h| format!("{}\n", h)).collect();
    std::fs::write(&f, t).expect("input file");
    f.to_string_lossy().into_owned()
}

/// All hash files of up to `len` lines over an alphabet, in one run of the program,
/// with each number of jobs.
fn words<T: Sk>(ctx: &mut Ctx, p: u8, n: usize, len: usize, jobs: &[usize]) {
    let d = Dir::new();
    let inp = d.sub("in");
    let al = letters::<T>(p, n);
    let mut ws: Vec<Vec<u64>> = vec![vec![]];
    let mut last: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for w in &last {
            for &a in &al {
                let mut x = w.clone();
                x.push(a);
                next.push(x);
            }
        }
        ws.extend(next.iter().cloned());
        last = next;
    }
    // one file that reaches the dense form, first among the inputs
    let mut long = background(T::KIND, p.min(9), Bg::Just);
    if T::KIND == Kind::Pf {
        long = long.into_iter().map(|h| h & 0xffff_ffff).collect();
    }
    ws.insert(0, long);
    let names: Vec<String> = (0..ws.len()).map(|i| format!("w{:05}.dat", i)).collect();
    let files: Vec<String> = ws.iter().zip(&names).map(|(w, n)| write(&inp, n, w)).collect();
    for &j in jobs {
        let out = d.sub(&format!("out{}", j));
        let mut a = vec![s("-j"), s(j), s("run"), s("-t"), ty::<T>(), s("-m"), s("hashes"), s("-p"), s(p), s("-i")];
        a.extend(files.iter().cloned());
        a.extend([s("-o"), out.to_string_lossy().into_owned()]);
        if let Err(e) = evl(&d.0, &a) {
            ctx.fail(e, vec![format!("evl -j {} run -t {} -m hashes -p {} with {} input files", j, ty::<T>(), p, files.len())]);
            return;
        }
        for (w, n) in ws.iter().zip(&names) {
            beat();
            if !expect_file::<T>(ctx, p, &out, n, w, &format!("-j {} among {} files", j, files.len())) {
                return;
            }
        }
        let c = std::fs::read_dir(&out).map(|r| r.count()).unwrap_or(0);
        if c != ws.len() {
            ctx.fail(format!("{} input files but {} output files", ws.len(), c), vec![]);
            return;
        }
    }
}

/// Hashes made of special halves and quarters: all of them in one file, forwards and
/// backwards, and each alone in a file.
fn specials<T: Sk>(ctx: &mut Ctx, p: u8, rich: bool) {
    let d = Dir::new();
    let inp = d.sub("in");
    let mask = if T::KIND == Kind::Pf { 0xffff_ffff } else { u64::MAX };
    let mut hs: Vec<u64> = super::routes::special(rich).into_iter().map(|h| h & mask).collect();
    hs.sort();
    hs.dedup();
    let mut ws = vec![hs.clone(), hs.iter().rev().copied().collect()];
    ws.extend(hs.iter().map(|&h| vec![h]));
    let names: Vec<String> = (0..ws.len()).map(|i| format!("s{:05}.dat", i)).collect();
    let files: Vec<String> = ws.iter().zip(&names).map(|(w, n)| write(&inp, n, w)).collect();
    let out = d.sub("out");
    let mut a = vec![s("-j"), s(4), s("run"), s("-t"), ty::<T>(), s("-m"), s("hashes"), s("-p"), s(p), s("-i")];
    a.extend(files.iter().cloned());
    a.extend([s("-o"), out.to_string_lossy().into_owned()]);
    if let Err(e) = evl(&d.0, &a) {
        ctx.fail(e, vec![format!("evl run -t {} -m hashes -p {} over {} files of special hashes", ty::<T>(), p, files.len())]);
        return;
    }
    for (w, n) in ws.iter().zip(&names) {
        beat();
        if !expect_file::<T>(ctx, p, &out, n, w, "special hashes") {
            return;
        }
    }
}

/// Every order of the same few files, and each alone, without -j as well.
fn orders<T: Sk>(ctx: &mut Ctx, p: u8) {
    let d = Dir::new();
    let inp = d.sub("in");
    let al = letters::<T>(p, 6);
    let mut long = background(T::KIND, p, Bg::Mid);
    if T::KIND == Kind::Pf {
        long = long.into_iter().map(|h| h & 0xffff_ffff).collect();
    }
    let ws: Vec<Vec<u64>> = vec![long, vec![al[0], al[1]], vec![al[1]], vec![]];
    let names: Vec<String> = (0..ws.len()).map(|i| format!("file-{}.dat", i)).collect();
    let files: Vec<String> = ws.iter().zip(&names).map(|(w, n)| write(&inp, n, w)).collect();
    let mut sels: Vec<Vec<usize>> = vec![];
    for a in 0..4 {
        sels.push(vec![a]);
        for b in 0..4 {
            if a != b {
                sels.push(vec![a, b]);
                for c in 0..4 {
                    if c != a && c != b {
                        sels.push(vec![a, b, c]);
                    }
                }
            }
        }
    }
    for sel in sels {
        for j in ["", "1", "2"] {
            let out = d.sub(&format!("o{}", N.fetch_add(1, Ordering::Relaxed)));
            let mut a = vec![];
            if !j.is_empty() {
                a.extend([s("-j"), s(j)]);
            }
            a.extend([s("run"), s("-t"), ty::<T>(), s("-m"), s("hashes"), s("-p"), s(p), s("-i")]);
            a.extend(sel.iter().map(|&i| files[i].clone()));
            a.extend([s("-o"), out.to_string_lossy().into_owned()]);
            if let Err(e) = evl(&d.0, &a) {
                ctx.fail(e, vec![a.join(" ")]);
                return;
            }
            for &i in &sel {
                if !expect_file::<T>(ctx, p, &out, &names[i], &ws[i], &format!("-j '{}' inputs {:?}", j, sel)) {
                    return;
                }
            }
        }
    }
}

/// Names, places and layouts of input files; an output directory used again; a file
/// longer than any buffer.
fn layouts<T: Sk>(ctx: &mut Ctx, p: u8, long: usize) {
    let d = Dir::new();
    let al = letters::<T>(p, 6);
    let mask = if T::KIND == Kind::Pf { 0xffff_ffff } else { u64::MAX };
    let run = |files: &[String], out: &str| {
        let mut a = vec![s("-j"), s(2), s("run"), s("-t"), ty::<T>(), s("-m"), s("hashes"), s("-p"), s(p), s("-i")];
        a.extend(files.iter().cloned());
        a.extend([s("-o"), s(out)]);
        a
    };
    // names; relative and nested places
    for (n, name) in ["a", "a.b.c", "with space.dat", ".hidden", "x--y", "é.dat", "est-p6-x", "0", "UPPER.DAT", "-"].iter().enumerate() {
        for rel in [false, true] {
            let sub = d.sub(&format!("in{}/deep er", n));
            let out = d.sub(&format!("names{}-{}", n, rel));
            write(&sub, name, &al[..4]);
            let (i, o) = if rel {
                (format!("in{}/deep er/{}", n, name), out.file_name().unwrap().to_string_lossy().into_owned())
            } else {
                (sub.join(name).to_string_lossy().into_owned(), out.to_string_lossy().into_owned())
            };
            let a = run(&[i], &o);
            if let Err(e) = evl(&d.0, &a) {
                ctx.fail(e, vec![a.join(" ")]);
                return;
            }
            if !expect_file::<T>(ctx, p, &out, name, &al[..4], "file names") {
                return;
            }
        }
    }
    // the last line need not end
    let f = d.0.join("open-end");
    let out = d.sub("open-end-out");
    std::fs::write(&f, al.iter().map(|h| s(h)).collect::<Vec<_>>().join("\n")).unwrap();
    let a = run(&[f.to_string_lossy().into_owned()], &out.to_string_lossy());
    if let Err(e) = evl(&d.0, &a) {
        ctx.fail(e, vec![a.join(" ")]);
        return;
    }
    if !expect_file::<T>(ctx, p, &out, "open-end", &al, "no newline at the end") {
        return;
    }
    // the same output directory again, for longer and shorter contents in every order
    let out = d.sub("again");
    let lens = [long / 8, 3, 0, 700, 1];
    for &x in &lens {
        for &y in &lens {
            for l in [x, y] {
                let hs: Vec<u64> = (0..l as u64).map(|i| mix(i + 77) & mask).collect();
                let f = write(&d.0, "again.dat", &hs);
                let a = run(&[f], &out.to_string_lossy());
                if let Err(e) = evl(&d.0, &a) {
                    ctx.fail(e, vec![a.join(" ")]);
                    return;
                }
                if !expect_file::<T>(ctx, p, &out, "again.dat", &hs, &format!("into the directory of an earlier run, {} then {} lines", x, y)) {
                    return;
                }
            }
        }
    }
    let hs: Vec<u64> = (0..long as u64).map(|i| mix(i) & mask).collect();
    let f = write(&d.0, "long.dat", &hs);
    let out = d.sub("long-out");
    let a = run(&[f], &out.to_string_lossy());
    if let Err(e) = evl(&d.0, &a) {
        ctx.fail(e, vec![a.join(" ")]);
        return;
    }
    expect_file::<T>(ctx, p, &out, "long.dat", &hs, "long file");
}

fn cards<T: Sk>(ctx: &mut Ctx, p: u8) {
    let d = Dir::new();
    for (n, list) in [vec![], vec![0u64], vec![0, 1], vec![1, 2, 3, 3], vec![10, 100, 1000, 20000], vec![5000], vec![65_535, 65_536, 70_000]].iter().enumerate() {
        let cf = write(&d.0, &format!("cards{}", n), list);
        for (runs, jobs) in [(0usize, 1usize), (1, 1), (3, 2), (5, 8), (13, 8), (110, 4), (300, 8)] {
            if runs > 20 && list.len() != 2 || runs > 200 && p > 8 {
                continue;
            }
            let out = d.sub(&format!("c{}", N.fetch_add(1, Ordering::Relaxed)));
            let a = vec![
                s("-j"), s(jobs), s("run"), s("-t"), ty::<T>(), s("-m"), s("cardinalities"), s("-p"), s(p),
                s("-r"), s(runs), s("-c"), cf.clone(), s("-o"), out.to_string_lossy().into_owned(),
            ];
            let tr = vec![a.join(" "), format!("cardinalities: {:?}", list)];
            if let Err(e) = evl(&d.0, &a) {
                ctx.fail(e, tr);
                return;
            }
            let fs: Vec<PathBuf> = std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
            ctx.evaluations += 1;
            if fs.len() != runs {
                ctx.fail(format!("{} output files for {} runs", fs.len(), runs), tr);
                return;
            }
            for f in fs {
                let text = std::fs::read_to_string(&f).unwrap_or_default();
                let lines: Vec<Vec<u64>> = text.lines().map(|l| l.split(' ').map(|x| x.parse().unwrap_or(u64::MAX)).collect()).collect();
                ctx.evaluations += 1;
                ctx.states += 1;
                let ok = lines.len() == list.len()
                    && lines.iter().zip(list).all(|(l, &c)| {
                        // the values are random: ten standard errors
                        let tol = 10.0 * 1.04 / ((1u64 << p) as f64).sqrt() * c as f64 + 10.0;
                        // a few values: the estimate for each number of registers or
                        // buckets they may hit
                        let few = |k: u64| {
                            let m = (1u64 << p) as f64;
                            let dense = m * (m / (m - k as f64)).ln();
                            [dense, if T::KIND == Kind::Plus { crate::refm::plus_sparse(k as usize) } else { dense }]
                        };
                        l.len() == 2 && (c > 3 || (0..=c).any(|k| (k > 0 || c == 0) && few(k).iter().any(|&e| near(l[1], e)))) && l[0] == c && (l[1] as f64 - c as f64).abs() <= tol && (c > 0 || l[1] == 0)
                    });
                if !ok {
                    ctx.fail(format!("output {:?}", text), tr);
                    return;
                }
                ctx.traces += 1;
                ctx.transitions += list.len() as u64;
            }
        }
    }
}

fn generate(ctx: &mut Ctx, size: u32) {
    let d = Dir::new();
    for count in [0usize, 1, 2, 7, 100, 3000, 66_000] {
        for runs in [0usize, 1, 2, 5, 11, 25, 130, 300] {
            for jobs in [1usize, 8] {
                if count > 100 && runs > 11 || count > 3000 && runs > 2 || count * runs > 3000 && jobs == 1 {
                    continue;
                }
                let out = d.sub(&format!("g{}", N.fetch_add(1, Ordering::Relaxed)));
                let a = vec![s("-j"), s(jobs), s("gen"), s("-s"), s(size), s("-c"), s(count), s("-r"), s(runs), s("-o"), out.to_string_lossy().into_owned()];
                let tr = vec![a.join(" ")];
                if let Err(e) = evl(&d.0, &a) {
                    ctx.fail(e, tr);
                    return;
                }
                let fs: Vec<PathBuf> = std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
                ctx.evaluations += 1;
                ctx.states += 1;
                if fs.len() != runs {
                    ctx.fail(format!("{} files for {} runs", fs.len(), runs), tr);
                    return;
                }
                let mut contents = std::collections::HashSet::new();
                for f in &fs {
                    let text = std::fs::read_to_string(f).unwrap_or_default();
                    if count >= 7 && !contents.insert(text.clone()) {
                        ctx.fail(format!("file {:?} has the same hashes as another", f.file_name()), tr);
                        return;
                    }
                    let n = text.lines().filter(|l| if size == 32 { l.parse::<u32>().is_ok() } else { l.parse::<u64>().is_ok() }).count();
                    let distinct: std::collections::HashSet<&str> = text.lines().collect();
                    ctx.evaluations += 1;
                    ctx.traces += 1;
                    ctx.outcome(text.len() as f64);
                    // seven values of the full width, one of them at least in its upper half
                    let half = if size == 32 { u16::MAX as u64 } else { u32::MAX as u64 };
                    let wide = count < 7 || text.lines().any(|l| l.parse::<u64>().map_or(false, |x| x > half));
                    if n != count || text.lines().count() != count || (count >= 7 && distinct.len() < count / 2) || !wide {
                        ctx.fail(format!("file {:?} has {} lines, {} parseable, {} distinct", f.file_name(), text.lines().count(), n, distinct.len()), tr);
                        return;
                    }
                }
                // and the program accepts them
                if runs == 2 && count > 0 {
                    let o2 = d.sub(&format!("g{}", N.fetch_add(1, Ordering::Relaxed)));
                    let mut a = vec![s("run"), s("-t"), s(if size == 32 { "hll" } else { "hllp" }), s("-m"), s("hashes"), s("-p"), s(10), s("-i")];
                    a.extend(fs.iter().map(|f| f.to_string_lossy().into_owned()));
                    a.extend([s("-o"), o2.to_string_lossy().into_owned()]);
                    if let Err(e) = evl(&d.0, &a) {
                        ctx.fail(e, tr);
                        return;
                    }
                    for f in &fs {
                        let hs: Vec<u64> = std::fs::read_to_string(f).unwrap().lines().map(|l| l.parse().unwrap()).collect();
                        let base = f.file_name().unwrap().to_string_lossy().into_owned();
                        let ok = if size == 32 { expect_file::<Pf>(ctx, 10, &o2, &base, &hs, "generated") } else { expect_file::<Plus>(ctx, 10, &o2, &base, &hs, "generated") };
                        if !ok {
                            return;
                        }
                    }
                }
            }
        }
    }
}

pub fn p19(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let jobs: &'static [usize] = if th { &[1, 2, 3, 8, 32] } else { &[1, 8] };
    fn per<T: Sk>(v: &mut Vec<Case>, th: bool, jobs: &'static [usize]) {
        for p in (4..=T::PMAX).rev() {
            let (n, len) = match (p, th) {
                (4, false) => (7, 3), // more than 256 files
                (..=9, false) => (5, 3),
                (_, false) => (3, 3),
                (..=9, true) => (7, 4),
                (..=14, true) => (5, 4),
                (_, true) => (5, 3),
            };
            v.push(case(format!("{} p={} all files of up to {} lines over {} hashes", T::TY, p, len, n), move |c| words::<T>(c, p, n, len, jobs)));
            if p <= 8 || th && p <= 12 {
                v.push(case(format!("{} p={} orders of input files", T::TY, p), move |c| orders::<T>(c, p)));
            }
            if p == 5 || p == 10 || th && p <= 12 {
                v.push(case(format!("{} p={} names, layouts, reruns and a long file", T::TY, p), move |c| layouts::<T>(c, p, match (p, th) { (..=6, true) => 120_000, (..=6, false) => 66_000, (..=10, _) => 11_000, _ => 3_000 })));
            }
            if p == 6 || p == 12 || th && p <= 14 {
                v.push(case(format!("{} p={} special hashes", T::TY, p), move |c| specials::<T>(c, p, th)));
            }
            if p % 2 == 0 || th {
                v.push(case(format!("{} p={} cardinalities", T::TY, p), move |c| cards::<T>(c, p)));
            }
        }
    }
    per::<Pf>(&mut v, th, jobs);
    per::<Plus>(&mut v, th, jobs);
    v.push(case("gen 32", |c| generate(c, 32)));
    v.push(case("gen 64", |c| generate(c, 64)));
    v
}

// ---------------------------------------------------------------- P22

/// A command line that cannot be carried out; a run that claims success is a violation.
fn refuse(ctx: &mut Ctx, dir: &Path, a: &[String], why: &str) -> bool {
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.evaluations += 1;
    ctx.traces += 1;
    beat();
    let bin = std::env::var("MC_EVL").expect("MC_EVL");
    let o = program(&bin).env("RUST_BACKTRACE", "0").args(a).current_dir(dir).output().expect("evl starts");
    ctx.outcome(o.status.code().unwrap_or(-1) as f64 + a.len() as f64 * 1000.0);
    if o.status.success() {
        ctx.fail(format!("evl reported success although {}", why), vec![format!("evl {}", a.join(" "))]);
        return false;
    }
    true
}
fn accept(ctx: &mut Ctx, dir: &Path, a: &[String]) -> bool {
    ctx.states += 1;
    ctx.transitions += 1;
    ctx.evaluations += 1;
    ctx.traces += 1;
    if let Err(e) = evl(dir, a) {
        ctx.fail(e, vec![format!("evl {}", a.join(" "))]);
        return false;
    }
    true
}
fn args(x: &[&str]) -> Vec<String> {
    x.iter().map(|x| s(x)).collect()
}

/// Every subset of each command's options, written short, long and with "=": the full
/// set is carried out in every rotation, and everything less is refused.
fn options(ctx: &mut Ctx, ty: &str) {
    let d = Dir::new();
    let out = d.sub("out").to_string_lossy().into_owned();
    let f = write(&d.0, "in.dat", &[1, 2, 3]);
    let cards = write(&d.0, "cards", &[1, 5]);
    let size = if ty == "hll" { "32" } else { "64" };
    let cmds: Vec<(&str, Vec<(&str, &str, &str)>, usize)> = vec![
        ("gen", vec![("-s", "--size", size), ("-c", "--count", "3"), ("-r", "--runs", "2"), ("-o", "--output", &out)], 2),
        ("run", vec![("-t", "--type", ty), ("-m", "--mode", "hashes"), ("-p", "--precision", "6"), ("-i", "--input", &f), ("-o", "--output", &out)], 1),
        (
            "run",
            vec![("-t", "--type", ty), ("-m", "--mode", "cardinalities"), ("-p", "--precision", "6"), ("-r", "--runs", "2"), ("-c", "--cardinalities", &cards), ("-o", "--output", &out)],
            2,
        ),
    ];
    for (cmd, opts, files) in &cmds {
        for style in 0..3 {
            for jobs in ["", "-j", "--jobs"] {
                let n = opts.len();
                for set in 0..1u32 << n {
                    let full = set + 1 == 1 << n;
                    for rot in 0..if full { n } else { 1 } {
                        let mut a: Vec<String> = vec![];
                        if !jobs.is_empty() {
                            a.extend([s(jobs), s(2)]);
                        }
                        a.push(s(cmd));
                        for k in 0..n {
                            let (short, long, v) = opts[(k + rot) % n];
                            if set >> ((k + rot) % n) & 1 == 1 {
                                match style {
                                    0 => a.extend([s(short), s(v)]),
                                    1 => a.extend([s(long), s(v)]),
                                    _ => a.push(format!("{}={}", long, v)),
                                }
                            }
                        }
                        if !full {
                            if jobs.is_empty() && !refuse(ctx, &d.0, &a, "options are missing") {
                                return;
                            }
                            continue;
                        }
                        let _ = std::fs::remove_dir_all(&out);
                        std::fs::create_dir_all(&out).unwrap();
                        if !accept(ctx, &d.0, &a) {
                            return;
                        }
                        let got = std::fs::read_dir(&out).map(|r| r.count()).unwrap_or(0);
                        if got != *files {
                            ctx.fail(format!("evl reported success with {} of {} output files", got, files), vec![format!("evl {}", a.join(" "))]);
                            return;
                        }
                        // and without its last value
                        if style < 2 {
                            a.pop();
                            if !refuse(ctx, &d.0, &a, "the last option has no value") {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A bad line at every position of files of up to `len` lines, the file at every
/// position among up to three inputs.
fn bad_lines(ctx: &mut Ctx, ty: &str, bad: &[&str], len: usize) {
    let d = Dir::new();
    let good = d.0.join("good.dat");
    std::fs::write(&good, "1\n2\n").unwrap();
    let good2 = d.0.join("good2.dat");
    std::fs::write(&good2, "").unwrap();
    for (n, b) in bad.iter().enumerate() {
        for l in 1..=len {
            for at in 0..l {
                let name = format!("bad{}-{}-{}.dat", n, l, at);
                let text: String = (0..l).map(|i| if i == at { format!("{}\n", b) } else { format!("{}\n", i + 7) }).collect();
                let f = d.0.join(&name);
                std::fs::write(&f, text).unwrap();
                let f = f.to_string_lossy().into_owned();
                let (g, g2) = (good.to_string_lossy().into_owned(), good2.to_string_lossy().into_owned());
                for (k, files) in [vec![f.clone()], vec![f.clone(), g.clone()], vec![g.clone(), f.clone()], vec![g.clone(), f.clone(), g2.clone()], vec![g2, g, f]].iter().enumerate() {
                    if k > 0 && at + 1 < l && l > 2 {
                        continue;
                    }
                    for j in ["1", "4"] {
                        let out = d.sub(&format!("o{}", N.fetch_add(1, Ordering::Relaxed)));
                        let mut a = args(&["-j", j, "run", "-t", ty, "-m", "hashes", "-p", "6", "-i"]);
                        a.extend(files.iter().cloned());
                        a.extend([s("-o"), out.to_string_lossy().into_owned()]);
                        if !refuse(ctx, &d.0, &a, &format!("line {} of {} is '{}'", at + 1, name, b)) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Things that are not there or not allowed, one at a time.
/// The names of the files which a command line ending in its output directory writes.
fn outputs(d: &Dir, a: &[String]) -> Vec<String> {
    let out = d.sub(&format!("names{}", N.fetch_add(1, Ordering::Relaxed)));
    let mut a = a.to_vec();
    a.pop();
    a.push(out.to_string_lossy().into_owned());
    let _ = evl(&d.0, &a);
    let mut v: Vec<String> = std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    v.sort();
    v
}

fn impossible(ctx: &mut Ctx, ty: &str, pmax: u32) {
    let d = Dir::new();
    let out = d.sub("out").to_string_lossy().into_owned();
    let f = d.0.join("in.dat");
    std::fs::write(&f, "1\n2\n3\n").unwrap();
    let f = f.to_string_lossy().into_owned();
    let cards = d.0.join("cards");
    std::fs::write(&cards, "1\n5\n").unwrap();
    let cards = cards.to_string_lossy().into_owned();
    let run = |p: &str, i: &str, o: &str| args(&["run", "-t", ty, "-m", "hashes", "-p", p, "-i", i, "-o", o]);
    let card = |p: &str, r: &str, c: &str, o: &str| args(&["run", "-t", ty, "-m", "cardinalities", "-p", p, "-r", r, "-c", c, "-o", o]);
    for p in 0..=600u32 {
        let p = p.to_string();
        let ok = (4..=pmax).contains(&p.parse::<u32>().unwrap());
        for a in [run(&p, &f, &out), card(&p, "2", &cards, &out)] {
            if !(if ok { accept(ctx, &d.0, &a) } else { refuse(ctx, &d.0, &a, "the precision is out of bounds") }) {
                return;
            }
        }
    }
    let gone = d.0.join("no-such-file").to_string_lossy().into_owned();
    let nodir = d.0.join("no-such-directory").to_string_lossy().into_owned();
    let isdir = d.sub("a-directory").to_string_lossy().into_owned();
    // the output name is taken by a directory
    let taken = d.sub("taken");
    let size = if ty == "hll" { "32" } else { "64" };
    let gen = |c: &str, r: &str, o: &str| args(&["gen", "-s", size, "-c", c, "-r", r, "-o", o]);
    for a in [run("6", &f, &out), card("6", "2", &cards, &out), gen("3", "2", &out)] {
        for n in outputs(&d, &a) {
            std::fs::create_dir_all(taken.join(n)).unwrap();
        }
    }
    let taken = taken.to_string_lossy().into_owned();
    let bin = d.0.join("bytes.dat");
    std::fs::write(&bin, [0xff, 0xfe, b'\n', b'1', b'\n']).unwrap();
    let bin = bin.to_string_lossy().into_owned();
    let bads: Vec<(Vec<String>, &str)> = vec![
        (run("6", &gone, &out), "the input file does not exist"),
        (run("6", &isdir, &out), "the input is a directory"),
        (run("6", &bin, &out), "the input is not text"),
        (run("6", &f, &nodir), "the output directory does not exist"),
        (run("6", &f, &f), "the output directory is a file"),
        (run("6", &f, &taken), "the output file cannot be created"),
        (run("x", &f, &out), "the precision is no number"),
        (run("", &f, &out), "the precision is empty"),
        (run("6.0", &f, &out), "the precision is no integer"),
        (card("6", "2", &gone, &out), "the cardinalities file does not exist"),
        (card("6", "2", &isdir, &out), "the cardinalities file is a directory"),
        (card("6", "2", &bin, &out), "the cardinalities file is not text"),
        (card("6", "2", &cards, &nodir), "the output directory does not exist"),
        (card("6", "2", &cards, &taken), "the output file cannot be created"),
        (card("6", "x", &cards, &out), "the number of runs is no number"),
        (card("6", "1.5", &cards, &out), "the number of runs is no integer"),
        (gen("3", "2", &nodir), "the output directory does not exist"),
        (gen("3", "2", &taken), "the output file cannot be created"),
        (gen("x", "2", &out), "the count is no number"),
        (gen("3", "x", &out), "the number of runs is no number"),
        (args(&["gen", "-s", "16", "-c", "1", "-r", "1", "-o", &out]), "there is no such size"),
        (args(&["run", "-t", "xx", "-m", "hashes", "-p", "6", "-i", &f, "-o", &out]), "there is no such type"),
        (args(&["run", "-t", ty, "-m", "xx", "-p", "6", "-i", &f, "-o", &out]), "there is no such mode"),
        (args(&["run", "-t", ty, "-m", "hashes", "-p", "6", "-o", &out]), "there is no input"),
        (args(&["run", "-t", ty, "-m", "cardinalities", "-p", "6", "-r", "1", "-o", &out]), "there are no cardinalities"),
        (args(&["run", "-t", ty, "-m", "cardinalities", "-p", "6", "-c", &cards, "-o", &out]), "there is no number of runs"),
        (args(&["-j", "x", "run", "-t", ty, "-m", "hashes", "-p", "6", "-i", &f, "-o", &out]), "the number of jobs is no number"),
    ];
    for (a, why) in bads {
        for j in ["", "1", "8"] {
            let mut a = a.clone();
            if a[0] != "-j" && !j.is_empty() {
                a.splice(0..0, [s("-j"), s(j)]);
            }
            if !refuse(ctx, &d.0, &a, why) {
                return;
            }
        }
    }
    for b in ["", "x", "-1", "1.5", "99999999999999999999999", "1 2"] {
        for at in 0..3 {
            let c = d.0.join("badcards");
            std::fs::write(&c, (0..3).map(|i| if i == at { format!("{}\n", b) } else { format!("{}\n", i) }).collect::<String>()).unwrap();
            if !refuse(ctx, &d.0, &card("6", "2", &c.to_string_lossy(), &out), &format!("line {} of the cardinalities is '{}'", at + 1, b)) {
                return;
            }
        }
    }
    for a in [run("6", &f, &out), card("6", "2", &cards, &out), card("6", "0", &cards, &out), gen("3", "2", &out), gen("0", "1", &out)] {
        if !accept(ctx, &d.0, &a) {
            return;
        }
    }
}

/// Every subset of the inputs (or runs) of a run has an obstacle, of each kind.
fn subsets(ctx: &mut Ctx, ty: &str, n: usize) {
    let d = Dir::new();
    let size = if ty == "hll" { "32" } else { "64" };
    let cards = d.0.join("cards");
    std::fs::write(&cards, "1\n5\n").unwrap();
    let cards = cards.to_string_lossy().into_owned();
    for kind in ["missing", "directory", "not text", "bad line", "output taken"] {
        for bad in 0..1usize << n {
            let o = d.sub(&format!("out{}", N.fetch_add(1, Ordering::Relaxed)));
            let mut files = vec![];
            for i in 0..n {
                let name = format!("{}-{}-{}", kind.replace(' ', "-"), bad, i);
                let f = d.0.join(&name);
                if bad >> i & 1 == 0 {
                    std::fs::write(&f, format!("{}\n{}\n", i, i + 9)).unwrap();
                } else {
                    match kind {
                        "missing" => (),
                        "directory" => std::fs::create_dir(&f).unwrap(),
                        "not text" => std::fs::write(&f, [b'1', b'\n', 0xc3, b'\n', b'1', b'\n']).unwrap(),
                        "bad line" => std::fs::write(&f, "1\n2\nthree\n").unwrap(),
                        _ => {
                            std::fs::write(&f, "1\n2\n").unwrap();
                            let f = f.to_string_lossy().into_owned();
                            for n in outputs(&d, &args(&["run", "-t", ty, "-m", "hashes", "-p", "6", "-i", &f, "-o", ""])) {
                                std::fs::create_dir(o.join(n)).unwrap();
                            }
                        },
                    }
                }
                files.push(f.to_string_lossy().into_owned());
            }
            let o = o.to_string_lossy().into_owned();
            for j in ["", "1", "2", "8"] {
                let mut a = if j.is_empty() { vec![] } else { args(&["-j", j]) };
                a.extend(args(&["run", "-t", ty, "-m", "hashes", "-p", "6", "-i"]));
                a.extend(files.iter().cloned());
                a.extend([s("-o"), o.clone()]);
                if !(if bad == 0 { accept(ctx, &d.0, &a) } else { refuse(ctx, &d.0, &a, &format!("of the {} inputs, number {:?} cannot be processed: {}", n, (0..n).filter(|i| bad >> i & 1 == 1).collect::<Vec<_>>(), kind)) }) {
                    return;
                }
            }
        }
    }
    // the output of some runs cannot be created
    let r = s(n);
    let cn = outputs(&d, &args(&["run", "-t", ty, "-m", "cardinalities", "-p", "6", "-r", &r, "-c", &cards, "-o", ""]));
    let gn = outputs(&d, &args(&["gen", "-s", size, "-c", "3", "-r", &r, "-o", ""]));
    if cn.len() != n || gn.len() != n {
        ctx.fail(format!("{} and {} output files for {} runs", cn.len(), gn.len(), n), vec![]);
        return;
    }
    for bad in 0..1usize << n {
        let o = d.sub(&format!("out{}", N.fetch_add(1, Ordering::Relaxed)));
        for i in (0..n).filter(|i| bad >> i & 1 == 1) {
            std::fs::create_dir(o.join(&cn[i])).unwrap();
            std::fs::create_dir(o.join(&gn[i])).unwrap();
        }
        let o = o.to_string_lossy().into_owned();
        for j in ["1", "4"] {
            let c = args(&["-j", j, "run", "-t", ty, "-m", "cardinalities", "-p", "6", "-r", &r, "-c", &cards, "-o", &o]);
            let g = args(&["-j", j, "gen", "-s", size, "-c", "3", "-r", &r, "-o", &o]);
            for a in [c, g] {
                if !(if bad == 0 { accept(ctx, &d.0, &a) } else { refuse(ctx, &d.0, &a, "some output files cannot be created") }) {
                    return;
                }
            }
        }
    }
}
/// k obstacles of one kind in one run, for many k: no number of failures is a success.
fn crowds(ctx: &mut Ctx, ty: &str, ks: &[usize]) {
    let d = Dir::new();
    let out = d.sub("out").to_string_lossy().into_owned();
    let nodir = d.0.join("no-such-directory").to_string_lossy().into_owned();
    let size = if ty == "hll" { "32" } else { "64" };
    let good = write(&d.0, "good", &[1, 2, 3]);
    let cards = write(&d.0, "cards", &[1, 5]);
    std::fs::write(d.0.join("b"), "x\n").unwrap();
    for &k in ks {
        let lines = write(&d.0, "good-lines", &[4]);
        std::fs::write(&lines, format!("1\n{}2\n", "x\n".repeat(k))).unwrap();
        let inputs = |names: Vec<String>, o: &str| {
            let mut a = args(&["run", "-t", ty, "-m", "hashes", "-p", "4", "-o", o, "-i"]);
            a.extend(names);
            a
        };
        let kr = s(k);
        let mut all = vec![
            (inputs(vec![s("m"); k], &out), "missing inputs"),
            (inputs(vec![s("b"); k], &out), "inputs with a bad line"),
            (inputs((0..k).map(|_| s("m")).chain([good.clone()]).collect(), &out), "missing inputs and a good one"),
            (inputs([good.clone()].into_iter().chain((0..k).map(|_| s("m"))).collect(), &out), "good input and missing ones"),
            (inputs(vec![good.clone(); k], &nodir), "inputs without an output directory"),
            (args(&["run", "-t", ty, "-m", "cardinalities", "-p", "4", "-r", &kr, "-c", &cards, "-o", &nodir]), "runs without an output directory"),
            (args(&["run", "-t", ty, "-m", "cardinalities", "-p", "4", "-r", &kr, "-c", "m", "-o", &out]), "runs without a cardinalities file"),
            (args(&["gen", "-s", size, "-c", "1", "-r", &kr, "-o", &nodir]), "generated files without a directory"),
        ];
        if k < 60_000 {
            all.push((inputs(vec![lines.clone()], &out), "bad lines"));
            all.push((args(&["run", "-t", ty, "-m", "cardinalities", "-p", "4", "-r", "1", "-c", &lines, "-o", &out]), "bad cardinalities"));
        }
        for (a, why) in all {
            for j in ["1", "4"] {
                let mut a = a.clone();
                a.splice(0..0, [s("-j"), s(j)]);
                if !refuse(ctx, &d.0, &a, &format!("{} times: {}", k, why)) {
                    return;
                }
            }
        }
    }
}

/// One bad line at given places of a long file.
fn long_file(ctx: &mut Ctx, ty: &str, lines: usize, at: &[usize]) {
    let d = Dir::new();
    let out = d.sub("out").to_string_lossy().into_owned();
    for &at in at.iter().filter(|a| **a < lines) {
        for bad in ["", "x", "12 ", "9999999999999999999999"] {
            let f = d.0.join(format!("long-{}", at));
            std::fs::write(&f, (0..lines).map(|i| if i == at { format!("{}\n", bad) } else { format!("{}\n", i) }).collect::<String>()).unwrap();
            let f = f.to_string_lossy().into_owned();
            let a = args(&["run", "-t", ty, "-m", "hashes", "-p", "6", "-i", &f, "-o", &out]);
            let c = args(&["run", "-t", ty, "-m", "cardinalities", "-p", "6", "-r", "1", "-c", &f, "-o", &out]);
            for a in [a, c] {
                if !refuse(ctx, &d.0, &a, &format!("line {} of {} is '{}'", at + 1, lines, bad)) {
                    return;
                }
            }
        }
    }
}

/// The disk is full after every number of KiB: success may be reported only if the
/// whole output is there.
fn full_disk(ctx: &mut Ctx, ty: &str, lines: usize, kib: u64) {
    let d = Dir::new();
    let bin = std::env::var("MC_EVL").expect("MC_EVL");
    let size = if ty == "hll" { 32 } else { 64 };
    let f = d.0.join("in.dat");
    std::fs::write(&f, (0..lines).map(|i| format!("{}\n", i * 40503 + 1)).collect::<String>()).unwrap();
    let f = f.to_string_lossy().into_owned();
    let cards = d.0.join("cards");
    std::fs::write(&cards, (0..lines).map(|i| format!("{}\n", i)).collect::<String>()).unwrap();
    let cards = cards.to_string_lossy().into_owned();
    let cmds = [
        args(&["run", "-t", ty, "-m", "hashes", "-p", "6", "-i", &f, "-o"]),
        args(&["run", "-t", ty, "-m", "cardinalities", "-p", "6", "-r", "2", "-c", &cards, "-o"]),
        args(&["gen", "-s", &s(size), "-c", &s(lines), "-r", "2", "-o"]),
    ];
    for (n, cmd) in cmds.iter().enumerate() {
        let mut complete = 0;
        for lim in (0..=kib).chain([100_000]) {
            beat();
            let out = d.sub(&format!("l{}-{}", n, lim));
            let mut a = cmd.clone();
            a.push(out.to_string_lossy().into_owned());
            // a write beyond the limit fails like one to a full disk
            let o = Command::new("/bin/bash")
                .env("RUST_BACKTRACE", "0")
                .args(["-c", &format!("trap '' XFSZ; ulimit -f {}; exec \"$@\"", lim), "bash", "timeout", "-k", "1", "150", &bin])
                .args(&a)
                .current_dir(&d.0)
                .output()
                .expect("bash starts");
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.evaluations += 1;
            let mut good = true;
            let mut total = 0;
            let mut files = 0;
            for e in std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()) {
                let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                total += t.len();
                files += 1;
                good &= t.lines().count() == lines && (t.is_empty() || t.ends_with('\n'));
            }
            good &= files == if n == 0 { 1 } else { 2 };
            ctx.outcome(total as f64);
            if o.status.success() && !good {
                ctx.fail(
                    format!("evl reported success but, files being limited to {} KiB, its output is incomplete ({} bytes in {} files)", lim, total, files),
                    vec![format!("ulimit -f {}; evl {}", lim, a.join(" "))],
                );
                return;
            }
            if lim == 100_000 && !(o.status.success() && good) {
                ctx.fail(format!("evl failed: {}", String::from_utf8_lossy(&o.stderr)), vec![format!("evl {}", a.join(" "))]);
                return;
            }
            complete += good as u64;
            ctx.traces += 1;
        }
        ctx.note_add("limits under which the output was complete", complete as f64);
    }
}

pub fn p22(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let both = ["", "x", "-1", "1.5", "0x10", "1 2", "1,2", "99999999999999999999999"];
    for (ty, pmax, over) in [("hll", 16, "4294967296"), ("hllp", 18, "18446744073709551616")] {
        for b in both.into_iter().chain([over]) {
            v.push(case(format!("{} line '{}' at every place", ty, b), move |c| bad_lines(c, ty, &[b], if th { 6 } else { 3 })));
        }
        v.push(case(format!("{} every subset of the options", ty), move |c| options(c, ty)));
        v.push(case(format!("{} impossible requests", ty), move |c| impossible(c, ty, pmax)));
        v.push(case(format!("{} as many obstacles as fit an exit status, and more", ty), move |c| {
            crowds(c, ty, &[1, 2, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1024]);
            if th {
                crowds(c, ty, &(1..=300).chain([768, 4096, 32_768, 65_535, 65_536, 65_537]).collect::<Vec<_>>());
            }
        }));
        for n in 2..=if th { 5 } else { 3 } {
            v.push(case(format!("{} obstacles at every subset of {} inputs or runs", ty, n), move |c| subsets(c, ty, n)));
        }
        v.push(case(format!("{} a bad line in a long file", ty), move |c| {
            long_file(c, ty, 4_000, &[0, 1, 999, 1000, 1001, 2047, 2048, 3998, 3999]);
            if th {
                long_file(c, ty, 12_000, &[4095, 4096, 8191, 8192, 9998, 9999, 10_000, 10_001, 11_998, 11_999]);
                long_file(c, ty, 70_000, &[32_767, 32_768, 65_534, 65_535, 65_536, 69_999]);
            }
        }));
        for lines in if th { vec![1usize, 60, 500, 3000, 9000] } else { vec![1, 60, 1500] } {
            v.push(case(format!("{} full disk, {} lines", ty, lines), move |c| full_disk(c, ty, lines, (lines as u64 * 12 >> 10) + 2)));
        }
    }
    v
}
