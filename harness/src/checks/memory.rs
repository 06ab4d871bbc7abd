//! P15: heap and serialized size over repeated cycles of operations.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use crate::{LIVE, PEAK};

/// Allowed live heap bytes of one sketch.
pub fn bound(p: u8) -> i64 {
    8192 + 16 * (1i64 << p)
}
/// Allowed length of its JSON text.
pub fn json_bound(p: u8) -> usize {
    // registers as decimal numbers, or sparse bytes as decimal numbers
    4096 + 8 * (1usize << p)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New,
    Dup,
    Count,
    MergeSparse,
    MergeDense,
    MergeSelf,
    Clone,
    Serde,
}
use Op::*;
const OPS: [Op; 8] = [New, Dup, Count, MergeSparse, MergeDense, MergeSelf, Clone, Serde];

/// Streams of new values.
#[derive(Clone, Copy, Debug)]
enum Stream {
    /// all different buckets, spread
    Spread,
    /// neighbouring buckets: the most values per encoded byte
    Next,
    /// one bucket only, all ranks
    One,
    /// buckets with an explicit rank
    Odd,
}
const STREAMS: [Stream; 4] = [Stream::Spread, Stream::Next, Stream::One, Stream::Odd];
fn value(k: Kind, p: u8, s: Stream, j: u64) -> u64 {
    let low = j.wrapping_mul(0x9E3779B97F4A7C15) >> 25;
    let h = match s {
        Stream::Spread => (j + 1).reverse_bits() ^ low,
        Stream::Next => (j & ((1 << 25) - 1)) << 39 | low & ((1 << 39) - 1),
        Stream::One => 1 << (j % 39) | (j & 0xff),
        Stream::Odd => (j.reverse_bits() >> (64 - p as u32)) << (64 - p as u32) | 1 << (j % 39),
    };
    if k == Kind::Pf {
        h >> 32 | h << 32
    } else {
        h
    }
}

/// Repeat a word of operations until at least `total` operations were done; at
/// every step the live heap of the sketch stays within the bound.
fn lasso<T: Sk>(ctx: &mut Ctx, p: u8, word: &[Op], st: Stream, total: u64) -> bool {
    let k = T::KIND;
    let sp: T = build(p, &[mk(k, p, 2, 3, 9), mk(k, p, 5, 2, 9)]);
    let de: T = build(p, &background(k, p, Bg::Just));
    let before = LIVE.with(|l| l.get());
    let mut s = T::new_(p);
    let mut j = 0u64;
    let mut n = 0u64;
    let mut worst = 0;
    // heavy operations count for more
    let m = 1u64 << p;
    while n < total {
        for &op in word {
            n += match op {
                New => {
                    s.ins(value(k, p, st, j));
                    j += 1;
                    1
                }
                Dup => {
                    s.ins(value(k, p, st, j / 2));
                    1
                }
                Count => {
                    s.cnt();
                    1 + m / 256
                }
                MergeSparse => {
                    s.mrg(&sp).unwrap();
                    1 + m / 64
                }
                MergeDense => {
                    s.mrg(&de).unwrap();
                    1 + m / 64
                }
                MergeSelf => {
                    let c = s.clone();
                    s.mrg(&c).unwrap();
                    1 + m / 64
                }
                Clone => {
                    s = s.clone();
                    1 + m / 256
                }
                Serde => {
                    if n % 3 == 0 {
                        s = s.json();
                        1 + m / 4
                    } else {
                        s = s.cbor();
                        1 + m / 16
                    }
                }
            };
            ctx.transitions += 1;
            let live = LIVE.with(|l| l.get()) - before;
            worst = worst.max(live);
            if live > bound(p) {
                ctx.fail(
                    format!("{} p={} holds {} heap bytes after {} operations, more than {} + {}*2^p = {}", T::TY, p, live, n, 8192, 16, bound(p)),
                    vec![format!("repeat {:?}, new values from stream {:?} (harness/src/checks/memory.rs)", word, st)],
                );
                return false;
            }
        }
        beat();
    }
    ctx.states += 1;
    ctx.traces += 1;
    ctx.evaluations += 1;
    ctx.note_max(&format!("live bytes of {} p={:02} per register", T::TY, p), ((worst - 1024).max(0)) as f64 / m as f64);
    let len = s.json_len();
    ctx.evaluations += 1;
    ctx.outcome(len as f64);
    ctx.note_max(&format!("serialized bytes of {} per register, p>=8", T::TY), if p >= 8 { len as f64 / m as f64 } else { 0.0 });
    if len > json_bound(p) {
        ctx.fail(format!("{} p={} serializes to {} bytes after {} operations (bound {})", T::TY, p, len, n, json_bound(p)), vec![format!("repeat {:?}, stream {:?}", word, st)]);
        return false;
    }
    true
}

fn words(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &[Op]) -> bool, first: Op, depth: usize) {
    fn rec(ctx: &mut Ctx, w: &mut Vec<Op>, depth: usize, f: &mut dyn FnMut(&mut Ctx, &[Op]) -> bool) -> bool {
        if !f(ctx, w) {
            return false;
        }
        if w.len() < depth {
            for op in OPS {
                w.push(op);
                if !rec(ctx, w, depth, f) {
                    return false;
                }
                w.pop();
            }
        }
        true
    }
    rec(ctx, &mut vec![first], depth, f);
}

/// Long streams; the largest merges; the peak of a single operation too.
fn bulk<T: Sk>(ctx: &mut Ctx, p: u8, st: Stream, total: u64) {
    let k = T::KIND;
    let before = LIVE.with(|l| l.get());
    let mut s = T::new_(p);
    let mut worst = 0;
    for j in 0..total {
        s.ins(value(k, p, st, j));
        if j & 1023 == 0 {
            beat();
        }
        let live = LIVE.with(|l| l.get()) - before;
        worst = worst.max(live);
        if live > bound(p) {
            ctx.fail(format!("{} p={} holds {} heap bytes after {} inserts (bound {})", T::TY, p, live, j + 1, bound(p)), vec![format!("stream {:?}", st)]);
            return;
        }
    }
    ctx.transitions += total;
    ctx.states += 1;
    ctx.traces += 1;
    ctx.evaluations += 1;
    ctx.outcome(worst as f64);
    ctx.note_max(&format!("live bytes of {} p={:02} per register", T::TY, p), ((worst - 1024).max(0)) as f64 / (1u64 << p) as f64);
    let _ = s.cnt();
    let len = s.json_len();
    if len > json_bound(p) {
        ctx.fail(format!("{} p={} serializes to {} bytes after {} inserts (bound {})", T::TY, p, len, total, json_bound(p)), vec![format!("stream {:?}", st)]);
    }
}

/// A target that is merged with ever more different sparse sketches.
fn merges<T: Sk>(ctx: &mut Ctx, p: u8, st: Stream, per: u64, rounds: u64) {
    let k = T::KIND;
    let mut j = 0;
    let before0 = LIVE.with(|l| l.get());
    let mut s = T::new_(p);
    for r in 0..rounds {
        beat();
        let t0 = LIVE.with(|l| l.get());
        let mut o = T::new_(p);
        for _ in 0..per {
            o.ins(value(k, p, st, j));
            j += 1;
        }
        let t1 = LIVE.with(|l| l.get());
        PEAK.with(|x| x.set(t1));
        s.mrg(&o).unwrap();
        let peak = PEAK.with(|x| x.get()) - t1;
        drop(o);
        let _ = t0;
        let live = LIVE.with(|l| l.get()) - before0;
        ctx.transitions += 1;
        ctx.evaluations += 1;
        ctx.outcome(live as f64);
        if live > bound(p) || peak > 2 * bound(p) {
            ctx.fail(format!("{} p={} holds {} heap bytes (plus {} during the merge) after {} merges of {} values each (bound {})", T::TY, p, live, peak, r + 1, per, bound(p)), vec![format!("stream {:?}", st)]);
            return;
        }
    }
    ctx.states += 1;
    ctx.traces += 1;
}

fn all<T: Sk>(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in (4..=T::PMAX).rev() {
        for st in STREAMS {
            let total = (1u64 << p) * if th { 40 } else { 6 } + if th { 2_000_000 } else { 100_000 };
            v.push(case(format!("{:?} p={} stream {:?}", T::KIND, p, st), move |c| bulk::<T>(c, p, st, total)));
            for per in [1u64, 7, 1u64 << p >> 3, 1u64 << p] {
                let rounds = ((if th { 1u64 << 22 } else { 1 << 19 }) / per.max(16)).clamp(4, 4000).min((1 << 28 >> p) as u64);
                v.push(case(format!("{:?} p={} merging {:?} {} at a time", T::KIND, p, st, per), move |c| merges::<T>(c, p, st, per, rounds)));
            }
            let depth = match (p, th) {
                (4..=7, false) => 3,
                (8..=10, false) => 2,
                (_, false) => 1,
                (4..=7, true) => 4,
                (8..=10, true) => 3,
                (_, true) => 2,
            };
            for op in OPS {
                let total = match p {
                    4..=7 => 30 * (1u64 << p) + 1000,
                    8..=10 => 30 * (1u64 << p),
                    11..=14 => 10 * (1u64 << p),
                    _ => 2 * (1u64 << p),
                };
                v.push(case(format!("{:?} p={} cycles beginning with {:?}, stream {:?}, depth {}", T::KIND, p, op, st, depth), move |c| {
                    let mut f = |c: &mut Ctx, w: &[Op]| {
                        // a word is a cycle; words without new values say nothing new
                        w.is_empty() || (!w.contains(&New) && w.len() > 2) || lasso::<T>(c, p, w, st, total)
                    };
                    words(c, &mut f, op, depth)
                }));
            }
        }
    }
    v
}
pub fn p15(tier: Tier) -> Vec<Case> {
    let mut v = all::<Plus>(tier);
    v.extend(all::<Pf>(tier));
    v
}
