//! P10, P18: the sparse form of HyperLogLog++.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;

// ---------------------------------------------------------------- P10

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pat {
    /// evenly spread buckets
    Spread,
    /// neighbouring buckets, ascending
    Next,
    /// neighbouring buckets from the top, descending
    Down,
    /// only buckets whose bits p..25 are zero (rank stored explicitly)
    Odd,
    /// alternating the two kinds, two hashes per bucket
    Twice,
}
const PATS: [Pat; 5] = [Pat::Spread, Pat::Next, Pat::Down, Pat::Odd, Pat::Twice];

/// j-th hash of the pattern; None when exhausted.
fn pat(p: u8, q: Pat, j: u64) -> Option<u64> {
    let low = j.wrapping_mul(0x9E3779B97F4A7C15) & ((1 << 39) - 1);
    match q {
        Pat::Spread => Some(((j + 1).reverse_bits() >> 39 << 39) | low),
        Pat::Next => (j < 1 << 25).then(|| j << 39 | low),
        Pat::Down => (j < 1 << 25).then(|| (((1 << 25) - 1 - j) << 39) | low),
        Pat::Odd => {
            let i = j.reverse_bits() >> (64 - p as u32);
            (j < 1 << p).then(|| i << (64 - p as u32) | 1 << (j % 39))
        }
        Pat::Twice => {
            let i = ((j / 4 + 1).reverse_bits() >> 39) & !((1 << (25 - p as u32)) - 1) | ((j / 2) & 1);
            Some(i << 39 | 1 << ((j * 7) % 39))
        }
    }
}

/// Grow a sketch one hash at a time and count at each step; `every`: on the sketch
/// itself, otherwise on a copy (so that buffered values are flushed only naturally).
fn grow(ctx: &mut Ctx, p: u8, q: Pat, every: bool, stride: usize) {
    let m = 1usize << p;
    let t = THRESH[(p - 4) as usize];
    let mut s = Plus::new_(p);
    let mut seen = std::collections::HashSet::new();
    let mut regs = vec![0u8; m];
    let mut hist = Hist::empty(p);
    let mut j = 0;
    let end = (m / 8).max(2) + (m / 3).min(600) + 12;
    let _ = t;
    let mut n = 0usize;
    while let Some(h) = pat(p, q, j) {
        j += 1;
        n += 1;
        s.ins(h);
        ctx.transitions += 1;
        seen.insert(h >> 39);
        let (i, r) = place(Kind::Plus, p, h);
        if r > regs[i] {
            hist.shift(regs[i], r);
            regs[i] = r;
        }
        let k = seen.len();
        if n > end {
            break;
        }
        if n > 64 && n % stride != 0 && n != m / 8 && n != m / 8 + 1 {
            continue;
        }
        beat();
        let got = if every { s.cnt() } else { s.est() };
        let mut want = vec![plus_sparse(k)];
        // with at most 2^p/8 values it must still be sparse
        if n > m / 8 {
            want.extend(plus_dense(p, &hist));
        }
        ctx.states += 1;
        ctx.traces += 1;
        let what = || (format!("{} hashes in {} distinct buckets", n, k), vec![format!("HyperLogLogPlus p={} pattern {:?} (harness/src/checks/sparse.rs) counted {}", p, q, if every { "after every insert" } else { "on copies" })]);
        if !ctx.expect(got, &want, what) {
            return;
        }
        if n <= m / 8 && k <= 8000 && got.trunc() as usize != k {
            ctx.fail(format!("{} distinct buckets truncate to {}", k, got.trunc()), what().1);
            return;
        }
    }
}

/// Hashes hitting the same buckets more than once, in every combination, with every
/// choice of moments to count.
fn multihit(ctx: &mut Ctx, p: u8, th: bool) {
    let sub = 25 - p as u32;
    // bucket a: explicit rank (several codes); its codes are interleaved, in the
    // numeric order of the published encoding, with codes of buckets 64*a + z
    let a = 1u64 << sub;
    let odd = |i: u64, z: u32, tail: u64| i << 39 | if z <= 39 { 1 << (39 - z) | (tail & ((1u64 << (39 - z)) - 1)) } else { 0 };
    let even = |i: u64, low: u64| i << 39 | low;
    let mut items: Vec<u64> = vec![
        odd(a, 1, 0),
        odd(a, 3, 0),
        even(64 * a + 2, 5),
        odd(a, 40, 0),
        even(64 * a + 2, 77),
        odd(0, 2, 1),
        even(1, 0),
        odd(0, 2, 0),
        odd(0, 5, 3),
        even(64 * a + 3, 1),
        odd(2 * a, 7, 9),
        even((1 << 25) - 1, !0 >> 25),
    ];
    // an "even" item must really have nonzero bits between p and 25
    items.retain(|&h| (h >> 39) < 1 << 25);
    let n = if th { 12 } else { 9 }.min(items.len());
    items.truncate(n);
    for set in 1u32..1 << n {
        beat();
        let hs: Vec<u64> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| items[i]).collect();
        let k = buckets(hs.iter().copied());
        let mut want = vec![plus_sparse(k)];
        if hs.len() > (1 << p) / 8 {
            want = est_set(Kind::Plus, p, &hs);
        }
        for order in 0..3 {
            let mut o = hs.clone();
            match order {
                0 => {}
                1 => o.reverse(),
                _ => o.sort_unstable(),
            }
            // count before the end at one position, at all, or at none
            for flush in 0..=o.len() + 1 {
                let mut s = Plus::new_(p);
                for (i, &h) in o.iter().enumerate() {
                    s.ins(h);
                    if flush == i || flush == o.len() + 1 {
                        s.cnt();
                    }
                }
                ctx.transitions += o.len() as u64;
                ctx.states += 1;
                ctx.traces += 1;
                if !ctx.expect(s.cnt(), &want, || (format!("{} hashes in {} buckets", o.len(), k), vec![format!("HyperLogLogPlus p={} insert {:x?}, count after index {}", p, o, flush)])) {
                    return;
                }
            }
        }
    }
}

/// Hashes of special halves in groups that certainly stay sparse, ascending, descending
/// and scattered, counted after every insert or now and then.
fn special_groups(ctx: &mut Ctx, p: u8, hs: &[u64]) {
    for group in hs.chunks(((1usize << p) / 8).max(1)) {
        for order in 0..3 {
            let mut o = group.to_vec();
            match order {
                0 => {}
                1 => o.reverse(),
                _ => o.sort_by_key(|h| h.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)),
            }
            for every in [1usize, 61] {
                beat();
                let mut s = Plus::new_(p);
                let mut seen = std::collections::HashSet::new();
                for (n, &h) in o.iter().enumerate() {
                    s.ins(h);
                    ctx.transitions += 1;
                    seen.insert(h >> 39);
                    if n % every != 0 && n + 1 < o.len() {
                        continue;
                    }
                    if every == 1 && o.len() > 4096 && n % 16 != 0 {
                        continue;
                    }
                    ctx.states += 1;
                    ctx.traces += 1;
                    if !ctx.expect(s.cnt(), &[plus_sparse(seen.len())], || {
                        (format!("{} hashes in {} distinct buckets, the last one {:#018x}", n + 1, seen.len(), h), vec![format!("HyperLogLogPlus p={} the first {} of {:x?} order {} (special halves, harness/src/checks/routes.rs), counted every {}", p, n + 1, &group[..group.len().min(8)], order, every)])
                    }) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn p10(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in (4..=18u8).rev() {
        for i in 0..2usize {
            v.push(case(format!("p={} hashes of special halves, part {}", p, i), move |c| {
                let hs = super::routes::special(true);
                let part: Vec<u64> = hs.into_iter().skip(i).step_by(2).collect();
                special_groups(c, p, &part)
            }));
        }
    }
    for p in (4..=18u8).rev() {
        for q in PATS {
            let stride = match (p, th) {
                (..=13, _) => 1,
                (14..=15, false) => 4,
                (_, false) => 32,
                (14..=16, true) => 1,
                (_, true) => 2,
            };
            v.push(case(format!("p={} {:?} counted in place", p, q), move |c| grow(c, p, q, true, stride)));
            v.push(case(format!("p={} {:?} counted on copies", p, q), move |c| grow(c, p, q, false, stride)));
        }
        v.push(case(format!("p={} several hashes per bucket", p), move |c| multihit(c, p, th)));
    }
    v
}

// ---------------------------------------------------------------- P18

/// The smallest valid code not below `c`.
fn valid(p: u8, c: u64) -> Option<u64> {
    let mut best: Option<u64> = None;
    // even
    let mut e = c + (c & 1);
    for _ in 0..3 {
        if e < 1 << 26 && uncode(p, e as u32, 0).is_some() {
            best = Some(e);
            break;
        }
        e += 2;
    }
    let mut o = c | 1;
    if uncode(p, o.min(u32::MAX as u64) as u32, 0).is_none() || o > u32::MAX as u64 {
        let step = 1u64 << (25 - p as u32);
        let mut i = o >> 7;
        let z = (o >> 1) & 63;
        if i % step != 0 || z > 40 {
            i = (i / step + 1) * step;
            o = i << 7 | 3;
        } else {
            o = i << 7 | z.max(1) << 1 | 1;
        }
    }
    if o <= u32::MAX as u64 && best.map_or(true, |b| o < b) {
        best = Some(o);
    }
    best
}

const STARTS: [u64; 7] = [0, 126, 128, 16384, 1 << 21, (1 << 26) - 2, 1 << 28];
const GAPS: [u64; 21] = [
    1,
    2,
    126,
    127,
    128,
    130,
    (1 << 14) - 2,
    (1 << 14) - 1,
    1 << 14,
    (1 << 14) + 2,
    (1 << 21) - 2,
    (1 << 21) - 1,
    1 << 21,
    (1 << 21) + 2,
    (1 << 28) - 2,
    (1 << 28) - 1,
    1 << 28,
    (1 << 28) + 2,
    1 << 29,
    1 << 30,
    3 << 30,
];

struct Probe {
    p: u8,
    base: Plus,
    bregs: Vec<u8>,
    bhist: Hist,
}
impl Probe {
    fn new(p: u8) -> Self {
        let n = dense_seed_regs(p);
        let ids: Vec<usize> = (0..n).collect();
        let mut hs = dense_seed(p, &ids);
        // every register set, so that the estimate is the raw one and reveals each
        hs.extend((0..1 << p).map(|i| mk(Kind::Plus, p, i, 1, 0)));
        let bregs = regs_of(Kind::Plus, p, hs.iter().copied());
        Probe { p, base: build(p, &hs), bhist: Hist::of_regs(&bregs), bregs }
    }
    /// The sketch must behave as one holding exactly `hs`.
    fn holds(&self, ctx: &mut Ctx, s: &Plus, hs: &[u64], merge: bool, how: &dyn Fn() -> String) -> bool {
        let p = self.p;
        let k = buckets(hs.iter().copied());
        let may_dense = hs.len() > (1 << p) / 8;
        let mut want = vec![plus_sparse(k)];
        if may_dense {
            want = est_set(Kind::Plus, p, hs);
        }
        let tr = |m: String| (m, vec![format!("HyperLogLogPlus p={} {}", p, how())]);
        if !ctx.expect(s.est(), &want, || tr(format!("{} hashes in {} buckets", hs.len(), k))) {
            return false;
        }
        // every retained value again: nothing changes
        let mut again = s.clone();
        let first = again.cnt();
        for (n, &h) in hs.iter().enumerate() {
            again.ins(h);
            if hs.len() <= 8 || n % 97 == 0 || n + 1 == hs.len() {
                ctx.transitions += 1;
                if !ctx.expect(again.cnt(), &[first], || tr(format!("inserting {:#x} again", h))) {
                    return false;
                }
            }
        }
        // a value in an unseen bucket
        if !may_dense || hs.len() < 64 {
            let b = |x: u64| x << 39 | 12345;
            let last = hs.iter().map(|h| h >> 39).max().unwrap_or(0);
            for nb in [last ^ 1, last ^ 64, (last + 128) % (1 << 25), 0, (1 << 25) - 1] {
                if hs.iter().any(|h| h >> 39 == nb) {
                    continue;
                }
                let mut t = s.clone();
                t.ins(b(nb));
                let mut hs2 = hs.to_vec();
                hs2.push(b(nb));
                let mut want = vec![plus_sparse(k + 1)];
                if hs2.len() > (1 << p) / 8 {
                    want = est_set(Kind::Plus, p, &hs2);
                }
                ctx.transitions += 1;
                if !ctx.expect(t.cnt(), &want, || tr(format!("one more value, in the unseen bucket {:#x}", nb))) {
                    return false;
                }
            }
        }
        // the registers it stands for
        if merge {
            let mut h = self.bhist.clone();
            let regs = regs_of(Kind::Plus, p, hs.iter().copied());
            for (i, &r) in regs.iter().enumerate() {
                if r > self.bregs[i] {
                    h.shift(self.bregs[i], r);
                }
            }
            let mut b = self.base.clone();
            b.mrg(s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            ctx.transitions += 1;
            if !ctx.expect(b.cnt(), &plus_dense(p, &h), || tr("merged into a dense sketch with all registers at rank 1".into())) {
                return false;
            }
        }
        ctx.states += 1;
        ctx.traces += 1;
        true
    }
}

/// All code sequences start + gaps, in several orders, with all flush patterns.
fn gaps(ctx: &mut Ctx, p: u8, start: u64, depth: usize, merge: bool) {
    let pr = Probe::new(p);
    let Some(c0) = valid(p, start) else { return };
    let mut codes = vec![c0];
    gap_rec(ctx, &pr, &mut codes, depth, merge);
}
fn gap_rec(ctx: &mut Ctx, pr: &Probe, codes: &mut Vec<u64>, depth: usize, merge: bool) -> bool {
    let p = pr.p;
    let hs: Vec<u64> = codes.iter().map(|&c| uncode(p, c as u32, 0x2aaaaaaaaa).unwrap()).collect();
    let n = hs.len();
    beat();
    for order in 0..3 {
        let mut o = hs.clone();
        match order {
            0 => {}
            1 => o.reverse(),
            _ => o.rotate_left(n / 2),
        }
        if order > 0 && n == 1 || order == 2 && n == 2 {
            continue;
        }
        for flush in 0..1u32 << n {
            let mut s = Plus::new_(p);
            for (i, &h) in o.iter().enumerate() {
                s.ins(h);
                if flush >> i & 1 == 1 {
                    s.cnt();
                }
            }
            ctx.transitions += n as u64;
            // the full probing for the first and the last flush pattern
            let full = flush == 0 || flush + 1 == 1 << n;
            if full {
                if !pr.holds(ctx, &s, &hs, merge && order == 0, &|| format!("insert {:x?} (codes {:?}), count() after mask {:b}", o, codes, flush)) {
                    return false;
                }
            } else {
                let mut want = vec![plus_sparse(buckets(hs.iter().copied()))];
                if hs.len() > (1 << p) / 8 {
                    want = est_set(Kind::Plus, p, &hs);
                }
                if !ctx.expect(s.cnt(), &want, || ("sparse estimate".into(), vec![format!("p={} insert {:x?} (codes {:?}), count() after mask {:b}", p, o, codes, flush)])) {
                    return false;
                }
            }
        }
    }
    if depth > 0 {
        let last = *codes.last().unwrap();
        let mut tried = vec![];
        for g in GAPS {
            if let Some(c) = valid(p, last + g) {
                if tried.contains(&c) {
                    continue;
                }
                tried.push(c);
                codes.push(c);
                if !gap_rec(ctx, pr, codes, depth - 1, merge) {
                    return false;
                }
                codes.pop();
            }
        }
    }
    true
}

#[derive(Clone, Copy, Debug)]
enum Order {
    Asc,
    Desc,
    Ends,
    Reversed,
}

/// Large stores: a code pattern filled up to and over the switch.
fn large(ctx: &mut Ctx, p: u8, gap: u64, order: Order, flush: usize, checks: usize) {
    let pr = Probe::new(p);
    let mut codes = vec![];
    let mut c = valid(p, gap / 2).unwrap();
    let limit = dense_bytes(p) * 3 / 2 + 40;
    let mut g = gap;
    loop {
        codes.push(c);
        if codes.len() >= limit {
            break;
        }
        // gaps around the given one
        g = if g > gap { gap.max(2) - 1 } else { gap + 1 };
        match valid(p, c + g) {
            Some(n) => c = n,
            None => break,
        }
    }
    let n = codes.len();
    let seq: Vec<u64> = match order {
        Order::Asc => codes.clone(),
        Order::Desc => codes.iter().rev().copied().collect(),
        Order::Ends => (0..n).map(|i| if i % 2 == 0 { codes[i / 2] } else { codes[n - 1 - i / 2] }).collect(),
        Order::Reversed => {
            let b = (n.max(2) - 1).ilog2() + 1;
            (0..1usize << b).map(|i| i.reverse_bits() >> (usize::BITS - b)).filter(|&i| i < n).map(|i| codes[i]).collect()
        }
    };
    let hs: Vec<u64> = seq.iter().map(|&c| uncode(p, c as u32, 0x2aaaaaaaaa).unwrap()).collect();
    let mut s = Plus::new_(p);
    let step = (n / checks).max(1);
    for i in 0..n {
        s.ins(hs[i]);
        ctx.transitions += 1;
        if flush > 0 && i % flush == 0 {
            s.cnt();
        }
        if i % step == step - 1 || i + 1 == n {
            beat();
            if !pr.holds(ctx, &s, &hs[..=i], true, &|| format!("the first {} of {} codes about {} apart, order {:?}, count() every {}", i + 1, n, gap, order, flush)) {
                return;
            }
        }
    }
}

pub fn p18(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in (4..=18u8).rev() {
        let depth = match (p, th) {
            (6 | 8 | 9, false) => 3,
            (..=12, false) => 2,
            (_, false) => 1,
            (..=10, true) => 3,
            (11..=14, true) => 3,
            (_, true) => 2,
        };
        for st in STARTS {
            v.push(case(format!("p={} code gaps from {} depth {}", p, st, depth), move |c| gaps(c, p, st, depth, p <= 10)));
        }
        let gs: &[u64] = if p <= 15 || th { &[2, 100, 127, 129, 5000, 16385, 40000, 1 << 21] } else { &[2, 128, 16385] };
        for &g in gs {
            for o in [Order::Asc, Order::Desc, Order::Ends, Order::Reversed] {
                for f in [0usize, 1, 7, 333] {
                    if (f == 1 || f == 7) && p > if th { 14 } else { 12 } {
                        continue;
                    }
                    if !th && p > 15 && f == 333 {
                        continue;
                    }
                    let checks = if p <= 12 { 40 } else { 6 };
                    v.push(case(format!("p={} large store, gap {}, {:?}, count every {}", p, g, o, f), move |c| large(c, p, g, o, f, checks)));
                }
            }
        }
    }
    v
}
