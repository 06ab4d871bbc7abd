//! P06, P07: which register a hash reaches, by every route.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;

const TAILS: [u64; 2] = [0, !0];

/// Expected estimates after setting `idx` in `base` registers to max(old, rank).
fn with(kind: Kind, p: u8, base: &Hist, old: u8, rank: u8) -> Vec<f64> {
    let mut h = base.clone();
    if rank > old {
        h.shift(old, rank);
    }
    dense(kind, p, &h)
}

/// A dense sketch in which every register but `idx` has rank `others` (0: none);
/// `idx` itself is 0, except where forcing the dense form takes it to `floor`.
/// Returns the sketch and the register contents.
fn isolated<T: Sk>(p: u8, idx: usize, others: u32, seed_in_idx: bool) -> (T, Vec<u8>) {
    let k = T::KIND;
    let m = 1usize << p;
    let mut hs: Vec<u64> = vec![];
    if k == Kind::Plus {
        let allowed: Vec<usize> = if seed_in_idx {
            (0..m).map(|i| (i + idx) % m).collect()
        } else {
            (1..m).map(|i| (i + idx) % m).collect()
        };
        hs.extend(dense_seed(p, &allowed));
    }
    if others > 0 {
        for i in 0..m {
            if i != idx {
                hs.push(mk(k, p, i, others, 0));
            }
        }
    }
    let regs = regs_of(k, p, hs.iter().copied());
    (build(p, &hs), regs)
}

/// The routes by which a hash can get into a dense sketch.
const ROUTES: [&str; 7] = [
    "insert into a dense sketch",
    "insert into a fresh sketch, merge that into a dense one",
    "insert into a fresh sketch, count it, merge it into a dense one",
    "insert into a fresh sketch, merge a dense one into it",
    "insert into a fresh sketch, count it, merge a dense one into it",
    "insert into a copy of the dense sketch, merge that into the dense one",
    "insert into a fresh sketch, merge that into a fresh one, merge a dense one into it",
];
fn route<T: Sk>(r: usize, p: u8, base: &T, hs: &[u64]) -> T {
    let ok = |r: Result<(), hyperloglogplus::HyperLogLogError>| r.unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
    let fresh = || -> T { build(p, hs) };
    match r {
        0 => {
            let mut b = base.clone();
            for &h in hs {
                b.ins(h)
            }
            b
        }
        1 => {
            let f = fresh();
            let mut b = base.clone();
            ok(b.mrg(&f));
            b
        }
        2 => {
            let mut f = fresh();
            f.cnt();
            let mut b = base.clone();
            ok(b.mrg(&f));
            b
        }
        3 => {
            let mut f = fresh();
            ok(f.mrg(base));
            f
        }
        4 => {
            let mut f = fresh();
            f.cnt();
            ok(f.mrg(base));
            f
        }
        5 => {
            let mut f = base.clone();
            for &h in hs {
                f.ins(h)
            }
            let mut b = base.clone();
            ok(b.mrg(&f));
            b
        }
        _ => {
            let f = fresh();
            let mut g = T::new_(p);
            ok(g.mrg(&f));
            ok(g.mrg(base));
            g
        }
    }
}

/// Every register x every rank x every route, the register isolated by taking all
/// others (a) to the maximum rank and (b) to rank 2.
fn singles<T: Sk>(ctx: &mut Ctx, p: u8, idxs: Vec<usize>, routes: &[usize]) {
    let k = T::KIND;
    let r = max_rank(k, p);
    for idx in idxs {
        for others in [r, 2, 0] {
            beat();
            if others == 0 && p > 8 && k == Kind::Plus {
                continue;
            }
            let (base, regs) = isolated::<T>(p, idx, others, false);
            let hist = Hist::of_regs(&regs);
            ctx.states += 1;
            for rank in 1..=r {
                for (ti, &tail) in TAILS.iter().enumerate() {
                    if ti == 1 && rank >= r {
                        continue;
                    }
                    let mut h = mk(k, p, idx, rank, tail);
                    if k == Kind::Pf && ti == 1 {
                        h |= 0xffff_ffff_0000_0000;
                    }
                    let want = with(k, p, &hist, regs[idx], rank as u8);
                    for &rt in routes {
                        let got = route(rt, p, &base, &[h]).cnt();
                        ctx.transitions += 1;
                        ctx.traces += 1;
                        if !ctx.expect(got, &want, || {
                            (format!("hash {:#x} (register {}, rank {}), route '{}'", h, idx, rank, ROUTES[rt]), vec![format!("p={} all other registers at rank {}", p, others)])
                        }) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Two hashes for the same register, all pairs of ranks, all routes for the pair,
/// at one word's worth of register positions.
fn pairs<T: Sk>(ctx: &mut Ctx, p: u8, idxs: Vec<usize>, routes: &[usize], step: u32) {
    let k = T::KIND;
    let r = max_rank(k, p);
    for idx in idxs {
        let (base, regs) = isolated::<T>(p, idx, r, false);
        let hist = Hist::of_regs(&regs);
        ctx.states += 1;
        for r1 in (1..=r).step_by(step as usize) {
            beat();
            for r2 in 1..=r {
                let want = with(k, p, &hist, regs[idx], r1.max(r2) as u8);
                let hs = [mk(k, p, idx, r1, 0), mk(k, p, idx, r2, !0)];
                for &rt in routes {
                    let got = route(rt, p, &base, &hs).cnt();
                    ctx.transitions += 2;
                    ctx.traces += 1;
                    if !ctx.expect(got, &want, || {
                        (format!("two hashes of register {} with ranks {} then {}, route '{}'", idx, r1, r2, ROUTES[rt]), vec![format!("p={} hashes {:#x} {:#x}, other registers at rank {}", p, hs[0], hs[1], r)])
                    }) {
                        return;
                    }
                }
            }
        }
    }
}

/// All registers at once: register i gets rank r + bit j of i. One wrong register
/// changes the estimate far beyond rounding.
fn batch<T: Sk>(ctx: &mut Ctx, p: u8, ranks: Vec<u32>, bits: Vec<u32>) {
    let k = T::KIND;
    let m = 1usize << p;
    let rmax = max_rank(k, p);
    let all: Vec<usize> = (0..m).collect();
    // dense base with every register at rank 1
    let base: T = {
        let mut hs: Vec<u64> = if k == Kind::Plus { dense_seed(p, &all) } else { vec![] };
        hs.extend((0..m).map(|i| mk(k, p, i, 1, 0)));
        build(p, &hs)
    };
    for &r in &ranks {
        for &j in &bits {
            let f = |i: usize| -> u32 { (r + ((i >> j) & 1) as u32).min(rmax) };
            let tail = if (r + j) % 2 == 0 { 0 } else { !0u64 };
            let hs: Vec<u64> = (0..m).map(|i| mk(k, p, i, f(i), tail)).collect();
            let regs: Vec<u8> = (0..m).map(|i| f(i) as u8).collect();
            let hist = Hist::of_regs(&regs);
            let mut want = dense(k, p, &hist);
            ctx.states += 1;
            let mut routes: Vec<(&str, T)> = vec![];
            beat();
            // ascending and descending, from empty
            let a: T = build(p, &hs);
            if k == Kind::Plus && m <= dense_bytes(p) {
                want.push(plus_sparse(m));
            }
            routes.push(("inserted in ascending order into a fresh sketch", a.clone()));
            if k == Kind::Plus {
                let mut d = T::new_(p);
                for &h in hs.iter().rev() {
                    d.ins(h)
                }
                routes.push(("inserted in descending order into a fresh sketch", d));
                beat();
            }
            let mut b = base.clone();
            for &h in &hs {
                b.ins(h)
            }
            routes.push(("inserted into a dense sketch with all registers at rank 1", b));
            beat();
            // sparse chunks merged into the dense base
            let mut b = base.clone();
            for (n, ch) in hs.chunks((m / 6).max(1)).enumerate() {
                let mut s: T = build(p, ch);
                if n % 2 == 1 {
                    s.cnt();
                }
                b.mrg(&s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
                beat();
            }
            routes.push(("merged in six sparse chunks into a dense sketch", b));
            let mut b = T::new_(p);
            b.ins(hs[m / 3]);
            b.mrg(&a).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            routes.push(("merged as a whole into a nearly empty sketch", b));
            for (name, mut s) in routes {
                ctx.transitions += m as u64;
                ctx.traces += 1;
                let got = s.cnt();
                // the maximum-rank pattern may tie with the sparse value only while sparse
                if !ctx.expect(got, &want, || {
                    (format!("register i at rank {} + bit {} of i, {}", r, j, name), vec![format!("p={} all {} registers", p, m)])
                }) {
                    return;
                }
            }
        }
    }
}

/// Every 32-bit hash: all members of a (register range, rank) class inserted one by
/// one; the estimate must be the class's.
fn all32(ctx: &mut Ctx, p: u8, lo: usize, hi: usize) {
    let k = Kind::Pf;
    let r = max_rank(k, p);
    for idx in lo..hi {
        let (base, regs) = isolated::<Pf>(p, idx, r, false);
        let hist = Hist::of_regs(&regs);
        let mut s = base.clone();
        ctx.states += 1;
        for rank in 1..=r {
            beat();
            let first = mk(k, p, idx, rank, 0);
            let n = if rank == r { 1u64 } else { 1u64 << (32 - p as u32 - rank) };
            let want = with(k, p, &hist, regs[idx], rank as u8);
            for t in 0..n {
                s.ins(first + t);
            }
            ctx.transitions += n;
            ctx.traces += 1;
            let got = s.est();
            if !ctx.expect(got, &want, || {
                (format!("all hashes of register {} up to rank {}", idx, rank), vec![format!("p={} hashes {:#x}..+{}", p, first, n)])
            }) {
                return;
            }
        }
    }
}

/// Words a hash may be put together from: everything a shortcut could single out.
fn words32(rich: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, !0, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0x5555_5555, 0xaaaa_aaaa, 0xffff, 0xffff_0000, 0xff, 0xdead_beef, 0x1234_5678];
    if rich {
        for b in 0..32 {
            v.extend([1u64 << b, !(1u64 << b), (1u64 << b) - 1, !((1u64 << b) - 1)]);
        }
    }
    let mut v: Vec<u64> = v.into_iter().map(|x| x & 0xffff_ffff).collect();
    v.sort();
    v.dedup();
    v
}
pub fn special(rich: bool) -> Vec<u64> {
    let w = words32(rich);
    let mut v: Vec<u64> = w.iter().flat_map(|hi| w.iter().map(move |lo| hi << 32 | lo)).collect();
    let q = [0u64, 0xffff, 1, 0x8000, 0x5a5a];
    v.extend((0..625usize).map(|i| q[i % 5] | q[i / 5 % 5] << 16 | q[i / 25 % 5] << 32 | q[i / 125] << 48));
    for x in [0x0123_4567u64, 0x89ab_cdef, 0x8000_0001, 0x0000_ff00] {
        let h = x << 32 | x;
        v.extend([h, h ^ 0xffff_ffff, h.swap_bytes(), x << 32 | x.reverse_bits() >> 32]);
    }
    v.sort();
    v.dedup();
    v
}

/// Hashes made of special halves and quarters (every half with every half), each alone
/// into a sketch with all registers at rank 1, one in which only registers that it does
/// not touch are set, and an empty one.
fn patterns<T: Sk>(ctx: &mut Ctx, p: u8, hs: &[u64], routes: &[usize]) {
    let k = T::KIND;
    let m = 1usize << p;
    let all: Vec<usize> = (0..m).collect();
    let mut seed: Vec<u64> = if k == Kind::Plus { dense_seed(p, &all) } else { vec![] };
    let some: T = build(p, &seed);
    let some_regs = regs_of(k, p, seed.iter().copied());
    seed.extend((0..m).map(|i| mk(k, p, i, 1, 0)));
    let ones: T = build(p, &seed);
    let ones_regs = regs_of(k, p, seed.iter().copied());
    let bases = [(ones, Hist::of_regs(&ones_regs), ones_regs), (some, Hist::of_regs(&some_regs), some_regs)];
    ctx.states += 2;
    for (n, &h) in hs.iter().enumerate() {
        if n % 64 == 0 {
            beat();
        }
        let (idx, rank) = place(k, p, h);
        for (b, (base, hist, regs)) in bases.iter().enumerate() {
            let want = with(k, p, hist, regs[idx], rank);
            for &rt in routes {
                let got = route(rt, p, base, &[h]).cnt();
                ctx.transitions += 1;
                ctx.traces += 1;
                if !ctx.expect(got, &want, || {
                    (
                        format!("hash {:#018x} (register {}, rank {}), route '{}'", h, idx, rank, ROUTES[rt]),
                        vec![format!("p={} {}", p, if b == 0 { "all registers at rank 1" } else { "hardly any register set" })],
                    )
                }) {
                    return;
                }
            }
        }
    }
}
fn pattern_cases<T: Sk + 'static>(v: &mut Vec<Case>, p: u8, rich: bool, routes: &'static [usize]) {
    let hs = std::sync::Arc::new(special(rich));
    let n = if rich { 16 } else { 2 };
    for i in 0..n {
        let hs = hs.clone();
        v.push(case(format!("hashes of special halves p={} part {}", p, i), move |c| {
            let part: Vec<u64> = hs.iter().copied().skip(i).step_by(n).collect();
            patterns::<T>(c, p, &part, routes)
        }));
    }
}

pub fn p06(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in 4..=18u8 {
        pattern_cases::<Plus>(&mut v, p, p <= 14 || th, if p <= 12 || th { &[0, 1, 4] } else { &[0, 1] });
    }
    for p in (4..=18u8).rev() {
        let r = max_rank(Kind::Plus, p);
        let m = 1usize << p;
        // batches: all ranks, in slices
        let rs: Vec<u32> = (1..=r).collect();
        let per = if p >= 16 { 4 } else { 16 };
        for ch in rs.chunks(per) {
            let ch = ch.to_vec();
            let bits: Vec<u32> = if th {
                (0..p as u32).collect()
            } else if p <= 12 {
                vec![0, 1, p as u32 - 1]
            } else {
                vec![(ch[0] + p as u32) % p as u32]
            };
            v.push(case(format!("all registers p={} ranks {}..{}", p, ch[0], ch[ch.len() - 1]), move |c| batch::<Plus>(c, p, ch.clone(), bits.clone())));
        }
        let lim = if th { 10 } else { 7 };
        let idxs: Vec<usize> = if p <= lim {
            (0..m).collect()
        } else if p <= 14 || th {
            vec![0, 1, m / 2 + 3, m - 1]
        } else {
            vec![m / 2 + (p as usize % 5), m - 1]
        };
        let routes: &'static [usize] = if p <= 14 || th { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 4] };
        for ch in idxs.chunks(if p >= 14 { 1 } else { 32 }) {
            let ch = ch.to_vec();
            if p > 14 && !th {
                // the large dense sketches: every rank once, by one route each
                let i = ch[0];
                v.push(case(format!("register {} p={} every rank", i, p), move |c| big_single(c, p, i)));
                continue;
            }
            v.push(case(format!("registers {}..={} p={} every rank and route", ch[0], ch[ch.len() - 1], p), move |c| singles::<Plus>(c, p, ch.clone(), routes)));
        }
        if p <= 12 {
            let idxs: Vec<usize> = if p <= 6 || th { (0..5).map(|i| m / 2 + i).collect() } else { vec![m / 2 + p as usize % 5] };
            let step = if th || p <= 6 { 1 } else { 3 };
            v.push(case(format!("rank pairs p={}", p), move |c| pairs::<Plus>(c, p, idxs.clone(), if p <= 8 { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 2, 6] }, step)));
        }
    }
    v
}

/// Large precisions: one isolated register, every rank, routes taken in turn.
fn big_single(ctx: &mut Ctx, p: u8, idx: usize) {
    let k = Kind::Plus;
    let r = max_rank(k, p);
    let (base, regs) = isolated::<Plus>(p, idx, r, false);
    let hist = Hist::of_regs(&regs);
    ctx.states += 1;
    for rank in 1..=r {
        beat();
        for (ti, &tail) in TAILS.iter().enumerate() {
            let h = mk(k, p, idx, rank, tail);
            let want = with(k, p, &hist, regs[idx], rank as u8);
            let rt = ((rank as usize) + ti * 3 + idx) % 7;
            for rt in [0, rt] {
                let got = route(rt, p, &base, &[h]).cnt();
                ctx.transitions += 1;
                ctx.traces += 1;
                if !ctx.expect(got, &want, || {
                    (format!("hash {:#x} (register {}, rank {}), route '{}'", h, idx, rank, ROUTES[rt]), vec![format!("p={} all other registers at rank {}", p, r)])
                }) {
                    return;
                }
            }
        }
    }
}

pub fn p07(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in 4..=16u8 {
        pattern_cases::<Pf>(&mut v, p, true, if p <= 11 || th { &[0, 1] } else { &[0] });
    }
    for p in (4..=16u8).rev() {
        let r = max_rank(Kind::Pf, p);
        let m = 1usize << p;
        let rs: Vec<u32> = (1..=r).collect();
        for ch in rs.chunks(8) {
            let ch = ch.to_vec();
            let bits: Vec<u32> = if th || p <= 12 { (0..p as u32).collect() } else { vec![0, 2, p as u32 - 1] };
            v.push(case(format!("all registers p={} ranks {}..{}", p, ch[0], ch[ch.len() - 1]), move |c| batch::<Pf>(c, p, ch.clone(), bits.clone())));
        }
        let lim = if th { 11 } else { 9 };
        let idxs: Vec<usize> = if p <= lim { (0..m).collect() } else { vec![0, 1, 2, m / 2 + 3, m / 2 + 4, m / 2 + 5, m - 1] };
        for ch in idxs.chunks(32) {
            let ch = ch.to_vec();
            v.push(case(format!("registers {}..={} p={} every rank and route", ch[0], ch[ch.len() - 1], p), move |c| singles::<Pf>(c, p, ch.clone(), &[0, 1, 3, 5])));
        }
        if p <= 12 {
            let idxs: Vec<usize> = (0..6).map(|i| m / 2 + i).collect();
            v.push(case(format!("rank pairs p={}", p), move |c| pairs::<Pf>(c, p, idxs.clone(), &[0, 1, 5, 6], 1)));
        }
        let full: &[u8] = if th { &[4, 5, 6, 7, 8, 10] } else { &[] };
        if full.contains(&p) {
            let step = (m / 8).max(1);
            for lo in (0..m).step_by(step) {
                v.push(case(format!("all 32-bit hashes p={} registers {}..{}", p, lo, lo + step), move |c| all32(c, p, lo, lo + step)));
            }
        }
    }
    v
}
