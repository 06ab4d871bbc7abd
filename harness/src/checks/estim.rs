//! P08, P09, P11, P12: the estimate as a function of the register contents.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;

/// A sketch whose register contents are known, changed one insert at a time.
#[derive(Clone)]
struct Known<T: Sk> {
    p: u8,
    s: T,
    regs: Vec<u8>,
    hist: Hist,
    seeded: usize,
}
impl<T: Sk> Known<T> {
    /// Dense, with as few nonzero registers as possible (those first ones at rank 1).
    fn new(p: u8) -> Self {
        let n = if T::KIND == Kind::Plus { dense_seed_regs(p) } else { 0 };
        let ids: Vec<usize> = (0..n).collect();
        let hs = if n > 0 { dense_seed(p, &ids) } else { vec![] };
        let regs = regs_of(T::KIND, p, hs.iter().copied());
        let hist = Hist::of_regs(&regs);
        Known { p, s: build(p, &hs), regs, hist, seeded: n }
    }
    fn m(&self) -> usize {
        1 << self.p
    }
    fn after(&self, i: usize, rank: u8) -> Option<Hist> {
        if rank <= self.regs[i] {
            return None;
        }
        let mut h = self.hist.clone();
        h.shift(self.regs[i], rank);
        Some(h)
    }
    fn raise(&mut self, i: usize, rank: u8) {
        let tail = if (i + rank as usize) % 2 == 0 { 0 } else { !0 };
        self.s.ins(mk(T::KIND, self.p, i, rank as u32, tail));
        if rank > self.regs[i] {
            self.hist.shift(self.regs[i], rank);
            self.regs[i] = rank;
        }
    }
    fn describe(&self) -> String {
        let v: Vec<String> = (0..66).filter(|&k| self.hist.n[k] > 0).map(|k| format!("{} at rank {}", self.hist.n[k], k)).collect();
        format!("{} p={}, registers: {}", T::TY, self.p, v.join(", "))
    }
    fn check(&mut self, ctx: &mut Ctx) -> bool {
        let want = dense(T::KIND, self.p, &self.hist);
        let got = self.s.cnt();
        ctx.states += 1;
        ctx.traces += 1;
        if T::KIND == Kind::Plus {
            let s = sig(Kind::Plus, self.p, &self.hist);
            ctx.mark(&format!("p={:02}: bias intervals and branches", self.p), s);
        }
        let me = &*self;
        ctx.expect(got, &want, || ("estimate of known register contents".into(), vec![me.describe()]))
    }
    /// Raise registers one at a time; look at every `stride`-th state and at both
    /// sides of every change of branch or of bias interval.
    fn sweep(&mut self, ctx: &mut Ctx, steps: impl Iterator<Item = (usize, u8)>, stride: usize) -> bool {
        if !self.check(ctx) {
            return false;
        }
        let mut cur = sig(T::KIND, self.p, &self.hist);
        let mut seen = true;
        for (n, (i, r)) in steps.enumerate() {
            let Some(h) = self.after(i, r) else { continue };
            let next = sig(T::KIND, self.p, &h);
            if next != cur && !seen && !self.check(ctx) {
                return false;
            }
            self.raise(i, r);
            ctx.transitions += 1;
            seen = next != cur || n % stride == 0;
            if seen {
                beat();
                if !self.check(ctx) {
                    return false;
                }
            }
            cur = next;
        }
        seen || self.check(ctx)
    }
}

/// Which branch and which bias interval the published estimator takes.
fn sig(kind: Kind, p: u8, h: &Hist) -> u64 {
    let raw = h.raw();
    let m = h.m as f64;
    match kind {
        Kind::Plus => {
            if h.zeros() > 0 && h.lc() <= THRESH[(p - 4) as usize] {
                1
            } else if raw > 5.0 * m {
                2
            } else {
                3 + interval(p, raw) as u64
            }
        }
        Kind::Pf => {
            if h.zeros() > 0 && raw <= 2.5 * m {
                1
            } else if raw <= 4294967296.0 / 30.0 {
                2
            } else if raw < 4294967296.0 {
                3
            } else {
                4
            }
        }
    }
}

/// From empty (or the fewest registers a dense sketch can have) to all registers at
/// `r`, one register after the other, last register first.
fn zero_sweep<T: Sk>(ctx: &mut Ctx, p: u8, r: u8, stride: usize) {
    let mut k = Known::<T>::new(p);
    let n = k.seeded;
    for i in 0..n {
        k.raise(i, r)
    }
    let m = k.m();
    k.sweep(ctx, (n..m).rev().map(|i| (i, r)), stride);
}

/// `v` registers zero, the others from rank `r` to `r+1` one after the other, then
/// on to `top`.
fn rank_sweep<T: Sk>(ctx: &mut Ctx, p: u8, v: usize, r: u8, tops: &[u8], stride: usize) {
    let mut k = Known::<T>::new(p);
    let m = k.m();
    let v = v.min(m - k.seeded);
    for i in 0..m - v {
        k.raise(i, r)
    }
    for &t in tops {
        if !k.sweep(ctx, (0..m - v).map(|i| (i, t)), stride) {
            return;
        }
    }
}

/// All multisets of ranks from an increasing alphabet.
fn multisets<T: Sk>(ctx: &mut Ctx, k: &mut Known<T>, ranks: &[u8], from: usize, lo: usize) -> bool {
    // registers lo.. are all at the previous rank; raise a suffix to each next rank
    if from == ranks.len() {
        return k.check(ctx);
    }
    // j = number of registers raised to ranks[from] or more
    let m = k.m();
    let mut w = k.clone();
    for j in 0..=m - lo {
        if j > 0 {
            w.raise(m - j, ranks[from]);
            ctx.transitions += 1;
        }
        if j % 16 == 0 {
            beat();
        }
        let mut x = w.clone();
        if !multisets(ctx, &mut x, ranks, from + 1, m - j) {
            return false;
        }
    }
    true
}
fn all_multisets<T: Sk>(ctx: &mut Ctx, p: u8, ranks: &[u8], part: usize, parts: usize) {
    let mut k = Known::<T>::new(p);
    // ranks[0] is the floor; the seeded registers cannot be zero
    for i in 0..k.m() {
        if ranks[0] > 0 {
            k.raise(i, ranks[0])
        }
    }
    let lo = if ranks[0] == 0 { k.seeded } else { 0 };
    let m = k.m();
    // split on the number of registers raised to ranks[1]
    for j in 0..=m - lo {
        if j > 0 {
            k.raise(m - j, ranks[1]);
        }
        if j % parts != part {
            continue;
        }
        let mut x = k.clone();
        if !multisets(ctx, &mut x, ranks, 2, m - j) {
            return;
        }
    }
}

fn estimator<T: Sk>(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let kd = T::KIND;
    for p in (4..=T::PMAX).rev() {
        let m = 1usize << p;
        let mx = max_rank(kd, p) as u8;
        let div = if th { 1 << 16 } else { 1 << 12 };
        let fine = (m / div).max(1);
        let coarse = (m / if th { 2048 } else { 128 }).max(1);
        for r in [1u8, 2, 3, 4, 5, mx] {
            let st = if r <= 2 { fine } else { fine * if th { 2 } else { 4 } };
            v.push(case(format!("{:?} p={} zero sweep rank {}", kd, p, r), move |c| zero_sweep::<T>(c, p, r, st)));
        }
        for r in 1..mx {
            let st = if r <= 4 || (kd == Kind::Pf && r >= mx - 6) { fine } else { coarse };
            v.push(case(format!("{:?} p={} all registers from rank {} to {}", kd, p, r, r + 1), move |c| rank_sweep::<T>(c, p, 0, r, &[r + 1], st)));
        }
        v.push(case(format!("{:?} p={} all registers from rank 1 to {}", kd, p, mx), move |c| rank_sweep::<T>(c, p, 0, 1, &[mx], coarse)));
        for z in [1usize, 2, 3, 5, m / 16, m / 8, m / 4, m / 3, m / 2, m * 3 / 4] {
            v.push(case(format!("{:?} p={} {} zero registers, others from rank 1 up", kd, p, z), move |c| {
                rank_sweep::<T>(c, p, z, 1, &[2, 3, 4, 5, 6, 8, mx - 1, mx], coarse)
            }));
        }
    }
    let sets: &[(u8, &[u8])] = match (kd, th) {
        (Kind::Plus, false) => &[(4, &[0, 1, 2, 3, 4, 6]), (4, &[0, 1, 3, 61]), (5, &[0, 1, 2, 3, 4]), (6, &[0, 1, 2, 3]), (7, &[0, 1, 2, 3]), (8, &[0, 1, 2]), (9, &[1, 2, 3])],
        (Kind::Plus, true) => &[(4, &[0, 1, 2, 3, 4, 5, 6, 7]), (4, &[0, 1, 2, 5, 9, 60, 61]), (5, &[0, 1, 2, 3, 4, 5]), (6, &[0, 1, 2, 3, 4]), (7, &[0, 1, 2, 3, 4]), (8, &[0, 1, 2, 3]), (9, &[0, 1, 2, 3]), (10, &[1, 2, 3])],
        (Kind::Pf, false) => &[(4, &[0, 1, 2, 3, 4, 29]), (4, &[0, 20, 27, 28, 29]), (5, &[0, 1, 2, 3]), (6, &[0, 1, 2, 3]), (6, &[0, 25, 26, 27]), (7, &[0, 1, 2, 3]), (8, &[0, 1, 2])],
        (Kind::Pf, true) => &[(4, &[0, 1, 2, 3, 4, 5, 28, 29]), (4, &[0, 1, 20, 24, 26, 28, 29]), (5, &[0, 1, 2, 3, 4, 28]), (6, &[0, 1, 2, 3, 4]), (6, &[0, 24, 25, 26, 27]), (7, &[0, 1, 2, 3, 4]), (8, &[0, 1, 2, 3]), (9, &[0, 1, 2, 3])],
    };
    for &(p, ranks) in sets {
        let parts = 8.min(1usize << p);
        for part in 0..parts {
            v.push(case(format!("{:?} p={} all multisets over ranks {:?}, part {}", kd, p, ranks, part), move |c| all_multisets::<T>(c, p, ranks, part, parts)));
        }
    }
    v
}
pub fn p08(tier: Tier) -> Vec<Case> {
    estimator::<Plus>(tier)
}
pub fn p09(tier: Tier) -> Vec<Case> {
    estimator::<Pf>(tier)
}

// ---------------------------------------------------------------- P11

/// Register values at evenly spaced quantiles of the distribution they have after
/// `n` well-mixed hashes, largest first.
fn typical(p: u8, mx: u32, n: f64) -> Vec<u8> {
    let m = 1usize << p;
    let lam = n / m as f64;
    // P(register <= k) = exp(-lam 2^-k) for k < mx
    let mut out = Vec::with_capacity(m);
    let mut i = m;
    // number of registers > k, from the top
    for k in (0..mx).rev() {
        let p_le = (-lam * 0.5f64.powi(k as i32)).exp();
        let upto = ((p_le * m as f64) + 0.5).floor() as usize; // registers <= k
        while i > upto {
            out.push((k + 1) as u8);
            i -= 1;
        }
    }
    while i > 0 {
        out.push(0);
        i -= 1;
    }
    out
}

/// The typical register contents for every n on a geometric grid, reached by
/// raising registers of one sketch (n only grows, so every register only grows).
fn typical_grid<T: Sk>(ctx: &mut Ctx, p: u8, per_decade: usize, slack: f64, extra: f64) {
    let kd = T::KIND;
    let m = 1usize << p;
    let mx = max_rank(kd, p);
    let mut k = Known::<T>::new(p);
    let start = if kd == Kind::Plus {
        // the fewest nonzero registers a dense sketch has
        -(m as f64) * (-(k.seeded as f64) / m as f64).ln_1p()
    } else {
        1.0
    };
    let mut n: f64 = start.max(1.0).ceil();
    // the published large range correction of HyperLogLog overcorrects (above 2^32/30)
    let end = if kd == Kind::Pf { 1.3e8 } else { 3e10 };
    let step = 10f64.powf(1.0 / per_decade as f64);
    while n <= end {
        beat();
        let t = typical(p, mx, n);
        for i in 0..m {
            if t[i] > k.regs[i] {
                k.raise(i, t[i]);
                ctx.transitions += 1;
            }
        }
        // seeded registers may still be above the typical value
        let exact = k.regs.iter().zip(&t).all(|(a, b)| a == b);
        if exact {
            let got = k.s.cnt();
            let err = (got - n) / n;
            let sigma = 1.04 / (m as f64).sqrt();
            // rounding register counts to integers moves n by up to about one half
            let quant = 0.75 / n + 0.6 / m as f64;
            let mut tol = slack * sigma + quant;
            if kd == Kind::Pf {
                // only where linear counting hands over to the raw estimate
                if n > m as f64 && n < 6.0 * m as f64 {
                    tol += extra;
                }
            }
            ctx.states += 1;
            ctx.traces += 1;
            ctx.evaluations += 1;
            ctx.outcome(got);
            ctx.note_max(&format!("deviation of {} p={:02} in standard errors", T::TY, p), (err.abs() - quant) / sigma);
            if !(err.abs() <= tol) {
                ctx.fail(
                    format!("{} p={}: register contents typical of n={} give {} (off by {:.4}, standard error {:.4}, allowed {:.4})", T::TY, p, n, got, err, sigma, tol),
                    vec![k.describe()],
                );
                return;
            }
        }
        n = (n * step).max(n + 1.0).round();
    }
}

/// Sparse: n distinct hashes spread over the buckets with the typical number of
/// bucket collisions, at every n of the grid.
fn sparse_grid(ctx: &mut Ctx, p: u8, every: bool) {
    let m = 1usize << p;
    let cap = (m / 8) as u64;
    // bit-reversed counter: every prefix is evenly spread; buckets are all distinct
    let h = |j: u64| -> u64 { (j + 1).reverse_bits() | (0x9E37 * j & 0xffff) };
    let mut s = Plus::new_(p);
    let (mut n, mut k) = (0u64, 0u64);
    while n < cap {
        n += if every || n < 64 { 1 } else { n / 32 };
        let n = n.min(cap);
        // distinct buckets n values typically hit
        let typical = (-SPARSE_M * (-(n as f64) / SPARSE_M).exp_m1()).round() as u64;
        while k < typical {
            s.ins(h(k));
            k += 1;
            ctx.transitions += 1;
        }
        beat();
        let got = s.cnt();
        ctx.states += 1;
        ctx.traces += 1;
        ctx.evaluations += 1;
        ctx.outcome(got);
        let err = (got - n as f64).abs();
        ctx.note_max("sparse deviation in units", err);
        if !(err <= (0.0003 * n as f64).max(1.0)) {
            ctx.fail(format!("sparse p={}: {} distinct values estimated as {}", p, n, got), vec![]);
            return;
        }
    }
}

/// A fixed well-mixing hash (splitmix64 finalizer), real insertion of 1..N.
fn mixed<T: Sk>(ctx: &mut Ctx, p: u8, top: u64) {
    let mix = |x: u64| -> u64 {
        let mut z = x.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    };
    let m = 1u64 << p;
    let sigma = 1.04 / (m as f64).sqrt();
    let mut s = T::new_(p);
    let mut next = 1u64;
    for n in 1..=top {
        s.ins(mix(n));
        ctx.transitions += 1;
        if n == next {
            beat();
            next = n + (n / 4).max(1);
            let got = s.cnt();
            let err = (got - n as f64).abs();
            ctx.states += 1;
            ctx.traces += 1;
            ctx.evaluations += 1;
            ctx.outcome(got);
            ctx.note_max("deviation of one real stream in standard errors", err / n as f64 / sigma);
            let tol = (6.0 * sigma + if T::KIND == Kind::Pf { 0.03 } else { 0.0 }) * n as f64 + 2.0;
            if !(err <= tol) {
                ctx.fail(format!("{} p={}: {} distinct values estimated as {} (6 standard errors are {:.0})", T::TY, p, n, got, tol), vec![]);
                return;
            }
        }
    }
}

pub fn p11(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in (4..=18u8).rev() {
        let g = match (p, th) {
            (15.., false) => 40,
            (_, false) => 150,
            (17.., true) => 400,
            (_, true) => 1500,
        };
        v.push(case(format!("Plus p={} typical register contents", p), move |c| typical_grid::<Plus>(c, p, g, 0.6, 0.0)));
        if p <= 16 {
            v.push(case(format!("Pf p={} typical register contents", p), move |c| typical_grid::<Pf>(c, p, g, 0.6, 0.035)));
        }
        if p >= 6 {
            v.push(case(format!("Plus p={} sparse", p), move |c| sparse_grid(c, p, p <= 14)));
        }
        let top = if th { 40_000_000 } else { 2_000_000 };
        v.push(case(format!("Plus p={} one real stream", p), move |c| mixed::<Plus>(c, p, top)));
        if p <= 16 {
            v.push(case(format!("Pf p={} one real stream", p), move |c| mixed::<Pf>(c, p, top)));
        }
    }
    v
}

// ---------------------------------------------------------------- P12

fn formed(ctx: &mut Ctx, got: f64, empty: bool, what: impl Fn() -> String) -> bool {
    ctx.evaluations += 1;
    ctx.outcome(got);
    let ok = got.is_finite() && if empty { got == 0.0 } else { got > 0.0 };
    if !ok {
        ctx.fail(format!("count() returned {} ({})", got, what()), vec![what()]);
    }
    ok
}

/// k registers at rank a, the others at rank b.
fn two_ranks<T: Sk>(ctx: &mut Ctx, p: u8, a: u32, bs: &[u32]) {
    let kd = T::KIND;
    let m = 1usize << p;
    for &b in bs {
        for k in [0, 1, m / 2, m - 1] {
            beat();
            let mut s = T::new_(p);
            for i in 0..m {
                let r = if i < k { a } else { b };
                if r > 0 {
                    s.ins(mk(kd, p, i, r, i as u64));
                    ctx.transitions += 1;
                }
            }
            ctx.states += 1;
            ctx.traces += 1;
            let e = k == 0 && b == 0 || k == m && a == 0 || a == 0 && b == 0;
            let what = || format!("{} p={} {} registers at rank {}, the other {} at rank {}", T::TY, p, k, a, m - k, b);
            if !formed(ctx, s.cnt(), e, what) {
                return;
            }
            // and merged into a copy of itself and into a fresh sketch
            let c = s.clone();
            s.mrg(&c).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            let mut f = T::new_(p);
            f.mrg(&s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            if !formed(ctx, s.cnt(), e, what) || !formed(ctx, f.cnt(), e, what) {
                return;
            }
        }
    }
}

/// Hashes with extreme bit patterns.
fn extremes() -> Vec<u64> {
    let mut v = vec![0, !0u64];
    for i in 0..64 {
        v.push(1u64 << i);
        v.push(!(1u64 << i));
        v.push(!0u64 << i);
        v.push(!0u64 >> i);
    }
    v.push(0xaaaaaaaaaaaaaaaa);
    v.push(0x5555555555555555);
    v.sort_unstable();
    v.dedup();
    v
}
/// Hashes made of special halves, each alone and all in a row.
fn special_singles<T: Sk>(ctx: &mut Ctx, p: u8, bg: Bg) {
    let bh = background(T::KIND, p, bg);
    let base: T = build(p, &bh);
    let mut all = base.clone();
    for (n, &x) in super::routes::special(true).iter().enumerate() {
        if n % 32 == 0 {
            beat();
        }
        let mut s = base.clone();
        s.ins(x);
        all.ins(x);
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        let what = || format!("{} p={} background {:?}, insert {:#018x}", T::TY, p, bg, x);
        if n % 4 == 0 {
            let mut u = T::new_(p);
            u.mrg(&s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            if !formed(ctx, u.cnt(), false, || what()) {
                return;
            }
        }
        if !formed(ctx, s.cnt(), false, || what()) {
            return;
        }
        if (p <= 12 || n % 64 == 0) && !formed(ctx, all.est(), false, || format!("{} and every special hash before it", what())) {
            return;
        }
    }
}
fn extreme_pairs<T: Sk>(ctx: &mut Ctx, p: u8, bg: Bg, pairs: bool) {
    let xs = extremes();
    let bh = background(T::KIND, p, bg);
    let base: T = build(p, &bh);
    if !formed(ctx, base.est(), bh.is_empty(), || format!("{} p={} background {:?}", T::TY, p, bg)) {
        return;
    }
    for &x in &xs {
        beat();
        let mut s = base.clone();
        s.ins(x);
        ctx.states += 1;
        ctx.transitions += 1;
        let what = |y: Option<u64>| format!("{} p={} background {:?}, insert {:#x} {:x?}", T::TY, p, bg, x, y);
        if !formed(ctx, s.est(), false, || what(None)) {
            return;
        }
        if pairs {
            for &y in &xs {
                let mut t = s.clone();
                t.ins(y);
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
                if !formed(ctx, t.cnt(), false, || what(Some(y))) {
                    return;
                }
            }
        }
        let mut u = T::new_(p);
        u.mrg(&s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
        if !formed(ctx, u.cnt(), false, || what(None)) {
            return;
        }
    }
    // all extremes at once, both orders
    for rev in [false, true] {
        let mut s = base.clone();
        for i in 0..xs.len() {
            s.ins(if rev { xs[xs.len() - 1 - i] } else { xs[i] });
            if p <= 14 && !formed(ctx, s.cnt(), false, || format!("{} p={} extremes up to {}", T::TY, p, i)) {
                return;
            }
        }
    }
}

fn formed_all<T: Sk>(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    for p in (4..=T::PMAX).rev() {
        let mx = max_rank(T::KIND, p);
        for a in 0..=mx {
            let bs: Vec<u32> = if th || p <= 12 {
                (0..=mx).collect()
            } else if p <= 15 {
                let mut b: Vec<u32> = (0..=mx).filter(|b| (a + b) % 8 == 0).collect();
                b.extend([0, 1, mx]);
                b
            } else {
                vec![mx, a % 3]
            };
            v.push(case(format!("{:?} p={} registers at rank {} and another", T::KIND, p, a), move |c| two_ranks::<T>(c, p, a, &bs)));
        }
        for bg in BGS {
            if p <= if th { 14 } else { 10 } || bg == Bg::Empty {
                v.push(case(format!("{:?} p={} from {:?} hashes of special halves", T::KIND, p, bg), move |c| special_singles::<T>(c, p, bg)));
            }
            v.push(case(format!("{:?} p={} from {:?} extreme hashes", T::KIND, p, bg), move |c| {
                extreme_pairs::<T>(c, p, bg, p <= if th { 12 } else { 9 } || (bg == Bg::Empty && (th || p <= 13)))
            }));
        }
    }
    v
}
pub fn p12(tier: Tier) -> Vec<Case> {
    let mut v = formed_all::<Plus>(tier);
    v.extend(formed_all::<Pf>(tier));
    let th = tier == Tier::Thorough;
    v.extend(super::endure::inserting::<Plus>(th));
    v.extend(super::endure::inserting::<Pf>(th));
    v.extend(super::endure::merging::<Plus>(th));
    v.extend(super::endure::merging::<Pf>(th));
    v
}
