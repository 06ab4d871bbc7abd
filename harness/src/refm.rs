//! Reference model: what a sketch is (a set of hashes), which register a hash
//! belongs to, and the published estimators. Deliberately boring.
use crate::sk::Kind;
use crate::tables;

pub const SP: u32 = 25; // sparse precision
pub const SPARSE_M: f64 = (1u64 << SP) as f64;

pub fn max_rank(kind: Kind, p: u8) -> u32 {
    match kind {
        Kind::Pf => 33 - p as u32,
        Kind::Plus => 65 - p as u32,
    }
}

/// Register index and rank of a hash.
pub fn place(kind: Kind, p: u8, h: u64) -> (usize, u8) {
    let p = p as u32;
    match kind {
        Kind::Pf => {
            let h = h as u32;
            let w = h << p;
            (((h as u64) >> (32 - p)) as usize, (w.leading_zeros().min(32 - p) + 1) as u8)
        }
        Kind::Plus => {
            let w = h << p;
            ((h >> (64 - p)) as usize, (w.leading_zeros().min(64 - p) + 1) as u8)
        }
    }
}

/// A hash with the given register, rank and the bits after the rank's leading 1
/// taken from `tail` (its low bits).
pub fn mk(kind: Kind, p: u8, idx: usize, rank: u32, tail: u64) -> u64 {
    let bits = match kind {
        Kind::Pf => 32u32,
        Kind::Plus => 64,
    };
    let p = p as u32;
    let rest = bits - p; // bits after the index
    let mut h = (idx as u64) << rest;
    assert!(rank >= 1 && rank <= rest + 1);
    if rank <= rest {
        let one = rest - rank;
        h |= 1u64 << one;
        if one > 0 {
            h |= tail & ((1u64 << one) - 1);
        }
    }
    debug_assert_eq!(place(kind, p as u8, h), (idx, rank as u8));
    h
}

/// The sparse code a hash has in the HyperLogLog++ paper's encoding; used only to
/// choose interesting inputs (spacing, nearly full sparse lists).
pub fn code(p: u8, h: u64) -> u32 {
    let i = (h >> 39) as u32;
    let dif = i & ((1u32 << (25 - p)) - 1);
    if dif == 0 {
        let w = h << 25;
        let z = w.leading_zeros().min(39) + 1;
        (i << 7) | (z << 1) | 1
    } else {
        i << 1
    }
}
/// A hash with the given sparse code, if the code is valid at precision `p`.
pub fn uncode(p: u8, c: u32, tail: u64) -> Option<u64> {
    let mask = (1u32 << (25 - p)) - 1;
    let h = if c & 1 == 1 {
        let (i, z) = (c >> 7, (c >> 1) & 63);
        if i & mask != 0 || z < 1 || z > 40 {
            return None;
        }
        let mut h = (i as u64) << 39;
        if z <= 39 {
            let one = 39 - z;
            h |= 1 << one;
            if one > 0 {
                h |= tail & ((1u64 << one) - 1);
            }
        }
        h
    } else {
        let i = c >> 1;
        if i & mask == 0 || i >= 1 << 25 {
            return None;
        }
        ((i as u64) << 39) | (tail & ((1 << 39) - 1))
    };
    debug_assert_eq!(code(p, h), c);
    Some(h)
}
pub fn varlen(d: u32) -> usize {
    let mut n = 1;
    let mut d = d >> 7;
    while d != 0 {
        n += 1;
        d >>= 7;
    }
    n
}
pub fn dense_bytes(p: u8) -> usize {
    4 * (1usize << p) / 5
}
/// Encoded size of a set of codes (sorted, distinct).
pub fn enc_size(sorted: &[u32]) -> usize {
    let mut last = 0;
    let mut n = 0;
    for &c in sorted {
        n += varlen(c - last);
        last = c;
    }
    n
}

/// Histogram of register values.
#[derive(Clone)]
pub struct Hist {
    pub n: [u64; 66],
    pub m: u64,
}
impl Hist {
    pub fn empty(p: u8) -> Self {
        let mut n = [0; 66];
        n[0] = 1 << p;
        Hist { n, m: 1 << p }
    }
    pub fn of_regs(r: &[u8]) -> Self {
        let mut n = [0; 66];
        for &x in r {
            n[x as usize] += 1;
        }
        Hist { n, m: r.len() as u64 }
    }
    #[inline]
    pub fn shift(&mut self, from: u8, to: u8) {
        self.n[from as usize] -= 1;
        self.n[to as usize] += 1;
    }
    pub fn zeros(&self) -> u64 {
        self.n[0]
    }
    pub fn raw(&self) -> f64 {
        let mut s = 0.0;
        for k in (0..66).rev() {
            s += self.n[k] as f64 * (0.5f64).powi(k as i32);
        }
        let m = self.m as f64;
        alpha(self.m) * m * m / s
    }
    pub fn lc(&self) -> f64 {
        let m = self.m as f64;
        m * (m / self.zeros() as f64).ln()
    }
}

pub fn regs_of(kind: Kind, p: u8, hs: impl IntoIterator<Item = u64>) -> Vec<u8> {
    let mut r = vec![0u8; 1 << p];
    for h in hs {
        let (i, k) = place(kind, p, h);
        if k > r[i] {
            r[i] = k
        }
    }
    r
}

pub fn alpha(m: u64) -> f64 {
    match m {
        16 => 0.673,
        32 => 0.697,
        64 => 0.709,
        _ => 0.7213 / (1.0 + 1.079 / m as f64),
    }
}

pub const THRESH: [f64; 15] = [
    10., 20., 40., 80., 220., 400., 900., 1800., 3100., 6500., 11500., 20000., 50000., 120000., 350000.,
];

/// Every value linear interpolation between neighbouring table points may give.
/// (Two tables have places where the measured estimates are not increasing, so
/// that two neighbouring pairs bracket the same raw value.)
pub fn biases(p: u8, raw: f64) -> Vec<f64> {
    let e = tables::RAW[(p - 4) as usize];
    let b = tables::BIAS[(p - 4) as usize];
    let n = e.len();
    if raw <= e[0] {
        return vec![b[0]];
    }
    if raw >= e[n - 1] {
        return vec![b[n - 1]];
    }
    let mut v = vec![];
    for j in 0..n - 1 {
        if e[j] <= raw && raw <= e[j + 1] {
            let t = (raw - e[j]) / (e[j + 1] - e[j]);
            v.push(b[j] + t * (b[j + 1] - b[j]));
        }
    }
    v
}
pub fn interval(p: u8, raw: f64) -> usize {
    let e = tables::RAW[(p - 4) as usize];
    e.iter().take_while(|&&x| x < raw).count()
}

const EDGE: f64 = 1e-9;

/// Acceptable estimates of a dense HyperLogLog++ sketch (one, except exactly at a
/// branch boundary where rounding may decide either way).
pub fn plus_dense(p: u8, h: &Hist) -> Vec<f64> {
    let t = THRESH[(p - 4) as usize];
    let mut out = vec![];
    let lc = if h.zeros() > 0 { h.lc() } else { f64::INFINITY };
    if lc <= t * (1.0 + EDGE) {
        out.push(lc);
    }
    if lc >= t * (1.0 - EDGE) {
        let raw = h.raw();
        let lim = 5.0 * h.m as f64;
        if raw <= lim * (1.0 + EDGE) {
            for b in biases(p, raw) {
                out.push(raw - b);
            }
        }
        if raw >= lim * (1.0 - EDGE) {
            out.push(raw);
        }
    }
    out
}
pub fn plus_sparse(k: usize) -> f64 {
    // ln(M / (M - k)), without cancellation
    -SPARSE_M * (-(k as f64) / SPARSE_M).ln_1p()
}
pub fn pf(h: &Hist) -> Vec<f64> {
    let two32 = 4294967296.0f64;
    let raw = h.raw();
    let m = h.m as f64;
    let mut out = vec![];
    let small = |x: f64| x <= 2.5 * m * (1.0 + EDGE);
    if h.zeros() > 0 && small(raw) {
        out.push(h.lc());
    }
    if !(h.zeros() > 0 && raw < 2.5 * m * (1.0 - EDGE)) {
        if raw <= two32 / 30.0 * (1.0 + EDGE) {
            out.push(raw);
        }
        if raw >= two32 / 30.0 * (1.0 - EDGE) {
            let r = raw.min(two32 - 1.0);
            out.push(-two32 * (1.0 - r / two32).ln());
        }
    }
    out
}

pub fn dense(kind: Kind, p: u8, h: &Hist) -> Vec<f64> {
    match kind {
        Kind::Pf => pf(h),
        Kind::Plus => plus_dense(p, h),
    }
}

pub fn buckets(hs: impl IntoIterator<Item = u64>) -> usize {
    let mut v: Vec<u64> = hs.into_iter().map(|h| h >> 39).collect();
    v.sort_unstable();
    v.dedup();
    v.len()
}

/// Acceptable estimates of a sketch holding exactly these hashes.
pub fn est_set(kind: Kind, p: u8, hs: &[u64]) -> Vec<f64> {
    let regs = regs_of(kind, p, hs.iter().copied());
    let mut v = dense(kind, p, &Hist::of_regs(&regs));
    if kind == Kind::Plus {
        v.push(plus_sparse(buckets(hs.iter().copied())));
    }
    v
}

#[inline]
pub fn close(a: f64, b: f64) -> bool {
    // (a - b) is NaN or inf when only one of them is not finite
    a == b || (a - b).abs() <= 1e-9 * b.abs() + 2e-7
}
pub fn close_any(a: f64, v: &[f64]) -> bool {
    v.iter().any(|&b| close(a, b))
}

/// The oracle's own tables are consistent.
pub fn self_check() {
    assert_eq!(tables::RAW.len(), 15);
    for p in 4..=18usize {
        let (e, b) = (tables::RAW[p - 4], tables::BIAS[p - 4]);
        assert_eq!(e.len(), b.len());
        let n: Vec<f64> = e.iter().zip(b).map(|(x, y)| x - y).collect();
        for w in n.windows(2) {
            assert!((w[0] - w[0].round()).abs() < 1e-3, "p{} {}", p, w[0]);
            let d = w[1] - w[0];
            let step = (n[n.len() - 1] - n[0]) / (n.len() - 1) as f64;
            assert!((d - step).abs() <= 1.001, "p{} step {} {}", p, d, step);
        }
    }
}
