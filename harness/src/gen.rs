//! Inputs: prepared states and colliding alphabets.
use crate::refm::*;
use crate::sk::*;

#[derive(Hash, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bg {
    /// nothing inserted
    Empty,
    /// HyperLogLog++: sparse list full up to a few bytes; HyperLogLog: few registers set
    Near,
    /// HyperLogLog++: just switched to dense; HyperLogLog: about half set
    Just,
    /// all registers but three set to low ranks
    Mid,
    /// all registers set, mixed ranks
    Full,
    /// all registers within two of the maximum rank
    Sat,
}
pub const BGS: [Bg; 6] = [Bg::Empty, Bg::Near, Bg::Just, Bg::Mid, Bg::Full, Bg::Sat];

fn spread(p: u8, budget: usize) -> Vec<u64> {
    // as many evenly spread codes as fit the byte budget
    let build = |n: usize| -> Vec<u64> {
        (0..n)
            .map(|j| {
                let i = ((j as u64) << 25) / n as u64 | 1;
                (i << 39) | 0x1234567 ^ (j as u64)
            })
            .collect()
    };
    let size = |v: &Vec<u64>| {
        let mut c: Vec<u32> = v.iter().map(|&h| code(p, h)).collect();
        c.sort_unstable();
        c.dedup();
        enc_size(&c)
    };
    let (mut lo, mut hi) = (0usize, budget + 1);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        if size(&build(mid)) <= budget {
            lo = mid
        } else {
            hi = mid
        }
    }
    let mut v = build(lo);
    // fill the remaining bytes with close codes
    if let Some(&l) = v.last() {
        let mut i = (l >> 39) + 2;
        loop {
            let h = (i << 39) | 5;
            if i >= 1 << 25 || code(p, h) & 1 == 1 {
                break;
            }
            v.push(h);
            if size(&v) > budget {
                v.pop();
                break;
            }
            i += 2;
        }
    }
    v
}

/// Distinct hashes that force the dense representation while touching only the
/// registers `allowed`, at rank 1.
pub fn dense_seed(p: u8, allowed: &[usize]) -> Vec<u64> {
    let need = dense_bytes(p) + 2;
    let sub = 24 - p as u32; // free bits between the rank-1 bit and the bucket's end
    let mut v = Vec::with_capacity(need);
    'o: for &i in allowed {
        for t in 0..1u64 << sub {
            if v.len() >= need {
                break 'o;
            }
            v.push(((i as u64) << (64 - p)) | 1 << (63 - p) | t << 39);
        }
    }
    assert!(v.len() >= need, "not enough registers to force dense at p={}", p);
    v
}
pub fn dense_seed_regs(p: u8) -> usize {
    let need = dense_bytes(p) + 2;
    let per = 1usize << (24 - p as u32);
    (need + per - 1) / per
}

pub fn background(kind: Kind, p: u8, bg: Bg) -> Vec<u64> {
    let m = 1usize << p;
    let r = max_rank(kind, p);
    let all = |f: &dyn Fn(usize) -> Option<u32>| -> Vec<u64> {
        (0..m).filter_map(|i| f(i).map(|k| mk(kind, p, i, k, (i as u64).wrapping_mul(0x9E3779B97F4A7C15)))).collect()
    };
    match (kind, bg) {
        (_, Bg::Empty) => vec![],
        (Kind::Plus, Bg::Near) => spread(p, dense_bytes(p) - 3.min(dense_bytes(p) / 4)),
        (Kind::Plus, Bg::Just) => {
            let mut v = spread(p, dense_bytes(p) - 1);
            let n = v.len();
            // a few more buckets, next to existing ones
            for j in 0..6usize {
                let h = v[(j * n / 6).min(n - 1)];
                v.push(((h >> 39 ^ 2) << 39) | 3);
            }
            v
        }
        (Kind::Pf, Bg::Near) => all(&|i| if i % 5 == 1 { Some(1 + (i as u32 % 3)) } else { None }),
        (Kind::Pf, Bg::Just) => all(&|i| if i % 2 == 1 { Some(1 + (i as u32 % 4)) } else { None }),
        (_, Bg::Mid) => {
            let mut v = all(&|i| if i < 2 || i + 1 == m { None } else { Some(1 + (i as u32 * 7 % 3)) });
            if kind == Kind::Plus {
                // surely dense: more distinct buckets than bytes
                let regs: Vec<usize> = (2..m - 1).collect();
                v.extend(dense_seed(p, &regs));
            }
            v
        }
        (_, Bg::Full) => {
            let mut v = all(&|i| Some(1 + (i as u32 * 5 % 7).min(r - 1)));
            if kind == Kind::Plus {
                let regs: Vec<usize> = (0..m).collect();
                v.extend(dense_seed(p, &regs));
            }
            v
        }
        (_, Bg::Sat) => {
            let mut v = all(&|i| Some(r - 2 + (i as u32 % 2)));
            if kind == Kind::Plus {
                let regs: Vec<usize> = (0..m).collect();
                v.extend(dense_seed(p, &regs));
            }
            v
        }
    }
}

/// Values forced to collide: same register, same sparse bucket with same and
/// different ranks, neighbouring registers of one packed word, first and last
/// register, extreme ranks.
pub fn alphabet(kind: Kind, p: u8, n: usize) -> Vec<u64> {
    let m = 1usize << p;
    let r = max_rank(kind, p);
    let i0 = m / 2 + 1;
    let mut v = vec![];
    match kind {
        Kind::Plus => {
            let d = 25 - p as u32; // rank up to d: even code
            v.push(mk(kind, p, i0, 2, 0)); // A
            v.push(mk(kind, p, i0, d + 3, 0x55)); // same register, odd code
            v.push(mk(kind, p, i0, r, 0)); // same register and sparse bucket, max rank
            v.push(mk(kind, p, m - 1, 1, !0)); // last register, all ones
            v.push(mk(kind, p, i0, 2, 0x7fff)); // A's bucket and code again, other low bits
            v.push(mk(kind, p, 0, r, 0)); // hash 0
            v.push(mk(kind, p, i0 - 1, d, 0)); // neighbour register, last even rank
            v.push(mk(kind, p, i0 - 1, d + 1, !0)); // first odd rank
            v.push(mk(kind, p, 1, r - 1, 0));
            v.push(mk(kind, p, i0 + 1, 4, !0));
            v.push(mk(kind, p, i0, d + 3, 0)); // same odd code as [1]
            v.push(mk(kind, p, 3, 3, 0x123456789abc));
        }
        Kind::Pf => {
            v.push(mk(kind, p, i0, 2, 0));
            v.push(mk(kind, p, i0, r, 0) | 0xffffffff00000000);
            v.push(mk(kind, p, m - 1, 1, !0));
            v.push(mk(kind, p, i0 - 1, 3, 0x5555) | 0x1234567800000000);
            v.push(mk(kind, p, 0, r, 0));
            v.push(mk(kind, p, i0, 4, !0));
            v.push(mk(kind, p, i0 + 1, 5, 0));
            v.push(mk(kind, p, i0, 2, !0) | 0x8000000000000000);
            v.push(mk(kind, p, 1, r - 1, 0));
            v.push(mk(kind, p, 5, 6, 1));
        }
    }
    v.truncate(n);
    v
}

/// Long streams through every representation (buffer flushes, the switch, a while of
/// dense): random-like values; neighbouring codes in scattered order; registers and
/// ranks cycling, with values that repeat.
pub const STREAMS: [&str; 3] = ["random", "neighbours", "ranks"];
pub fn stream(kind: Kind, p: u8, which: usize) -> Vec<u64> {
    let m = 1usize << p;
    let r = max_rank(kind, p);
    match which {
        0 => (0..m * 5 / 8 + 24).map(|j| crate::sk::mix(j as u64 + 1)).collect(),
        1 => {
            // an odd factor modulo a power of two: a permutation
            let n = (m * 7 / 8 + 24).next_power_of_two();
            (0..n as u64)
                .map(|j| j.wrapping_mul(0x9E3779B1) & (n as u64 - 1))
                .take(m * 7 / 8 + 24)
                .map(|j| match kind {
                    Kind::Plus => (0x1555555 + j) << 39 | 1 << 38 | j,
                    Kind::Pf => mk(kind, p, j as usize % m, 1 + (j as u32 >> p) % 3, j),
                })
                .collect()
        }
        _ => (0..m * 5 / 8 + 24).map(|j| mk(kind, p, j * 5 % m, 1 + (j as u32 / 3) % r, j as u64 / 2)).collect(),
    }
}

pub fn build<T: Sk>(p: u8, hs: &[u64]) -> T {
    let mut s = T::new_(p);
    for &h in hs {
        s.ins(h);
    }
    s
}

/// The canonical history of a set: ascending order, one count at the end.
pub fn canonical<T: Sk>(p: u8, hs: &[u64]) -> f64 {
    let mut v = hs.to_vec();
    v.sort_unstable();
    v.dedup();
    let mut s: T = build(p, &v);
    s.cnt()
}
pub fn bg_code(t: &str, name: &str, p: u8, bg: Bg, n: usize) -> Vec<String> {
    let mut v = vec![format!("let mut {}: {}<u64, PassB> = {}::new({}, PassB).unwrap();", name, t, t, p)];
    if n > 0 {
        v.push(format!("for h in background({:?}, {}) {{ {}.insert(&h); }} // {} hashes, see harness/src/gen.rs", bg, p, name, n));
    }
    v
}
