//! A fixed enumeration of histories, run against one build configuration of the
//! library; the estimates are written out and compared between configurations.
use hyperloglogplus::*;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher};

#[path = "../../harness/src/pos.rs"]
pub mod pos;
pub mod wire;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct PassB;
pub struct PassH(u64);
impl Hasher for PassH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}
impl BuildHasher for PassB {
    type Hasher = PassH;
    fn build_hasher(&self) -> PassH {
        PassH(0)
    }
}

thread_local! { pub static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn op() {
    OPS.with(|c| c.set(c.get() + 1));
}

pub trait Sk: Clone {
    const BITS: u32;
    const PLUS: bool;
    fn make(p: u8) -> Self;
    fn ins(&mut self, h: u64);
    fn cnt(&mut self) -> f64;
    fn mrg(&mut self, o: &Self) -> bool;
}
pub type Pf = HyperLogLogPF<u64, PassB>;
impl Sk for Pf {
    const BITS: u32 = 32;
    const PLUS: bool = false;
    fn make(p: u8) -> Self {
        HyperLogLogPF::new(p, PassB).expect("new")
    }
    fn ins(&mut self, h: u64) {
        op();
        self.insert(&h)
    }
    fn cnt(&mut self) -> f64 {
        op();
        self.count()
    }
    fn mrg(&mut self, o: &Self) -> bool {
        op();
        self.merge(o).is_ok()
    }
}
#[cfg(feature = "std")]
pub type Plus = HyperLogLogPlus<u64, PassB>;
#[cfg(feature = "std")]
impl Sk for Plus {
    const BITS: u32 = 64;
    const PLUS: bool = true;
    fn make(p: u8) -> Self {
        HyperLogLogPlus::new(p, PassB).expect("new")
    }
    fn ins(&mut self, h: u64) {
        op();
        self.insert(&h)
    }
    fn cnt(&mut self) -> f64 {
        op();
        self.count()
    }
    fn mrg(&mut self, o: &Self) -> bool {
        op();
        self.merge(o).is_ok()
    }
}

/// Collects estimates; at one chosen position it keeps the history's description.
pub struct Out {
    pub v: Vec<f64>,
    pub at: usize,
    pub text: Option<String>,
}
impl Out {
    pub fn put(&mut self, x: f64, what: impl Fn() -> String) {
        if self.v.len() == self.at {
            self.text = Some(what());
        }
        self.v.push(x);
    }
}

pub fn mk<T: Sk>(p: u8, idx: usize, rank: u32, tail: u64) -> u64 {
    let rest = T::BITS - p as u32;
    let mut h = (idx as u64) << rest;
    if rank <= rest {
        let one = rest - rank;
        h |= 1 << one;
        h |= tail & ((1u64 << one) - 1);
    }
    h
}
pub fn mx<T: Sk>(p: u8) -> u32 {
    T::BITS + 1 - p as u32
}
/// Enough distinct sparse codes at rank 1 to be dense, in the first registers.
fn seed<T: Sk>(p: u8) -> (T, usize) {
    let mut s = T::make(p);
    if !T::PLUS {
        return (s, 0);
    }
    let need = 4 * (1usize << p) / 5 + 2;
    let per = 1usize << (24 - p as u32);
    for n in 0..need {
        s.ins(((n / per) as u64) << (64 - p) | 1 << (63 - p) | ((n % per) as u64) << 39);
    }
    (s, (need + per - 1) / per)
}
pub fn filled<T: Sk>(p: u8) -> T {
    seed::<T>(p).0
}
pub fn alphabet<T: Sk>(p: u8) -> [u64; 5] {
    let r = mx::<T>(p);
    let m = 1usize << p;
    [mk::<T>(p, m / 2, 2, 0), mk::<T>(p, m / 2, r, 0), mk::<T>(p, m - 1, 1, !0), mk::<T>(p, 0, r, 0), mk::<T>(p, m / 2 - 1, 25 - p as u32, !0)]
}

/// One register after the other to `r`; then all of them on through `more`.
fn sweep<T: Sk>(o: &mut Out, p: u8, r: u32, more: &[u32], stride: usize) {
    let (mut s, _) = seed::<T>(p);
    let m = 1usize << p;
    o.put(s.cnt(), || format!("p={} seeded", p));
    for (k, &r) in [r].iter().chain(more).enumerate() {
        for i in (0..m).rev() {
            s.ins(mk::<T>(p, i, r, i as u64));
            if i % stride == 0 || i < 4 || i + 4 > m {
                o.put(s.cnt(), || format!("p={} registers {}.. of {} raised to rank {} (step {})", p, i, m, r, k));
            }
        }
    }
}

/// All sequences of up to `depth` operations over a colliding alphabet, on two
/// sketches, from an empty and from a filled pair.
fn words<T: Sk>(o: &mut Out, p: u8, depth: usize) {
    let m = 1usize << p;
    let al = alphabet::<T>(p);
    let (dense, _) = seed::<T>(p);
    let mut near = T::make(p);
    for j in 0..m / 7 {
        near.ins((j as u64 + 1).reverse_bits() >> (64 - T::BITS));
    }
    for (n, (a, b)) in [(T::make(p), T::make(p)), (near.clone(), T::make(p)), (near.clone(), dense.clone()), (dense, near)].iter().enumerate() {
        rec(o, p, a, b, &al, depth, &mut format!("p={} pair {}:", p, n));
    }
}
fn rec<T: Sk>(o: &mut Out, p: u8, a: &T, b: &T, al: &[u64], depth: usize, path: &mut String) {
    let (mut x, mut y) = (a.clone(), b.clone());
    o.put(x.cnt(), || format!("{} a.count()", path));
    o.put(y.cnt(), || format!("{} b.count()", path));
    if depth == 0 {
        return;
    }
    let len = path.len();
    for op in 0..al.len() + 4 {
        let (mut x, mut y) = (a.clone(), b.clone());
        if op < al.len() {
            x.ins(al[op]);
            path.push_str(&format!(" a.insert({:#x});", al[op]));
        } else {
            match op - al.len() {
                0 => {
                    y.ins(al[0]);
                    path.push_str(&format!(" b.insert({:#x});", al[0]));
                }
                1 => {
                    x.cnt();
                    path.push_str(" a.count();");
                }
                2 => {
                    let ok = x.mrg(&y);
                    o.put(ok as u8 as f64, || format!("{} a.merge(&b)", path));
                    path.push_str(" a.merge(&b);");
                }
                _ => {
                    let ok = y.mrg(&x);
                    o.put(ok as u8 as f64, || format!("{} b.merge(&a)", path));
                    path.push_str(" b.merge(&a);");
                }
            }
        }
        rec(o, p, &x, &y, al, depth - 1, path);
        path.truncate(len);
    }
}

/// k registers at rank a, the others at rank b.
fn ranks<T: Sk>(o: &mut Out, p: u8) {
    let m = 1usize << p;
    let r = mx::<T>(p);
    let all = p <= 8;
    for a in 0..=r {
        for b in 0..=r {
            if !all && !(b < 2 || b == a || b + 1 == a || b == r) {
                continue;
            }
            for k in [1, m / 2, m - 1] {
                let mut s = T::make(p);
                for i in 0..m {
                    let q = if i < k { a } else { b };
                    if q > 0 {
                        s.ins(mk::<T>(p, i, q, 0));
                    }
                }
                o.put(s.cnt(), || format!("p={} {} registers at rank {}, the others at rank {}", p, k, a, b));
            }
        }
    }
}

/// A long stream, counted often.
fn stream<T: Sk>(o: &mut Out, p: u8, n: u64) {
    let mut s = T::make(p);
    let mut next = 0;
    for j in 0..n {
        let mut z = (j + 1).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        s.ins(z ^ (z >> 31));
        if j == next {
            next += 1 + j / 50;
            o.put(s.cnt(), || format!("p={} stream of {} values", p, j + 1));
        }
    }
}

/// Hashes with special halves, alone (small precisions) and one after the other.
fn halves<T: Sk>(o: &mut Out, p: u8) {
    let mut w: Vec<u64> = vec![0, 0xffff_ffff, 2, 0x7fff_ffff, 0x5555_5555, 0xaaaa_aaaa, 0xffff, 0xffff_0000, 0xdead_beef];
    w.extend((0..32).map(|b| 1u64 << b));
    let base = filled::<T>(p);
    let (mut all, mut young) = (base.clone(), T::make(p));
    let mut n = 0;
    for hi in &w {
        for lo in &w {
            let h = hi << 32 | lo;
            all.ins(h);
            young.ins(h);
            n += 1;
            if p <= 10 {
                let mut s = base.clone();
                s.ins(h);
                o.put(s.cnt(), || format!("p={} hash {:#018x}", p, h));
            }
            if p <= 12 || n % 32 == 0 {
                o.put(all.cnt(), || format!("p={} {} hashes of special halves up to {:#018x}, all registers set before", p, n, h));
                o.put(young.cnt(), || format!("p={} {} hashes of special halves up to {:#018x}", p, n, h));
            }
        }
    }
}

fn limits<T: Sk>(o: &mut Out, make: fn(u8) -> bool) {
    for p in 0..=255u8 {
        o.put(make(p) as u8 as f64, || format!("new({}) accepted", p));
    }
    for p in 4..=16u8 {
        for q in 4..=16u8 {
            let (mut a, b) = (T::make(p), T::make(q));
            o.put(a.mrg(&b) as u8 as f64, || format!("merge of p={} with p={} accepted", p, q));
        }
    }
}

/// Number of HyperLogLog cases, then of all cases.
pub fn cases(thorough: bool) -> (u32, u32) {
    let _ = thorough;
    (13 * 5 + 1, 13 * 5 + 1 + 15 * 5 + 1)
}

fn one<T: Sk>(o: &mut Out, p: u8, kind: u32, th: bool) {
    let m = 1usize << p;
    let f = if th { 4 } else { 1 };
    match kind {
        0 => {
            let st = (m / (1024 * f)).max(1);
            let r = mx::<T>(p);
            for (a, more) in [(1u32, &[2u32, 3, 4][..]), (2, &[5][..]), (3, &[][..]), (r - 8, &[r - 7, r - 6, r - 5][..]), (r - 4, &[r - 3, r - 2, r - 1, r][..]), (r, &[][..])] {
                sweep::<T>(o, p, a, more, st);
            }
        }
        1 => words::<T>(o, p, if p <= 8 { if th { 5 } else { 4 } } else if p <= 12 { if th { 4 } else { 3 } } else { 2 }),
        2 => {
            if p <= 12 || th {
                ranks::<T>(o, p)
            } else {
                // every rank once
                let r = mx::<T>(p);
                for q in 1..=r {
                    let mut s = T::make(p);
                    for i in 0..m {
                        s.ins(mk::<T>(p, i, q, 0));
                    }
                    o.put(s.cnt(), || format!("p={} all registers at rank {}", p, q));
                }
            }
        }
        3 => halves::<T>(o, p),
        _ => stream::<T>(o, p, if th { 4_000_000 } else { 400_000 }),
    }
}

pub fn run(case: u32, at: usize, th: bool) -> Out {
    let mut o = Out { v: vec![], at, text: None };
    let (pf, _) = cases(th);
    if case == 0 {
        limits::<Pf>(&mut o, |p| Pf::new(p, PassB).is_ok());
    } else if case < pf {
        let c = case - 1;
        one::<Pf>(&mut o, 4 + (c / 5) as u8, c % 5, th);
    } else {
        #[cfg(feature = "std")]
        {
            let c = case - pf;
            if c == 0 {
                limits::<Plus>(&mut o, |p| Plus::new(p, PassB).is_ok());
            } else {
                let c = c - 1;
                one::<Plus>(&mut o, 4 + (c / 5) as u8, c % 5, th);
            }
        }
    }
    o
}

// ---- C interface (WebAssembly)

static mut BUF: Vec<f64> = Vec::new();
#[no_mangle]
pub extern "C" fn obs_cases(th: u32) -> u32 {
    cases(th != 0).1
}
#[no_mangle]
pub extern "C" fn obs_run(case: u32, th: u32) -> u32 {
    let v = run(case, usize::MAX, th != 0).v;
    let n = v.len() as u32;
    unsafe { *(&raw mut BUF) = v };
    n
}
#[no_mangle]
pub extern "C" fn obs_ptr() -> *const f64 {
    unsafe { (*(&raw const BUF)).as_ptr() }
}

static mut BYTES: Vec<u8> = Vec::new();
/// Saves; the bytes are then at obs_bytes().
#[no_mangle]
pub extern "C" fn obs_save(case: u32) -> u32 {
    let v = wire::save(case);
    let n = v.len() as u32;
    unsafe { *(&raw mut BYTES) = v };
    n
}
#[no_mangle]
pub extern "C" fn obs_bytes() -> *const u8 {
    unsafe { (*(&raw const BYTES)).as_ptr() }
}
/// Room for that many bytes to be restored from.
#[no_mangle]
pub extern "C" fn obs_room(n: u32) -> *mut u8 {
    unsafe {
        *(&raw mut BYTES) = vec![0; n as usize];
        (*(&raw mut BYTES)).as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn obs_load(case: u32) -> u32 {
    let b = unsafe { (*(&raw const BYTES)).clone() };
    let v = wire::load(case, usize::MAX, &b).v;
    let n = v.len() as u32;
    unsafe { *(&raw mut BUF) = v };
    n
}
#[no_mangle]
pub extern "C" fn obs_wire_cases(pf_only: u32) -> u32 {
    if pf_only != 0 {
        wire::cases().0
    } else {
        wire::cases().1
    }
}
