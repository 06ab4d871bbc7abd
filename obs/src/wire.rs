//! Sketches saved by one build and restored by another.
use crate::{alphabet, filled, mx, Out, PassB, Sk};
use serde::{de::DeserializeOwned, Serialize};

/// How a sketch came to be, before it is saved.
pub const STATES: u32 = 12;

pub trait Wire: Sk + Serialize + DeserializeOwned {
    const PMAX: u8;
}
impl Wire for hyperloglogplus::HyperLogLogPF<u64, PassB> {
    const PMAX: u8 = 16;
}
#[cfg(feature = "std")]
impl Wire for hyperloglogplus::HyperLogLogPlus<u64, PassB> {
    const PMAX: u8 = 18;
}

fn state<T: Wire>(p: u8, n: u32) -> T {
    let m = 1usize << p;
    let al = alphabet::<T>(p);
    let mut s = T::make(p);
    match n {
        0 => {}
        1 => s.ins(al[0]),
        2 => {
            s.ins(0);
            s.cnt();
        }
        // a few values, some counted, some not
        3 => {
            for &h in &al[..3] {
                s.ins(h)
            }
            s.cnt();
            for &h in &al[3..] {
                s.ins(h)
            }
        }
        // well filled, and again with values not yet counted
        4 | 5 => {
            for j in 0..m / 8 {
                s.ins((j as u64 + 1).reverse_bits() >> (64 - T::BITS));
            }
            s.cnt();
            if n == 5 {
                for j in 0..(m / 64).max(1) {
                    s.ins((j as u64 + m as u64).reverse_bits() >> (64 - T::BITS));
                }
            }
        }
        // all registers in turn at growing ranks
        6 => s = filled::<T>(p),
        7 => {
            s = filled::<T>(p);
            for i in 0..m {
                s.ins(crate::mk::<T>(p, i, 1 + (i as u32 * 5 % 9), 0));
            }
        }
        8 => {
            s = filled::<T>(p);
            for i in 0..m {
                s.ins(crate::mk::<T>(p, i, mx::<T>(p) - (i as u32 % 2), 0));
            }
        }
        // one register per word
        9 => {
            s = filled::<T>(p);
            for i in (0..m).step_by(3) {
                s.ins(crate::mk::<T>(p, i, mx::<T>(p), 0));
            }
        }
        // the result of merges
        10 => {
            s.mrg(&state::<T>(p, 3));
            s.mrg(&state::<T>(p, 4));
        }
        _ => {
            s.mrg(&state::<T>(p, 5));
            s.mrg(&state::<T>(p, 7));
            s.ins(al[1]);
        }
    }
    s
}

/// (HyperLogLog cases, all cases)
pub fn cases() -> (u32, u32) {
    (13 * STATES, 28 * STATES)
}

fn save_one<T: Wire>(p: u8, n: u32) -> Vec<u8> {
    let s = state::<T>(p, n);
    let a = crate::pos::to_vec(&s).expect("positional format");
    let b = serde_json::to_vec(&s).expect("json");
    let mut v = (a.len() as u32).to_le_bytes().to_vec();
    v.extend(a);
    v.extend(b);
    v
}

/// What can be seen of a sketch, now and later.
fn observe<T: Wire>(o: &mut Out, p: u8, s: &T, how: &str) {
    let al = alphabet::<T>(p);
    let m = 1usize << p;
    let mut a = s.clone();
    o.put(a.cnt(), || format!("{} count", how));
    o.put(a.cnt(), || format!("{} count again", how));
    for (i, &h) in al.iter().enumerate() {
        a.ins(h);
        o.put(a.cnt(), || format!("{} insert {} values, count", how, i + 1));
    }
    // without having been counted
    let mut a = s.clone();
    for &h in &al {
        a.ins(h);
    }
    o.put(a.cnt(), || format!("{} insert, count", how));
    for k in [1u32, 3, 5, 7] {
        let t = state::<T>(p, k);
        let (mut x, mut y) = (s.clone(), t.clone());
        o.put(x.mrg(&t) as u8 as f64, || format!("{} merge state {}", how, k));
        o.put(x.cnt(), || format!("{} merge state {}, count", how, k));
        o.put(y.mrg(s) as u8 as f64, || format!("{} merged into state {}", how, k));
        o.put(y.cnt(), || format!("{} merged into state {}, count", how, k));
    }
    let q = if p == 4 { 5 } else { p - 1 };
    let (mut x, mut y) = (s.clone(), T::make(q));
    o.put(x.mrg(&y) as u8 as f64, || format!("{} merge precision {}", how, q));
    o.put(y.mrg(s) as u8 as f64, || format!("{} merged into precision {}", how, q));
    // on until every register is set
    let mut a = s.clone();
    for j in 0..m {
        a.ins(crate::mk::<T>(p, j, 1 + (j as u32 % 7), j as u64));
        if j % (m / 8) == 1 {
            o.put(a.cnt(), || format!("{} insert into registers 0..={}, count", how, j));
        }
    }
    o.put(a.cnt(), || format!("{} insert into all registers, count", how));
}

fn load_one<T: Wire>(o: &mut Out, p: u8, n: u32, blob: &[u8]) {
    let own = state::<T>(p, n);
    observe(o, p, &own, "never saved:");
    let k = u32::from_le_bytes(blob[..4].try_into().unwrap()) as usize;
    let a: T = crate::pos::from_slice(&blob[4..4 + k]).expect("positional format");
    observe(o, p, &a, "restored from a positional binary format:");
    let b: T = serde_json::from_slice(&blob[4 + k..]).expect("json");
    observe(o, p, &b, "restored from JSON:");
}

pub fn save(case: u32) -> Vec<u8> {
    let (pf, _) = cases();
    if case < pf {
        return save_one::<crate::Pf>(4 + (case / STATES) as u8, case % STATES);
    }
    #[cfg(feature = "std")]
    return save_one::<crate::Plus>(4 + ((case - pf) / STATES) as u8, case % STATES);
    #[cfg(not(feature = "std"))]
    vec![]
}
/// The estimates of a sketch that was never saved, then as many of the restored ones.
pub fn load(case: u32, at: usize, blob: &[u8]) -> Out {
    let mut o = Out { v: vec![], at, text: None };
    let (pf, _) = cases();
    if case < pf {
        load_one::<crate::Pf>(&mut o, 4 + (case / STATES) as u8, case % STATES, blob);
    } else {
        #[cfg(feature = "std")]
        load_one::<crate::Plus>(&mut o, 4 + ((case - pf) / STATES) as u8, case % STATES, blob);
    }
    o
}
pub fn name(case: u32) -> String {
    let (pf, _) = cases();
    let c = if case < pf { case } else { case - pf };
    let st = [
        "empty", "one value, not counted", "the hash 0, counted", "three values counted, more not", "many values, counted",
        "many values counted, more not", "just dense", "all registers set", "all registers saturated", "every third register saturated",
        "merged from two small ones", "merged from a sparse and a dense one",
    ];
    format!("{} p={} {}", if case < pf { "HyperLogLogPF" } else { "HyperLogLogPlus" }, 4 + c / STATES, st[(c % STATES) as usize])
}
