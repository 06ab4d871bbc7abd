//! P23: code of the caller that fails. Every call a sketch makes to the caller's code
//! (hash builder, Hash implementation, hasher, serializer's writer, reader) is made to
//! fail in turn; afterwards the sketch must be as if nothing had been attempted.
use super::moments::{bounds, Event, Line};
use crate::explore::*;
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// calls into the caller's code until one of them fails; negative: none does
    static FUEL: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}
fn burn() -> bool {
    FUEL.with(|f| {
        let n = f.get();
        if n >= 0 {
            f.set(n - 1);
        }
        if n == 0 {
            FIRED.with(|x| x.set(true));
        }
        n == 0
    })
}
fn tick() {
    if burn() {
        // unwinds without calling the panic hook
        std::panic::resume_unwind(Box::new("planned"));
    }
}
/// Run `f` with the n-th call into the caller's code failing. (None: it panicked;
/// whether the fault was reached)
fn faulty<R>(n: i64, f: impl FnOnce() -> R) -> (Option<R>, bool) {
    FUEL.with(|x| x.set(n));
    FIRED.with(|x| x.set(false));
    let r = catch_unwind(AssertUnwindSafe(f));
    FUEL.with(|x| x.set(-1));
    (r.ok(), FIRED.with(|x| x.get()))
}

/// The value is the hash, computed in several steps by code that may fail.
#[derive(Debug)]
struct FB;
struct FH(u64);
impl BuildHasher for FB {
    type Hasher = FH;
    fn build_hasher(&self) -> FH {
        tick();
        FH(0)
    }
}
impl Hasher for FH {
    fn finish(&self) -> u64 {
        tick();
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        tick();
        self.0 = i;
    }
    fn write_u32(&mut self, i: u32) {
        tick();
        self.0 = self.0 << 32 | i as u64;
    }
}
impl Clone for FB {
    fn clone(&self) -> FB {
        tick();
        FB
    }
}
impl Serialize for FB {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if burn() {
            return Err(serde::ser::Error::custom("the builder cannot be saved, as planned"));
        }
        s.serialize_u8(7)
    }
}
impl<'de> Deserialize<'de> for FB {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<FB, D::Error> {
        let x = u8::deserialize(d)?;
        if burn() || x != 7 {
            return Err(serde::de::Error::custom("the builder cannot be restored, as planned"));
        }
        Ok(FB)
    }
}
#[derive(Clone, Debug)]
struct V(u64);
impl Hash for V {
    fn hash<H: Hasher>(&self, s: &mut H) {
        tick();
        s.write_u64(self.0 ^ 0x5555);
        s.write_u32((self.0 >> 32) as u32);
        tick();
        s.write_u32(self.0 as u32);
        tick();
    }
}
/// calls into the caller's code by an insert: build, 3 in Hash, 3 writes, finish
const CALLS: i64 = 8;

struct Failing {
    left: usize,
    err: bool,
}
impl io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return if self.err { Err(io::Error::new(io::ErrorKind::Other, "full")) } else { Ok(0) };
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

trait F: Debug + Sized + 'static {
    const K: Kind;
    const N: &'static str;
    fn mk(p: u8) -> Self;
    fn ins(&mut self, by: usize, h: u64);
    fn cnt(&mut self) -> f64;
    fn dup(&self) -> Self;
    fn over(&mut self, o: &Self);
    fn mrg(&mut self, o: &Self) -> bool;
    fn save(&self) -> [Vec<u8>; 3];
    fn save_to(&self, format: usize, w: Failing) -> bool;
    fn load(format: usize, b: &[u8]) -> Result<Self, String>;
}
macro_rules! imp {
    ($t:ident, $k:expr, $n:expr) => {
        impl F for $t<V, FB> {
            const K: Kind = $k;
            const N: &'static str = $n;
            fn mk(p: u8) -> Self {
                $t::new(p, FB).unwrap()
            }
            #[allow(deprecated)]
            fn ins(&mut self, by: usize, h: u64) {
                match by {
                    0 => self.insert(&V(h)),
                    1 => self.add(&V(h)),
                    _ => self.insert_any(&(V(h))),
                }
            }
            fn cnt(&mut self) -> f64 {
                self.count()
            }
            fn dup(&self) -> Self {
                self.clone()
            }
            fn over(&mut self, o: &Self) {
                self.clone_from(o)
            }
            fn mrg(&mut self, o: &Self) -> bool {
                self.merge(o).is_ok()
            }
            fn save(&self) -> [Vec<u8>; 3] {
                [serde_json::to_vec(self).expect("IMPL: to json"), serde_cbor::to_vec(self).expect("IMPL: to cbor"), crate::pos::to_vec(self).expect("IMPL: to positional")]
            }
            fn save_to(&self, format: usize, w: Failing) -> bool {
                match format {
                    0 => serde_json::to_writer(w, self).is_ok(),
                    _ => serde_cbor::to_writer(w, self).is_ok(),
                }
            }
            fn load(format: usize, b: &[u8]) -> Result<Self, String> {
                match format {
                    0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
                    1 => serde_cbor::from_slice(b).map_err(|e| e.to_string()),
                    _ => crate::pos::from_slice(b).map_err(|e| format!("{:?}", e)),
                }
            }
        }
    };
}
imp!(HyperLogLogPF, Kind::Pf, "HyperLogLogPF");
imp!(HyperLogLogPlus, Kind::Plus, "HyperLogLogPlus");

struct Faults<T: F> {
    p: u8,
    bg: Bg,
    bgh: Vec<u64>,
    al: Vec<u64>,
    other: T,
    /// of another precision
    stranger: T,
    oset: Vec<u64>,
    memo: std::cell::RefCell<std::collections::HashMap<u64, Vec<f64>>>,
}
struct St<T: F>(T, u64);
impl<T: F> Clone for St<T> {
    fn clone(&self) -> Self {
        St(self.0.dup(), self.1)
    }
}
fn filled<T: F>(p: u8, hs: &[u64]) -> T {
    let mut s = T::mk(p);
    for &h in hs {
        s.ins(0, h);
    }
    s
}
impl<T: F> Faults<T> {
    fn new(p: u8, bg: Bg, n: usize) -> Self {
        let oset = vec![mk(T::K, p, 2, 3, 9), mk(T::K, p, (1 << p) - 2, 1, 0)];
        Faults { p, bg, bgh: background(T::K, p, bg), al: alphabet(T::K, p, n), other: filled(p, &oset), stranger: filled(if p == 4 { 5 } else { 4 }, &oset), oset, memo: Default::default() }
    }
    fn want(&self, m: u64) -> Vec<f64> {
        self.memo
            .borrow_mut()
            .entry(m)
            .or_insert_with(|| {
                let mut hs = self.bgh.clone();
                for j in 0..self.al.len() {
                    if m >> j & 1 == 1 {
                        hs.push(self.al[j])
                    }
                }
                if m >> self.al.len() & 1 == 1 {
                    hs.extend(&self.oset)
                }
                est_set(T::K, self.p, &hs)
            })
            .clone()
    }
}
impl<T: F> Model for Faults<T> {
    type S = St<T>;
    fn init(&self) -> Vec<St<T>> {
        vec![St(filled(self.p, &self.bgh), 0)]
    }
    fn init_code(&self) -> Vec<String> {
        bg_code(T::N, "x", self.p, self.bg, self.bgh.len())
    }
    // insert; the same failing at each call, by each entry point; count; merge; failing
    // clone, save and restore
    fn ops(&self) -> usize {
        let n = self.al.len();
        n + n * 3 + 6
    }
    fn apply(&self, s: &St<T>, op: usize) -> Result<Option<St<T>>, String> {
        let n = self.al.len();
        let St(mut x, mut m) = s.clone();
        if op < n {
            x.ins(0, self.al[op]);
            m |= 1 << op;
        } else if op < 4 * n {
            let (j, by) = ((op - n) % n, (op - n) / n);
            for k in 0..CALLS + 2 {
                let (r, fired) = faulty(k, || x.ins(by, self.al[j]));
                match (r, fired) {
                    (Some(_), false) => m |= 1 << j, // fewer calls than that
                    (None, true) => (),
                    (Some(_), true) => return Err(format!("the caller's call {} panicked, the insert returned normally", k)),
                    (None, false) => return Err(format!("insert panicked by itself (fault planned at call {})", k)),
                }
                if m >> j & 1 == 1 {
                    break;
                }
            }
        } else {
            match op - 4 * n {
                0 => {
                    let got = x.cnt();
                    if !close_any(got, &self.want(m)) {
                        return Err(format!("x.count() is {} but {:?} without the failed operations", got, self.want(m)));
                    }
                }
                1 => {
                    if !x.mrg(&self.other) {
                        return Err("merge refused".into());
                    }
                    m |= 1 << n;
                }
                2 => {
                    for k in 0..3 {
                        let (r, fired) = faulty(k, || x.dup());
                        match (r, fired) {
                            (Some(c), false) => {
                                x = c;
                                break;
                            }
                            (None, true) => (),
                            (r, _) => return Err(format!("clone with a failing builder: returned {}, fault reached {}", r.is_some(), fired)),
                        }
                    }
                }
                5 => {
                    for o in [&self.stranger, &self.other] {
                        match faulty(0, || x.over(o)) {
                            (None, true) => (),
                            // it asks nothing of the builder
                            (Some(_), false) => return Ok(None),
                            (r, _) => return Err(format!("clone_from with a failing builder: returned {}", r.is_some())),
                        }
                    }
                }
                3 => {
                    // saving fails in the builder, and in the writer at some bytes
                    for format in 0..2 {
                        let (r, fired) = faulty(0, || x.save_to(format, Failing { left: usize::MAX, err: true }));
                        if r.is_none() || fired == r.unwrap() {
                            return Err(format!("saving: the builder's failure reached {}, result ok {:?}", fired, r));
                        }
                        for (left, err) in [(0, true), (1, false), (17, true), (40, true)] {
                            if x.save_to(format, Failing { left, err }) {
                                return Err(format!("saving to a writer that fails after {} bytes reported success", left));
                            }
                        }
                    }
                }
                _ => {
                    // restoring fails in the builder; nothing may panic
                    let saved = x.save();
                    for (format, b) in saved.iter().enumerate() {
                        let (r, fired) = faulty(0, || T::load(format, b).is_ok());
                        if r.is_none() || fired == r.unwrap() {
                            return Err(format!("restoring: the builder's failure reached {}, result ok {:?}", fired, r));
                        }
                    }
                    x = T::load(2, &saved[2])?;
                }
            }
        }
        Ok(Some(St(x, m)))
    }
    fn check(&self, s: &St<T>) -> Result<Obs, String> {
        let got = s.0.dup().cnt();
        if !close_any(got, &self.want(s.1)) {
            return Err(format!("x.count() is {} but {:?} without the failed operations", got, self.want(s.1)));
        }
        let mut o: T = T::mk(self.p);
        if !o.mrg(&s.0) {
            return Err("merge refused".into());
        }
        let via = o.cnt();
        if !close_any(via, &self.want(s.1)) {
            return Err(format!("merged into an empty sketch x gives {} but {:?} without the failed operations", via, self.want(s.1)));
        }
        Ok(Obs { values: [got, via, 0.], n: 2, compared: 2 })
    }
    fn key(&self, s: &St<T>) -> u128 {
        unordered_key(&s.0) ^ (s.1 as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)
    }
    fn op_code(&self, op: usize) -> String {
        let n = self.al.len();
        if op < n {
            return format!("x.insert(&V({:#018x}));", self.al[op]);
        }
        if op < 4 * n {
            let by = ["insert", "add", "insert_any"][(op - n) / n];
            return format!("for k in 0.. {{ catch_unwind(|| x.{}(&V({:#018x}))) with the k-th call to the caller's code panicking }}", by, self.al[(op - n) % n]);
        }
        ["x.count();", "x.merge(&other).unwrap();", "x.clone() with a failing builder;", "saving with a failing builder or writer;", "restoring with a failing builder; x = restored;", "x.clone_from(&other) with a failing builder;"][op - 4 * n].into()
    }
}

/// A save cut after any number of bytes: not restored, no panic, and the writing
/// sketch stays as it was.
fn torn<T: F>(ctx: &mut Ctx, p: u8, bg: Bg, all: usize) {
    let hs = background(T::K, p, bg);
    let mut x: T = filled(p, &hs);
    for counted in [false, true] {
        if counted {
            x.cnt();
        } else {
            // something still buffered
            x.ins(0, mk(T::K, p, 3, 3, 1));
        }
        ctx.states += 1;
        let saved = x.save();
        for (format, b) in saved.iter().enumerate() {
            let step = (b.len() / all).max(1);
            for n in (0..b.len()).filter(|n| n % step == 0 || *n < 64 || n + 64 > b.len()) {
                if n & 255 == 0 {
                    beat();
                    if past_deadline() {
                        ctx.capped = true;
                        return;
                    }
                }
                ctx.transitions += 1;
                ctx.evaluations += 1;
                let r = guard(|| T::load(format, &b[..n]));
                ctx.traces += 1;
                match r {
                    Ok(Err(_)) => (),
                    Ok(Ok(_)) => {
                        ctx.fail(format!("the first {} of {} bytes of a save (format {}) were restored as a sketch", n, b.len(), format), vec![format!("{} p={} {:?}", T::N, p, bg)]);
                        return;
                    }
                    Err(e) => {
                        ctx.fail(format!("restoring the first {} of {} bytes of a save (format {}) panicked: {}", n, b.len(), format, e), vec![format!("{} p={} {:?}", T::N, p, bg)]);
                        return;
                    }
                }
                if format < 2 && (n < 200 || n % (step * 16) == 0) {
                    ctx.evaluations += 1;
                    match guard(|| x.save_to(format, Failing { left: n, err: n & 1 == 0 })) {
                        Ok(false) => (),
                        r => {
                            ctx.fail(format!("saving to a writer that fails after {} of {} bytes: {:?}", n, b.len(), r), vec![format!("{} p={} {:?}", T::N, p, bg)]);
                            return;
                        }
                    }
                }
            }
        }
        let want = {
            let mut h = hs.clone();
            h.push(mk(T::K, p, 3, 3, 1));
            est_set(T::K, p, &h)
        };
        let got = x.dup().cnt();
        if !ctx.expect(got, &want, || ("count after failed saves".into(), vec![format!("{} p={} {:?}", T::N, p, bg)])) {
            return;
        }
    }
}

/// The failures of `Faults`, at every moment of a long stream.
fn events<T: F>(s: Vec<u64>) -> Vec<Event<T>> {
    vec![
        ("a failing insert", Box::new(move |mut x: T, i| {
            // every call in turn, by every entry point, of a value of the stream or beyond
            let h = if i % 7 == 3 { mix(!(i as u64)) } else { s[(i + i % 5) % s.len()] };
            let before = x.dup();
            let (r, fired) = faulty(i as i64 % CALLS, || x.ins(i % 3, h));
            match (r, fired) {
                (None, true) => Ok(x),
                // an implementation that makes fewer calls has inserted the value
                (Some(_), false) => Ok(before),
                (r, f) => Err(format!("insert returned: {}, fault reached: {}", r.is_some(), f)),
            }
        })),
        ("a failing clone", Box::new(|x: T, _| match faulty(0, || x.dup()) {
            (None, true) => Ok(x),
            (r, f) => Err(format!("clone returned: {}, fault reached: {}", r.is_some(), f)),
        })),
        ("a failing save", Box::new(|x: T, i| {
            let size = x.save()[i & 1].len();
            if x.save_to(i & 1, Failing { left: i * 7 % size, err: i & 2 == 0 }) {
                return Err("a failed save reported success".into());
            }
            Ok(x)
        })),
        ("a failing restore", Box::new(|x: T, i| {
            let b = &x.save()[i % 3];
            if T::load(i % 3, &b[..b.len() * (i % 11) / 11]).is_ok() {
                return Err("an incomplete save was restored".into());
            }
            Ok(x)
        })),
    ]
}
fn moments<T: F>(ctx: &mut Ctx, p: u8, which: usize, cost: usize) {
    let s = stream(T::K, p, which);
    let (every, horizon, periods) = bounds(s.len(), cost);
    Line { what: format!("{} p={} stream {}", T::N, p, STREAMS[which]), stream: &s, fresh: &|| T::mk(p), ins: &|x, h| x.ins(0, h), est: &|x| x.dup().cnt(), dup: &|x| x.dup(), events: &events(s.clone()) }.run(ctx, every, horizon, &periods)
}

/// Tens of thousands of failing calls on one sketch.
fn again<T: F>(ctx: &mut Ctx, p: u8) {
    let al = alphabet(T::K, p, 5);
    for bg in [Bg::Empty, Bg::Near, Bg::Full] {
        let base = background(T::K, p, bg);
        let fresh = || {
            let mut s = T::mk(p);
            for &h in &base {
                s.ins(0, h);
            }
            s
        };
        for n in 0..CALLS {
            for by in 0..2 {
                let mut x = fresh();
                let mut y = fresh();
                for i in 0..super::endure::LONG {
                    let (r, fired) = faulty(n, || x.ins(by, al[i % 5]));
                    if r.is_some() || !fired {
                        ctx.fail(format!("{} p={}: a failure in call {} of an insert was not reported", T::N, p, n), vec![format!("time {}", i + 1)]);
                        return;
                    }
                }
                beat();
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += super::endure::LONG as u64;
                for k in 0..=al.len() {
                    let want = y.dup().cnt();
                    if !ctx.expect(x.dup().cnt(), &[want], || (format!("{} p={} from={:?}: {} inserts failing in call {}, then {} that do not", T::N, p, bg, super::endure::LONG, n, k), vec![])) {
                        return;
                    }
                    if k < al.len() {
                        x.ins(0, al[k]);
                        y.ins(0, al[k]);
                    }
                }
            }
        }
    }
}

fn all<T: F>(v: &mut Vec<Case>, pmax: u8, th: bool) {
    for p in (4..=pmax).rev() {
        for bg in BGS {
            let n = match (p, th) {
                (..=8, false) => 5,
                (..=10, false) => 4,
                (..=12, false) => 2,
                (_, false) => 1,
                (..=8, true) => 7,
                (..=10, true) => 5,
                (..=13, true) => 3,
                (_, true) => 2,
            };
            v.push(search(format!("{} p={} from={:?} failing calls, alphabet={}", T::N, p, bg, n), move |c| closure(&Faults::<T>::new(p, bg, n), c, 200_000)));
            if bg == Bg::Empty {
                if p == 4 || th && p <= 8 {
                    v.push(case(format!("{} p={} failures repeated {} times", T::N, p, super::endure::LONG), move |c| again::<T>(c, p)));
                }
                for w in 0..STREAMS.len() {
                    let cost = if th { 5_000_000 } else { 700_000 } >> p.saturating_sub(14);
                    v.push(case(format!("{} p={} failures at every moment of stream {}", T::N, p, STREAMS[w]), move |c| moments::<T>(c, p, w, cost)));
                }
            }
            let a = match (p, th) {
                (..=8, _) => 1 << 20,
                (..=10, false) => 2000,
                (..=11, true) => 1 << 20,
                (..=14, false) => 200,
                (_, true) => 1000,
                (_, false) => 50,
            };
            v.push(case(format!("{} p={} from={:?} torn saves", T::N, p, bg), move |c| torn::<T>(c, p, bg, a)));
        }
    }
}
pub fn p23(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    all::<HyperLogLogPlus<V, FB>>(&mut v, 18, th);
    all::<HyperLogLogPF<V, FB>>(&mut v, 16, th);
    v
}
