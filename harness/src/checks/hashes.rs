//! P17: values are identified by the caller's hash, through every entry point.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use hyperloglogplus::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hash, Hasher};

/// SipHash with fixed keys.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SipB;
impl BuildHasher for SipB {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::new()
    }
}

/// Keyed; distinguishes every way in which a value may be fed to a hasher.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyB {
    key: u64,
}
struct KeyH(u64);
impl KeyH {
    fn put(&mut self, tag: u64, v: u64) {
        self.0 = (self.0.rotate_left(17) ^ v ^ (tag << 56)).wrapping_mul(0x9FB21C651E98DF25);
        self.0 ^= self.0 >> 31;
    }
}
impl BuildHasher for KeyB {
    type Hasher = KeyH;
    fn build_hasher(&self) -> KeyH {
        KeyH(self.key)
    }
}
impl Hasher for KeyH {
    fn write(&mut self, b: &[u8]) {
        self.put(1, b.len() as u64);
        for &x in b {
            self.put(2, x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(3, i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.put(4, i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(5, i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(6, i)
    }
    fn write_u128(&mut self, i: u128) {
        self.put(7, i as u64);
        self.put(7, (i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(8, i as u64)
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_of<B: BuildHasher, V: Hash + ?Sized>(b: &B, v: &V) -> u64 {
    let mut h = b.build_hasher();
    v.hash(&mut h);
    h.finish()
}

/// A sketch of any value type and builder.
trait Any: Sized {
    const KIND: Kind;
    type B: BuildHasher + Clone;
    fn make(p: u8, b: Self::B) -> Self;
    fn cnt(&mut self) -> f64;
    fn put_any<V: Hash + ?Sized>(&mut self, v: &V);
    /// merged into a reference sketch of raw hashes
    fn union(&self, p: u8, hs: &[u64]) -> f64;
    fn start(&mut self, p: u8, hs: &[u64]);
}
impl<H: Hash + ?Sized, B: BuildHasher + Clone> Any for HyperLogLogPlus<H, B> {
    const KIND: Kind = Kind::Plus;
    type B = B;
    fn make(p: u8, b: B) -> Self {
        HyperLogLogPlus::new(p, b).expect("IMPL: new")
    }
    fn cnt(&mut self) -> f64 {
        HyperLogLog::count(self)
    }
    fn put_any<V: Hash + ?Sized>(&mut self, v: &V) {
        self.insert_any(v)
    }
    fn union(&self, p: u8, hs: &[u64]) -> f64 {
        let mut r: Plus = build(p, hs);
        r.merge(self).expect("IMPL: merge");
        r.count()
    }
    fn start(&mut self, p: u8, hs: &[u64]) {
        self.merge(&build::<Plus>(p, hs)).expect("IMPL: merge")
    }
}
impl<H: Hash + ?Sized, B: BuildHasher + Clone> Any for HyperLogLogPF<H, B> {
    const KIND: Kind = Kind::Pf;
    type B = B;
    fn make(p: u8, b: B) -> Self {
        HyperLogLogPF::new(p, b).expect("IMPL: new")
    }
    fn cnt(&mut self) -> f64 {
        HyperLogLog::count(self)
    }
    fn put_any<V: Hash + ?Sized>(&mut self, v: &V) {
        self.insert_any(v)
    }
    fn union(&self, p: u8, hs: &[u64]) -> f64 {
        let mut r: Pf = build(p, hs);
        r.merge(self).expect("IMPL: merge");
        r.count()
    }
    fn start(&mut self, p: u8, hs: &[u64]) {
        self.merge(&build::<Pf>(p, hs)).expect("IMPL: merge")
    }
}

struct Item<S: Any> {
    name: String,
    hash: Option<u64>,
    apply: Box<dyn Fn(&mut S)>,
}

/// Every sequence of up to `depth` items, each replayed from the start (a sketch of
/// an unsized value type cannot be cloned).
fn seqs<S: Any>(ctx: &mut Ctx, p: u8, b: &S::B, items: &[Item<S>], from: &[u64], path: &mut Vec<usize>, depth: usize, ty: &str) -> bool {
    beat();
    let replay = || {
        let mut s = S::make(p, b.clone());
        if !from.is_empty() {
            s.start(p, from);
        }
        for &i in path.iter() {
            (items[i].apply)(&mut s);
        }
        s
    };
    let mut hs = from.to_vec();
    hs.extend(path.iter().filter_map(|&i| items[i].hash));
    let want = est_set(S::KIND, p, &hs);
    let names: Vec<&str> = path.iter().map(|&i| items[i].name.as_str()).collect();
    let tr = |m: &str| (m.to_string(), vec![format!("{} p={} {}: {}", ty, p, if from.is_empty() { "" } else { "(filled)" }, names.join(" "))]);
    ctx.states += 1;
    ctx.transitions += path.len() as u64;
    if !ctx.expect(replay().cnt(), &want, || tr("count")) {
        return false;
    }
    // nothing but these hashes is in there
    let u = replay().union(p, &hs);
    if !ctx.expect(u, &want, || tr("merged into a sketch that received the expected hashes")) {
        return false;
    }
    if depth > 0 {
        for i in 0..items.len() {
            path.push(i);
            let ok = seqs(ctx, p, b, items, from, path, depth - 1, ty);
            path.pop();
            if !ok {
                return false;
            }
        }
    }
    ctx.traces += 1;
    true
}

/// From an empty sketch and from one already holding values (HyperLogLog++: dense).
fn drive<S: Any>(ctx: &mut Ctx, ps: &[u8], b: &S::B, items: &[Item<S>], depth: usize, ty: &str) {
    for &p in ps {
        if !seqs(ctx, p, b, items, &[], &mut vec![], depth, ty) {
            return;
        }
        if p <= 6 && !seqs(ctx, p, b, items, &background(S::KIND, p, Bg::Just), &mut vec![], depth.min(2), ty) {
            return;
        }
    }
}

/// Items for a list of values, by every entry point.
macro_rules! items {
    ($S:ty, $b:expr, owned[$($v:expr),*], borrowed[$($w:expr),*], other[$($x:expr),*], clone $cl:tt, serde $sd:tt) => {{
        let b = &$b;
        let mut v: Vec<Item<$S>> = vec![];
        $(
            { let a = $v; let h = hash_of(b, &a); let n = stringify!($v);
              let c = a.clone();
              v.push(Item { name: format!("insert(&{});", n), hash: Some(h), apply: Box::new(move |s| HyperLogLog::insert(s, &c)) });
              let c = a.clone();
              #[allow(deprecated)]
              v.push(Item { name: format!("add(&{});", n), hash: Some(h), apply: Box::new(move |s| HyperLogLog::add(s, &c)) });
              v.push(Item { name: format!("insert_any(&{});", n), hash: Some(h), apply: Box::new(move |s| s.insert_any(&a)) });
            }
        )*
        $(
            { let h = hash_of(b, $w); let n = stringify!($w);
              v.push(Item { name: format!("insert({});", n), hash: Some(h), apply: Box::new(move |s| HyperLogLog::insert(s, $w)) });
              v.push(Item { name: format!("insert_any({});", n), hash: Some(h), apply: Box::new(move |s| s.insert_any($w)) });
            }
        )*
        $(
            { let h = hash_of(b, &$x); let n = stringify!($x);
              v.push(Item { name: format!("insert_any(&{});", n), hash: Some(h), apply: Box::new(move |s| s.insert_any(&$x)) });
            }
        )*
        items!(@clone v, $S, $cl);
        items!(@serde v, $S, $sd);
        v
    }};
    (@serde $v:ident, $S:ty, yes) => {
        $v.push(Item { name: "(save and restore)".into(), hash: None, apply: Box::new(|s: &mut $S| {
            let t = serde_json::to_string(&*s).expect("IMPL: to json");
            *s = serde_json::from_str(&t).expect("IMPL: from json");
        }) });
    };
    (@serde $v:ident, $S:ty, no) => {};
    (@clone $v:ident, $S:ty, yes) => {
        $v.push(Item { name: "let s = s.clone();".into(), hash: None, apply: Box::new(|s: &mut $S| { let c = s.clone(); *s = c; }) });
    };
    (@clone $v:ident, $S:ty, no) => {};
}

macro_rules! both {
    ($cases:ident, $name:expr, $H:ty, $depth:expr, clone $cl:tt, owned[$($v:expr),*], borrowed[$($w:expr),*], other[$($x:expr),*]) => {{
        let depth = $depth;
        $cases.push(case(format!("{} HyperLogLogPlus", $name), move |c| {
            type S1 = HyperLogLogPlus<$H, SipB>;
            drive::<S1>(c, &[18, 4], &SipB, &items!(S1, SipB, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde yes), depth, concat!("HyperLogLogPlus<", stringify!($H), ", SipHash>"));
            type S2 = HyperLogLogPlus<$H, KeyB>;
            for key in [1u64, 0xdeadbeef12345678] {
                let b = KeyB { key };
                drive::<S2>(c, &[14, 5], &b, &items!(S2, b, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde yes), depth, concat!("HyperLogLogPlus<", stringify!($H), ", keyed>"));
            }
            type S3 = HyperLogLogPlus<$H, RandomState>;
            let b = RandomState::new();
            drive::<S3>(c, &[16], &b, &items!(S3, b, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde no), depth.min(2), concat!("HyperLogLogPlus<", stringify!($H), ", RandomState>"));
        }));
        $cases.push(case(format!("{} HyperLogLogPF", $name), move |c| {
            type S1 = HyperLogLogPF<$H, SipB>;
            drive::<S1>(c, &[10, 4], &SipB, &items!(S1, SipB, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde yes), depth, concat!("HyperLogLogPF<", stringify!($H), ", SipHash>"));
            type S2 = HyperLogLogPF<$H, KeyB>;
            for key in [1u64, 0xdeadbeef12345678] {
                let b = KeyB { key };
                drive::<S2>(c, &[8, 5], &b, &items!(S2, b, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde yes), depth, concat!("HyperLogLogPF<", stringify!($H), ", keyed>"));
            }
            type S3 = HyperLogLogPF<$H, RandomState>;
            let b = RandomState::new();
            drive::<S3>(c, &[9], &b, &items!(S3, b, owned[$($v),*], borrowed[$($w),*], other[$($x),*], clone $cl, serde no), depth.min(2), concat!("HyperLogLogPF<", stringify!($H), ", RandomState>"));
        }));
    }};
}

#[derive(Clone, Hash, PartialEq, Eq)]
struct Rec {
    a: u8,
    b: String,
    c: Option<(i64, [u16; 2])>,
}
/// Hashes only its key.
#[derive(Clone, Copy)]
struct Part {
    key: u32,
    _rest: u32,
}
impl Hash for Part {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key.hash(h)
    }
}
/// Hashes nothing at all.
#[derive(Clone, Copy)]
struct Nothing;
impl Hash for Nothing {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
/// Feeds the hasher several times.
#[derive(Clone, Copy)]
struct Many(u64);
impl Hash for Many {
    fn hash<H: Hasher>(&self, h: &mut H) {
        for i in 0..5u8 {
            h.write_u8(i);
            h.write_u64(self.0);
            h.write(b"many");
        }
    }
}

/// Values of every size: each through each entry point, pairwise with the value of
/// the next size, for unsized, owned, borrowed and inline (array) forms.
fn sizes<S1, S2, S3, S4>(ctx: &mut Ctx, ps: &[u8], b: &S1::B, top: usize, ty: &str)
where
    S1: Any + HyperLogLog<str>,
    S2: Any<B = S1::B> + HyperLogLog<[u8]>,
    S3: Any<B = S1::B> + HyperLogLog<String>,
    S4: Any<B = S1::B> + HyperLogLog<Vec<u64>>,
{
    fn put<S: Any + HyperLogLog<V>, V: Hash + ?Sized + 'static>(b: &S::B, v: &'static V, n: usize) -> Vec<Item<S>> {
        let hash = Some(hash_of(b, v));
        #[allow(deprecated)]
        let r = vec![
            Item { name: format!("insert(size {});", n), hash, apply: Box::new(move |s: &mut S| HyperLogLog::insert(s, v)) },
            Item { name: format!("insert_any(size {});", n), hash, apply: Box::new(move |s: &mut S| s.put_any(v)) },
            Item { name: format!("add(size {});", n), hash, apply: Box::new(move |s: &mut S| HyperLogLog::add(s, v)) },
        ];
        r
    }
    fn any<S: Any + HyperLogLog<W>, V: Hash + 'static, W: Hash + ?Sized>(b: &S::B, v: V, n: usize) -> Item<S> {
        Item { name: format!("insert_any(inline {});", n), hash: Some(hash_of(b, &v)), apply: Box::new(move |s: &mut S| s.put_any(&v)) }
    }
    let text: &'static str = Box::leak((0..top + 2).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect::<String>().into_boxed_str());
    let words: Vec<u64> = (0..top as u64 + 2).map(|i| i.wrapping_mul(0x9E3779B97F4A7C15)).collect();
    for n in 0..=top {
        let (a, z) = (&text[..n], &text[1..n + 2]);
        let mut v = put::<S1, str>(b, a, n);
        v.extend(put::<S1, str>(b, z, n + 1));
        drive::<S1>(ctx, ps, b, &v, 2, &format!("{} str", ty));
        let mut v = put::<S2, [u8]>(b, a.as_bytes(), n);
        v.extend(put::<S2, [u8]>(b, z.as_bytes(), n + 1));
        drive::<S2>(ctx, ps, b, &v, 2, &format!("{} [u8]", ty));
        let own = |x: &str| -> &'static String { Box::leak(Box::new(x.to_string())) };
        let mut v = put::<S3, String>(b, own(a), n);
        v.extend(put::<S3, String>(b, own(z), n + 1));
        v.push(Item { name: format!("insert_any(&str, size {});", n), hash: Some(hash_of(b, a)), apply: Box::new(move |s: &mut S3| s.put_any(a)) });
        drive::<S3>(ctx, ps, b, &v, 2, &format!("{} String", ty));
        let own = |x: &[u64]| -> &'static Vec<u64> { Box::leak(Box::new(x.to_vec())) };
        let mut v = put::<S4, Vec<u64>>(b, own(&words[..n]), n);
        v.extend(put::<S4, Vec<u64>>(b, own(&words[1..n + 2]), n + 1));
        drive::<S4>(ctx, ps, b, &v, 2, &format!("{} Vec<u64>", ty));
    }
    // values of each size in place
    macro_rules! inline {
        ($($n:literal)*) => {{
            let mut v: Vec<Item<S1>> = vec![];
            $(
                v.push(any::<S1, [u8; $n], str>(b, [0x5a; $n], $n));
                v.push(any::<S1, ([u8; $n], u8), str>(b, ([0x5a; $n], 1), $n + 1));
                v.push(any::<S1, [u64; $n], str>(b, [0xc3; $n], 8 * $n));
            )*
            v
        }};
    }
    let v = inline!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 24 25 31 32 33 40 48 63 64 65 96 127 128 129 255 256 257 1000 4096);
    // singly, and each with its neighbour
    drive::<S1>(ctx, ps, b, &v, 1, &format!("{} inline", ty));
    for w in 0..v.len() - 1 {
        drive::<S1>(ctx, &ps[..1], b, &v[w..w + 2], 2, &format!("{} inline", ty));
    }
}

/// Hash values made of special halves, by every entry point: alone into an empty sketch and
/// into one with all registers set, and one after the other, the entry points in turn.
fn raw<T: Sk>(ctx: &mut Ctx, p: u8, hs: &[u64], entries: &[(&str, fn(&mut T, u64))]) {
    let k = T::KIND;
    let m = 1usize << p;
    let all: Vec<usize> = (0..m).collect();
    let mut seed: Vec<u64> = if k == Kind::Plus { dense_seed(p, &all) } else { vec![] };
    seed.extend((0..m).map(|i| mk(k, p, i, 1, 0)));
    let full: T = build(p, &seed);
    let regs = regs_of(k, p, seed.iter().copied());
    let hist = Hist::of_regs(&regs);
    let fresh = T::new_(p);
    let raised = |hist: &Hist, regs: &[u8], h: u64| -> (Hist, usize, u8) {
        let (i, r) = place(k, p, h);
        let mut x = hist.clone();
        if r > regs[i] {
            x.shift(regs[i], r);
        }
        (x, i, r.max(regs[i]))
    };
    for (n, &h) in hs.iter().enumerate() {
        if n % 64 == 0 {
            beat();
        }
        let want = [dense(k, p, &raised(&hist, &regs, h).0), est_set(k, p, &[h])];
        for (name, put) in entries {
            for (b, base) in [&full, &fresh].into_iter().enumerate() {
                let mut s = base.clone();
                put(&mut s, h);
                ctx.states += 1;
                ctx.transitions += 1;
                ctx.traces += 1;
                if !ctx.expect(s.cnt(), &want[b], || (format!("{} of a value with hash {:#018x}", name, h), vec![format!("{} p={} {}", T::TY, p, if b == 0 { "all registers at rank 1" } else { "empty" })])) {
                    return;
                }
            }
        }
    }
    for shift in 0..entries.len() {
        let (mut s, mut hist, mut regs) = (full.clone(), hist.clone(), regs.clone());
        for (n, &h) in hs.iter().enumerate() {
            let (name, put) = entries[(n + shift) % entries.len()];
            put(&mut s, h);
            let (x, i, r) = raised(&hist, &regs, h);
            hist = x;
            regs[i] = r;
            ctx.transitions += 1;
            if p > 8 && n % 16 != 0 {
                continue;
            }
            beat();
            ctx.traces += 1;
            if !ctx.expect(s.cnt(), &dense(k, p, &hist), || (format!("{} of a value with hash {:#018x}, after {} others", name, h, n), vec![format!("{} p={} special halves in ascending order, entry points in turn", T::TY, p)])) {
                return;
            }
        }
    }
}

pub fn p17(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let d = if th { 4 } else { 3 };
    let mut v = vec![];
    #[allow(deprecated)]
    for p in 4..=if th { 18u8 } else { 12 } {
        for part in 0..4usize {
            let hs = move || -> Vec<u64> { super::routes::special(true).into_iter().skip(part).step_by(4).collect() };
            v.push(case(format!("HyperLogLogPlus p={} hash values of special halves, part {}", p, part), move |c| {
                raw::<Plus>(c, p, &hs(), &[("insert", |s, h| s.insert(&h)), ("insert_any", |s, h| s.insert_any(&h)), ("add", |s, h| s.add(&h))])
            }));
            if p <= 16 {
                v.push(case(format!("HyperLogLogPF p={} hash values of special halves, part {}", p, part), move |c| {
                    raw::<Pf>(c, p, &hs(), &[("insert", |s, h| s.insert(&h)), ("insert_any", |s, h| s.insert_any(&h)), ("add", |s, h| s.add(&h))])
                }));
            }
        }
    }
    both!(v, "u64", u64, d, clone yes, owned[0u64, 1u64, u64::MAX], borrowed[], other[7u8, 1u32]);
    both!(v, "u32", u32, d, clone yes, owned[0u32, 12345u32], borrowed[], other[12345u64, "12345"]);
    both!(v, "u8", u8, d, clone yes, owned[0u8, 255u8], borrowed[], other[0u16]);
    both!(v, "i64", i64, d, clone yes, owned[-1i64, i64::MIN], borrowed[], other[-1i32]);
    both!(v, "u128", u128, d, clone yes, owned[1u128, 1u128 << 64], borrowed[], other[1u64]);
    both!(v, "usize", usize, d, clone yes, owned[1usize, usize::MAX], borrowed[], other[1u64]);
    both!(v, "bool and char", char, d, clone yes, owned['a', '\u{1F600}'], borrowed[], other[true, 97u32]);
    both!(v, "unit", (), d, clone yes, owned[()], borrowed[], other[1u8, ""]);
    both!(v, "String", String, d, clone yes, owned[String::from("a"), String::from("")], borrowed["a", "b", ""], other["a", b"a"]);
    both!(v, "str", str, d, clone no, owned[], borrowed["a", "b", ""], other[String::from("a"), 'a']);
    both!(v, "&str", &'static str, d, clone yes, owned["x", "yy"], borrowed[], other[String::from("x")]);
    both!(v, "Vec<u8>", Vec<u8>, d, clone yes, owned[vec![1u8, 2], vec![]], borrowed[&[1u8, 2][..], &[2u8][..]], other[[1u8, 2]]);
    both!(v, "[u8]", [u8], d, clone no, owned[], borrowed[&[1u8, 2][..], b"".as_slice(), b"ab".as_slice()], other[vec![1u8, 2], "ab"]);
    both!(v, "Vec<u32>", Vec<u32>, d, clone yes, owned[vec![1u32, 2]], borrowed[&[1u32, 2][..], &[1u32][..]], other[(1u32, 2u32)]);
    both!(v, "[u32]", [u32], d, clone no, owned[], borrowed[&[1u32, 2][..], &[2u32, 1][..]], other[vec![2u32, 1]]);
    both!(v, "array", [u16; 3], d, clone yes, owned[[1u16, 2, 3], [3u16, 2, 1]], borrowed[&[1u16, 2, 3][..]], other[(1u16, 2u16, 3u16)]);
    both!(v, "tuple", (u8, String), d, clone yes, owned[(1u8, "q".to_string()), (2u8, "q".to_string())], borrowed[], other[(1u8, "q")]);
    both!(v, "Option", Option<u32>, d, clone yes, owned[Some(0u32), None], borrowed[], other[0u32]);
    both!(v, "Box<str>", Box<str>, d, clone yes, owned[Box::<str>::from("z")], borrowed["z", "w"], other[std::rc::Rc::<str>::from("w")]);
    both!(v, "struct", Rec, d, clone yes, owned[Rec { a: 1, b: "r".into(), c: None }, Rec { a: 1, b: "r".into(), c: Some((-5, [1, 2])) }], borrowed[], other[1u8]);
    both!(v, "partly hashed", Part, d, clone yes, owned[Part { key: 1, _rest: 1 }, Part { key: 1, _rest: 2 }, Part { key: 2, _rest: 1 }], borrowed[], other[1u32]);
    both!(v, "hashing nothing", Nothing, d, clone yes, owned[Nothing], borrowed[], other[1u8]);
    both!(v, "hashing repeatedly", Many, d, clone yes, owned[Many(3), Many(4)], borrowed[], other[3u64]);
    both!(v, "Path", std::path::Path, d, clone no, owned[], borrowed[std::path::Path::new("/a/b"), std::path::Path::new("/a//b")], other[std::path::PathBuf::from("/a/b")]);
    both!(v, "PathBuf", std::path::PathBuf, d, clone yes, owned[std::path::PathBuf::from("/a")], borrowed[std::path::Path::new("/a"), std::path::Path::new("/b")], other["/a"]);
    both!(v, "nested", Vec<Vec<u8>>, d, clone yes, owned[vec![vec![1u8], vec![2]], vec![vec![1u8, 2]]], borrowed[], other[vec![1u8, 2]]);
    let top = if th { 600 } else { 140 };
    v.push(case("HyperLogLogPlus values of every size, keyed".to_string(), move |c| {
        let b = KeyB { key: 7 };
        sizes::<HyperLogLogPlus<str, KeyB>, HyperLogLogPlus<[u8], KeyB>, HyperLogLogPlus<String, KeyB>, HyperLogLogPlus<Vec<u64>, KeyB>>(c, &[10, 4], &b, top, "HyperLogLogPlus")
    }));
    v.push(case("HyperLogLogPlus values of every size, SipHash".to_string(), move |c| {
        sizes::<HyperLogLogPlus<str, SipB>, HyperLogLogPlus<[u8], SipB>, HyperLogLogPlus<String, SipB>, HyperLogLogPlus<Vec<u64>, SipB>>(c, &[8, 5], &SipB, top, "HyperLogLogPlus")
    }));
    v.push(case("HyperLogLogPF values of every size, keyed".to_string(), move |c| {
        let b = KeyB { key: 7 };
        sizes::<HyperLogLogPF<str, KeyB>, HyperLogLogPF<[u8], KeyB>, HyperLogLogPF<String, KeyB>, HyperLogLogPF<Vec<u64>, KeyB>>(c, &[10, 4], &b, top, "HyperLogLogPF")
    }));
    v.push(case("HyperLogLogPF values of every size, SipHash".to_string(), move |c| {
        sizes::<HyperLogLogPF<str, SipB>, HyperLogLogPF<[u8], SipB>, HyperLogLogPF<String, SipB>, HyperLogLogPF<Vec<u64>, SipB>>(c, &[8, 5], &SipB, top, "HyperLogLogPF")
    }));
    v
}
