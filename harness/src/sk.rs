//! The code under test, seen through its public API only, with a hasher that
//! lets the harness choose every hash bit.
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF, HyperLogLogPlus};
use serde::{Deserialize, Serialize};
use std::fmt::{Debug, Write};
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct PassB;

pub struct PassH(u64);

impl Hasher for PassH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!("pass-through hasher takes u64 only")
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}

impl BuildHasher for PassB {
    type Hasher = PassH;
    fn build_hasher(&self) -> PassH {
        PassH(0)
    }
}

pub type Pf = HyperLogLogPF<u64, PassB>;
pub type Plus = HyperLogLogPlus<u64, PassB>;

#[derive(Serialize, Deserialize)]
struct Outer<T> {
    id: u32,
    #[serde(flatten)]
    sketch: T,
    name: String,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
enum Tagged<T> {
    Sketch(T),
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Either<T> {
    Other { something: u8 },
    One(T),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Pf,
    Plus,
}

pub trait Sk: Clone + Debug + Sized + 'static {
    const KIND: Kind;
    const TY: &'static str;
    const PMIN: u8 = 4;
    const PMAX: u8;
    /// bits of the hash that matter
    const BITS: u32;
    fn try_new(p: u8) -> Result<Self, HyperLogLogError>;
    fn new_(p: u8) -> Self {
        match Self::try_new(p) {
            Ok(s) => s,
            Err(e) => panic!("IMPL: new({}) failed: {:?}", p, e),
        }
    }
    fn ins(&mut self, h: u64);
    fn cnt(&mut self) -> f64;
    fn mrg(&mut self, o: &Self) -> Result<(), HyperLogLogError>;
    fn json(&self) -> Self;
    fn value(&self) -> Self;
    fn cbor(&self) -> Self;
    fn pos(&self) -> Self;
    /// as a part of other serialized values
    fn embedded(&self) -> Self;
    /// restored into `place`
    fn into_place(&self, place: &mut Self, format: usize);
    fn json_len(&self) -> usize;
    /// estimate without touching the object itself
    fn est(&self) -> f64 {
        self.clone().cnt()
    }
    fn key(&self) -> u128 {
        let mut w = HW(0xcbf29ce484222325, 0x9e3779b97f4a7c15);
        write!(w, "{:?}", self).unwrap();
        w.finish()
    }
    /// Like `key`, but blind to the iteration order of hash sets, which a
    /// deserialized set (new random state) need not share with the original.
    fn unordered_key(&self) -> u128 {
        unordered_key(self)
    }
}
pub fn unordered_key(x: &impl Debug) -> u128 {
    let mut w = UW { st: vec![], cur: 0, acc: 0, brace: false };
    write!(w, "{:?}", x).unwrap();
    w.item();
    ((w.acc as u128) << 64) | mix(w.acc ^ 0x5bd1e995) as u128
}

#[inline]
pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^ x >> 32
}
/// Hash of Debug text in which the comma separated items of {..} commute.
struct UW {
    st: Vec<(u64, u64, bool)>,
    cur: u64,
    acc: u64,
    brace: bool,
}
impl UW {
    fn item(&mut self) {
        if self.brace {
            self.acc = self.acc.wrapping_add(mix(self.cur ^ 0x9e3779b97f4a7c15));
        } else {
            self.acc = mix(self.acc.rotate_left(13) ^ self.cur);
        }
        self.cur = 0;
    }
}
impl Write for UW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            match b {
                b'{' | b'[' | b'(' => {
                    self.st.push((self.cur, self.acc, self.brace));
                    self.cur = 0;
                    self.acc = b as u64;
                    self.brace = b == b'{';
                }
                b'}' | b']' | b')' => {
                    self.item();
                    let inner = self.acc;
                    let (c, a, br) = self.st.pop().unwrap_or((0, 0, false));
                    self.cur = mix(c ^ inner.rotate_left(7));
                    self.acc = a;
                    self.brace = br;
                }
                b',' => self.item(),
                b' ' | b'\n' => {}
                _ => self.cur = self.cur.rotate_left(9).wrapping_mul(0x9FB21C651E98DF25) ^ b as u64,
            }
        }
        Ok(())
    }
}

macro_rules! imp {
    ($t:ident, $k:expr, $n:expr, $pmax:expr, $bits:expr) => {
        impl Sk for $t {
            const KIND: Kind = $k;
            const TY: &'static str = $n;
            const PMAX: u8 = $pmax;
            const BITS: u32 = $bits;
            fn try_new(p: u8) -> Result<Self, HyperLogLogError> {
                $t::new(p, PassB)
            }
            #[inline]
            fn ins(&mut self, h: u64) {
                HyperLogLog::insert(self, &h)
            }
            #[inline]
            fn cnt(&mut self) -> f64 {
                self.count()
            }
            fn mrg(&mut self, o: &Self) -> Result<(), HyperLogLogError> {
                self.merge(o)
            }
            fn json(&self) -> Self {
                let s = serde_json::to_string(self).expect("IMPL: to json");
                serde_json::from_str(&s).expect("IMPL: from json")
            }
            fn value(&self) -> Self {
                let s = serde_json::to_value(self).expect("IMPL: to value");
                serde_json::from_value(s).expect("IMPL: from value")
            }
            fn cbor(&self) -> Self {
                let s = serde_cbor::to_vec(self).expect("IMPL: to cbor");
                serde_cbor::from_slice(&s).expect("IMPL: from cbor")
            }
            fn pos(&self) -> Self {
                let s = crate::pos::to_vec(self).expect("IMPL: to a positional binary format");
                crate::pos::from_slice(&s).expect("IMPL: from a positional binary format")
            }
            fn embedded(&self) -> Self {
                let s = serde_json::to_string(&Outer { id: 7, sketch: self.clone(), name: "n".into() }).expect("IMPL: to flattened JSON");
                let x: Outer<Self> = serde_json::from_reader(s.as_bytes()).expect("IMPL: from flattened JSON");
                let s = serde_json::to_string(&Tagged::Sketch(x.sketch)).expect("IMPL: to tagged JSON");
                let Tagged::Sketch(x) = serde_json::from_str::<Tagged<Self>>(&s).expect("IMPL: from tagged JSON");
                let s = serde_cbor::to_vec(&vec![Either::One(x)]).expect("IMPL: to CBOR in an untagged enum");
                match serde_cbor::from_slice::<Vec<Either<Self>>>(&s).expect("IMPL: from CBOR in an untagged enum").pop() {
                    Some(Either::One(x)) => x,
                    _ => panic!("IMPL: the sketch in an untagged enum is lost"),
                }
            }
            fn into_place(&self, place: &mut Self, format: usize) {
                match format {
                    0 => {
                        let s = serde_json::to_string(self).expect("IMPL: to json");
                        Deserialize::deserialize_in_place(&mut serde_json::Deserializer::from_str(&s), place).expect("IMPL: from json in place");
                    }
                    _ => {
                        let s = serde_cbor::to_vec(self).expect("IMPL: to cbor");
                        Deserialize::deserialize_in_place(&mut serde_cbor::Deserializer::from_slice(&s), place).expect("IMPL: from cbor in place");
                    }
                }
            }
            fn json_len(&self) -> usize {
                serde_json::to_string(self).expect("IMPL: to json").len()
            }
        }
    };
}
imp!(Pf, Kind::Pf, "HyperLogLogPF", 16, 32);
imp!(Plus, Kind::Plus, "HyperLogLogPlus", 18, 64);

/// 128-bit hash of a stream of text: the identity of an implementation state.
pub struct HW(u64, u64);
impl HW {
    pub fn new() -> Self {
        HW(0xcbf29ce484222325, 0x9e3779b97f4a7c15)
    }
    #[inline]
    pub fn put(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9FB21C651E98DF25);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1.rotate_left(23) ^ v).wrapping_mul(0xD6E8FEB86659FD93);
        self.1 ^= self.1 >> 32;
    }
    pub fn finish(&self) -> u128 {
        ((self.0 as u128) << 64) | self.1 as u128
    }
}
impl Write for HW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.put(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let mut last = 1u64;
        for &c in it.remainder() {
            last = (last << 8) | c as u64;
        }
        self.put(last ^ ((b.len() as u64) << 56));
        Ok(())
    }
}
