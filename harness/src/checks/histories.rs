//! P01-P04, P13, P14: closure over operation histories.
use super::moments;
use crate::explore::*;
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;

/// Expected estimate per set (bit mask over `items`), from the canonical history,
/// itself checked against the published estimators.
pub struct Expect<T: Sk> {
    p: u8,
    items: Vec<Vec<u64>>,
    memo: RefCell<HashMap<u64, f64>>,
    _t: PhantomData<T>,
}
impl<T: Sk> Expect<T> {
    pub fn new(p: u8, items: Vec<Vec<u64>>) -> Self {
        Expect { p, items, memo: RefCell::new(HashMap::new()), _t: PhantomData }
    }
    pub fn get(&self, mask: u64) -> Result<f64, String> {
        if let Some(&e) = self.memo.borrow().get(&mask) {
            return Ok(e);
        }
        let mut hs: Vec<u64> = vec![];
        for (i, it) in self.items.iter().enumerate() {
            if mask >> i & 1 == 1 {
                hs.extend(it)
            }
        }
        let e = canonical::<T>(self.p, &hs);
        let want = est_set(T::KIND, self.p, &hs);
        if !close_any(e, &want) {
            return Err(format!(
                "set {:b} ({} values) inserted in ascending order: estimate {} but the reference model allows {:?}",
                mask,
                hs.len(),
                e,
                want
            ));
        }
        self.memo.borrow_mut().insert(mask, e);
        Ok(e)
    }
    pub fn check(&self, who: &str, s: &T, mask: u64) -> Result<f64, String> {
        let got = s.est();
        let want = self.get(mask)?;
        if !close(got, want) {
            return Err(format!("{}.count() is {} but a sketch of the same set gives {}", who, got, want));
        }
        Ok(got)
    }
}

fn ins_code(who: &str, h: u64) -> String {
    format!("{}.insert(&{:#018x}u64);", who, h)
}

// ---------------------------------------------------------------- P01, P02

struct One<T: Sk> {
    p: u8,
    bg: Bg,
    bgh: Vec<u64>,
    al: Vec<u64>,
    exp: Expect<T>,
}
impl<T: Sk> One<T> {
    fn new(p: u8, bg: Bg, n: usize) -> Self {
        let bgh = background(T::KIND, p, bg);
        let al = alphabet(T::KIND, p, n);
        let mut items: Vec<Vec<u64>> = al.iter().map(|&h| vec![h]).collect();
        items.push(bgh.clone());
        One { p, bg, bgh, al, exp: Expect::new(p, items) }
    }
}
impl<T: Sk> Model for One<T> {
    type S = (T, u64);
    fn init(&self) -> Vec<(T, u64)> {
        vec![(build(self.p, &self.bgh), 1 << self.al.len())]
    }
    fn init_code(&self) -> Vec<String> {
        bg_code(T::TY, "a", self.p, self.bg, self.bgh.len())
    }
    fn ops(&self) -> usize {
        self.al.len() + 1
    }
    fn apply(&self, s: &(T, u64), op: usize) -> Result<Option<(T, u64)>, String> {
        let mut n = s.clone();
        if op < self.al.len() {
            n.0.ins(self.al[op]);
            n.1 |= 1 << op;
        } else {
            let got = n.0.cnt();
            let want = self.exp.get(n.1)?;
            if !close(got, want) {
                return Err(format!("a.count() is {} but a sketch of the same set gives {}", got, want));
            }
        }
        Ok(Some(n))
    }
    fn check(&self, s: &(T, u64)) -> Result<Obs, String> {
        let v = self.exp.check("a", &s.0, s.1)?;
        Ok(Obs { values: [v, 0., 0.], n: 1, compared: 1 })
    }
    fn key(&self, s: &(T, u64)) -> u128 {
        s.0.unordered_key() ^ (s.1 as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)
    }
    fn op_code(&self, op: usize) -> String {
        if op < self.al.len() {
            ins_code("a", self.al[op])
        } else {
            "a.count();".into()
        }
    }
}

pub fn p01(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    for p in (4..=18u8).rev() {
        for bg in BGS {
            let n = match (p, tier) {
                (4..=9, Tier::Quick) => 8,
                (4..=9, _) => 11,
                (10..=12, Tier::Quick) => 5,
                (10..=12, _) => 8,
                (13..=15, Tier::Quick) => 4,
                (13..=15, _) => 6,
                (_, Tier::Quick) => 3,
                (_, _) => 5,
            };
            v.push(search(format!("plus p={} from={:?} alphabet={}", p, bg, n), move |c| {
                closure(&One::<Plus>::new(p, bg, n), c, 2_000_000)
            }));
        }
    }
    v.extend(moments::orders::<Plus>(tier == Tier::Thorough));
    v.extend(super::endure::inserting::<Plus>(tier == Tier::Thorough));
    v
}
pub fn p02(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    for p in (4..=16u8).rev() {
        for bg in [Bg::Empty, Bg::Near, Bg::Just, Bg::Mid, Bg::Full, Bg::Sat] {
            let n = match (p, tier) {
                (4..=10, Tier::Quick) => 8,
                (4..=10, _) => 10,
                (11..=13, Tier::Quick) => 6,
                (11..=13, _) => 9,
                (_, Tier::Quick) => 4,
                (_, _) => 7,
            };
            v.push(search(format!("pf p={} from={:?} alphabet={}", p, bg, n), move |c| {
                closure(&One::<Pf>::new(p, bg, n), c, 2_000_000)
            }));
        }
    }
    v.extend(moments::orders::<Pf>(tier == Tier::Thorough));
    v.extend(super::endure::inserting::<Pf>(tier == Tier::Thorough));
    v
}

// ---------------------------------------------------------------- P03, P04

#[derive(Clone)]
struct Pair<T: Sk> {
    s: Vec<T>,
    m: Vec<u64>,
}
struct Many<T: Sk> {
    p: u8,
    k: usize,
    bgs: Vec<Bg>,
    bgh: Vec<Vec<u64>>,
    al: Vec<u64>,
    exp: Expect<T>,
}
impl<T: Sk> Many<T> {
    fn new(p: u8, bgs: &[Bg], n: usize) -> Self {
        let bgh: Vec<Vec<u64>> = bgs.iter().map(|&b| background(T::KIND, p, b)).collect();
        let al = alphabet(T::KIND, p, n);
        let mut items: Vec<Vec<u64>> = al.iter().map(|&h| vec![h]).collect();
        items.extend(bgh.iter().cloned());
        Many { p, k: bgs.len(), bgs: bgs.to_vec(), bgh, al, exp: Expect::new(p, items) }
    }
    const NAMES: [&'static str; 3] = ["a", "b", "c"];
    /// op -> (kind, i, j)
    fn op(&self, op: usize) -> (u8, usize, usize) {
        let (n, k) = (self.al.len(), self.k);
        if op < n * k {
            (0, op / n, op % n)
        } else if op < n * k + k {
            (1, op - n * k, 0)
        } else {
            let o = op - n * k - k;
            let i = o / (k - 1);
            let j = o % (k - 1);
            (2, i, if j >= i { j + 1 } else { j })
        }
    }
}
impl<T: Sk> Model for Many<T> {
    type S = Pair<T>;
    fn init(&self) -> Vec<Pair<T>> {
        let n = self.al.len();
        vec![Pair {
            s: self.bgh.iter().map(|b| build(self.p, b)).collect(),
            m: (0..self.k).map(|i| 1 << (n + i)).collect(),
        }]
    }
    fn init_code(&self) -> Vec<String> {
        let mut v = vec![];
        for i in 0..self.k {
            v.extend(bg_code(T::TY, Self::NAMES[i], self.p, self.bgs[i], self.bgh[i].len()));
        }
        v
    }
    fn ops(&self) -> usize {
        self.al.len() * self.k + self.k + self.k * (self.k - 1)
    }
    fn apply(&self, s: &Pair<T>, op: usize) -> Result<Option<Pair<T>>, String> {
        let mut n = s.clone();
        match self.op(op) {
            (0, i, j) => {
                n.s[i].ins(self.al[j]);
                n.m[i] |= 1 << j;
            }
            (1, i, _) => {
                let got = n.s[i].cnt();
                let want = self.exp.get(n.m[i])?;
                if !close(got, want) {
                    return Err(format!("{}.count() is {} but a sketch of the same set gives {}", Self::NAMES[i], got, want));
                }
            }
            (_, i, j) => {
                let before = n.s[j].key();
                let src = n.s[j].clone();
                if let Err(e) = n.s[i].mrg(&src) {
                    return Err(format!("merge of equal precisions failed: {:?}", e));
                }
                n.m[i] |= n.m[j];
                if before != src.key() {
                    // allowed only if nothing observable changed
                    self.exp.check("source of the merge", &src, n.m[j])?;
                    n.s[j] = src;
                }
            }
        }
        Ok(Some(n))
    }
    fn check(&self, s: &Pair<T>) -> Result<Obs, String> {
        let mut values = [0.; 3];
        for i in 0..self.k {
            values[i] = self.exp.check(Self::NAMES[i], &s.s[i], s.m[i])?;
        }
        Ok(Obs { values, n: self.k, compared: self.k as u64 })
    }
    fn key(&self, s: &Pair<T>) -> u128 {
        let mut h = HW::new();
        for i in 0..self.k {
            let k = s.s[i].unordered_key();
            h.put(k as u64);
            h.put((k >> 64) as u64);
            h.put(s.m[i]);
        }
        h.finish()
    }
    fn op_code(&self, op: usize) -> String {
        match self.op(op) {
            (0, i, j) => ins_code(Self::NAMES[i], self.al[j]),
            (1, i, _) => format!("{}.count();", Self::NAMES[i]),
            (_, i, j) => format!("{}.merge(&{}).unwrap();", Self::NAMES[i], Self::NAMES[j]),
        }
    }
}

/// Sharding: a fixed small stream split over k shards in every way, shards merged
/// in every order into a fresh sketch or into each other.
fn shards<T: Sk>(ctx: &mut Ctx, p: u8, stream: &[u64], k: usize) {
    let want = canonical::<T>(p, stream);
    let n = stream.len();
    let total = (k as u64).pow(n as u32);
    for a in 0..total {
        beat();
        let mut sh: Vec<T> = (0..k).map(|_| T::new_(p)).collect();
        let mut x = a;
        for &h in stream {
            sh[(x % k as u64) as usize].ins(h);
            x /= k as u64;
        }
        ctx.states += 1;
        // left fold, right fold, balanced
        let mut orders: Vec<Vec<usize>> = vec![(0..k).collect(), (0..k).rev().collect()];
        if k == 3 {
            orders.extend([vec![1, 0, 2], vec![1, 2, 0], vec![0, 2, 1], vec![2, 0, 1]]);
        }
        for o in orders {
            // into a fresh sketch, in this order
            let mut t = T::new_(p);
            for &i in &o {
                t.mrg(&sh[i]).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
                ctx.transitions += 1;
            }
            ctx.traces += 1;
            if !ctx.expect(t.est(), &[want], || {
                ("sharded stream merged into a fresh sketch".into(), vec![format!("p={} shards={} assignment={} order={:?} stream={:x?}", p, k, a, o, stream)])
            }) {
                return;
            }
            // right-associated: s0 <- (s1 <- (s2 ...))
            let mut acc = sh[o[k - 1]].clone();
            for &i in o[..k - 1].iter().rev() {
                let mut t = sh[i].clone();
                t.mrg(&acc).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
                acc = t;
                ctx.transitions += 1;
            }
            ctx.traces += 1;
            if !ctx.expect(acc.est(), &[want], || {
                ("sharded stream merged right to left".into(), vec![format!("p={} shards={} assignment={} order={:?} stream={:x?}", p, k, a, o, stream)])
            }) {
                return;
            }
        }
    }
}

/// Large shards: every pair of backgrounds overlapping or disjoint, at every
/// precision, merged both ways and twice, plus a follow-up insert.
fn big_pairs<T: Sk>(ctx: &mut Ctx, p: u8, thorough: bool) {
    let kinds: &[Bg] = &BGS;
    let al = alphabet(T::KIND, p, 3);
    let sets: Vec<Vec<u64>> = kinds.iter().map(|&b| background(T::KIND, p, b)).collect();
    let built: Vec<T> = sets.iter().map(|s| build::<T>(p, s)).collect();
    for (i, si) in sets.iter().enumerate() {
        for (j, sj) in sets.iter().enumerate() {
            if p > 14 && !thorough && (i + j + p as usize) % 3 == 2 && i != j {
                continue;
            }
            beat();
            let mut all = si.clone();
            all.extend(sj);
            let want = est_set(T::KIND, p, &all);
            let mut a = built[i].clone();
            let b = built[j].clone();
            let tr = |m: &str| (m.to_string(), vec![format!("p={} a=background {:?} b=background {:?}", p, kinds[i], kinds[j])]);
            let canon = canonical::<T>(p, &all);
            if !ctx.expect(canon, &want, || tr("union inserted into one sketch")) {
                return;
            }
            a.mrg(&b).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            ctx.states += 1;
            ctx.transitions += 1;
            ctx.traces += 1;
            if !ctx.expect(a.est(), &[canon], || tr("a.merge(&b); a.count()")) {
                return;
            }
            a.mrg(&b).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
            ctx.transitions += 1;
            if !ctx.expect(a.est(), &[canon], || tr("a.merge(&b); a.merge(&b); a.count()")) {
                return;
            }
            let bw = est_set(T::KIND, p, sj);
            if !ctx.expect(b.est(), &bw, || tr("b.count() after a.merge(&b)")) {
                return;
            }
            let mut all2 = all.clone();
            for &h in &al {
                a.ins(h);
                all2.push(h);
            }
            let c2 = canonical::<T>(p, &all2);
            ctx.transitions += al.len() as u64;
            if !ctx.expect(a.cnt(), &[c2], || tr("a.merge(&b) twice, three inserts, a.count()")) {
                return;
            }
        }
    }
}

/// Pairs that agree in everything a shortcut might compare - number of values, of zero
/// registers, of registers of each rank, the estimate - and yet differ: the registers of
/// one moved to other places (every bit of the index flipped, and all), the contents of
/// two registers exchanged, other ranks of the same sum.
fn lookalikes<T: Sk>(ctx: &mut Ctx, p: u8, thorough: bool) {
    let k = T::KIND;
    let m = 1usize << p;
    let top = if k == Kind::Pf { 32 } else { 64 } - p as u32;
    let al = alphabet(k, p, 3);
    let at = |i: usize, r: u32| mk(k, p, i, r, 0x2a);
    let mut bases: Vec<(String, Vec<u64>)> = vec![
        ("one value".into(), vec![at(3, 2)]),
        ("the hash 0".into(), vec![0]),
        ("three values".into(), vec![at(1, 1), at(6, 5), at(m - 2, max_rank(k, p))]),
    ];
    for bg in &BGS[1..] {
        bases.push((format!("background {:?}", bg), background(k, p, *bg)));
    }
    for (name, base) in &bases {
        let mut others: Vec<(String, Vec<u64>)> = vec![];
        let masks = (0..p as usize).map(|b| 1usize << b).chain([m - 1]);
        for d in masks.filter(|d| p <= 12 || thorough || *d == 1 || *d == m / 2 || *d == m - 1) {
            others.push((format!("registers xor {}", d), base.iter().map(|h| h ^ (d as u64) << top).collect()));
        }
        for (i, j) in [(0usize, 1usize), (2, 3), (1, m - 1), (m / 2, m / 2 + 1), (5, 6)] {
            let x = ((i ^ j) as u64) << top;
            let idx = |h: u64| (h >> top) as usize & (m - 1);
            others.push((format!("registers {} and {} exchanged", i, j), base.iter().map(|&h| if idx(h) == i || idx(h) == j { h ^ x } else { h }).collect()));
        }
        // ranks 1, 3, 3 and 2, 2, 2 add up to the same
        let mut a0 = base.clone();
        a0.extend([at(0, 4), at(1, 6), at(m - 1, 6)]);
        let mut b0 = base.clone();
        b0.extend([at(0, 5), at(1, 5), at(m - 1, 5)]);
        let mut c0 = base.clone();
        c0.extend([at(0, 6), at(1, 4), at(m - 1, 6)]);
        let pairs: Vec<(String, &Vec<u64>, &Vec<u64>)> = others
            .iter()
            .map(|(n, o)| (n.clone(), base, o))
            .chain([("ranks of the same sum".to_string(), &a0, &b0), ("the same ranks in other registers".to_string(), &a0, &c0)])
            .collect();
        for (how, sa, sb) in pairs {
            beat();
            if past_deadline() {
                ctx.capped = true;
                return;
            }
            let mut all = sa.clone();
            all.extend(sb);
            let want = canonical::<T>(p, &all);
            all.extend(&al);
            let want2 = canonical::<T>(p, &all);
            let (xa, xb): (T, T) = (build(p, sa), build(p, sb));
            for counted in if m > 4096 && !thorough { vec![3] } else { vec![0, 1, 2, 3] } {
                let (mut a, mut b) = (xa.clone(), xb.clone());
                if counted & 1 == 1 {
                    a.cnt();
                }
                if counted & 2 == 2 {
                    b.cnt();
                }
                let eb = b.est();
                for turn in 0..2 {
                    let tr = |w: &str| (format!("{} p={}: {}", T::TY, p, w), vec![format!("a={} b={} (counted before: {}) {}", name, how, counted, if turn == 0 { "a.merge(&b)" } else { "b.merge(&a)" })]);
                    let (mut t, s) = if turn == 0 { (a.clone(), &b) } else { (b.clone(), &a) };
                    t.mrg(s).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e));
                    ctx.states += 1;
                    ctx.transitions += 1 + al.len() as u64;
                    ctx.traces += 1;
                    if !ctx.expect(t.est(), &[want], || tr("estimate of the merge of two look-alike sketches")) {
                        return;
                    }
                    for &h in &al {
                        t.ins(h);
                    }
                    if !ctx.expect(t.cnt(), &[want2], || tr("estimate after the merge of two look-alike sketches and three inserts")) {
                        return;
                    }
                }
                if !ctx.expect(b.est(), &[eb], || (format!("{} p={}: estimate of the source of a merge", T::TY, p), vec![])) {
                    return;
                }
            }
        }
    }
}

/// Merging a sketch of another value type and hash builder.
fn foreign(ctx: &mut Ctx, p: u8) {
    use hyperloglogplus::*;
    #[derive(Clone, Debug)]
    struct Other;
    impl std::hash::BuildHasher for Other {
        type Hasher = PassH;
        fn build_hasher(&self) -> PassH {
            PassB.build_hasher()
        }
    }
    #[derive(Clone, Debug)]
    struct V(u64);
    impl std::hash::Hash for V {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            h.write_u64(self.0)
        }
    }
    for bg in [Bg::Empty, Bg::Near, Bg::Full] {
        for bg2 in [Bg::Empty, Bg::Near, Bg::Full] {
            let (s1, s2) = (background(Kind::Plus, p, bg), background(Kind::Plus, p, bg2));
            let mut a: Plus = build(p, &s1);
            let mut b: HyperLogLogPlus<V, Other> = HyperLogLogPlus::new(p, Other).unwrap();
            for &h in &s2 {
                b.insert(&V(h));
            }
            let ok = a.merge(&b).is_ok();
            let mut all = s1.clone();
            all.extend(&s2);
            ctx.states += 1;
            ctx.transitions += 1;
            if !ok || !ctx.expect(a.cnt(), &est_set(Kind::Plus, p, &all), || {
                ("merge of a HyperLogLogPlus with another value type and builder".into(), vec![format!("p={} {:?} {:?}", p, bg, bg2)])
            }) {
                return;
            }
            if p > 16 {
                continue;
            }
            let (s1, s2) = (background(Kind::Pf, p, bg), background(Kind::Pf, p, bg2));
            let mut a: Pf = build(p, &s1);
            let mut b: HyperLogLogPF<V, Other> = HyperLogLogPF::new(p, Other).unwrap();
            for &h in &s2 {
                b.insert(&V(h));
            }
            let ok = a.merge(&b).is_ok();
            let mut all = s1.clone();
            all.extend(&s2);
            ctx.transitions += 1;
            if !ok || !ctx.expect(a.cnt(), &est_set(Kind::Pf, p, &all), || {
                ("merge of a HyperLogLogPF with another value type and builder".into(), vec![format!("p={} {:?} {:?}", p, bg, bg2)])
            }) {
                return;
            }
        }
    }
}

fn merges<T: Sk>(tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    for p in (4..=T::PMAX).rev() {
        v.push(case(format!("{:?} big pairs p={}", T::KIND, p), move |c| big_pairs::<T>(c, p, th)));
        v.push(case(format!("{:?} look-alikes p={}", T::KIND, p), move |c| lookalikes::<T>(c, p, th)));
    }
    let few = [Bg::Empty, Bg::Near, Bg::Just, Bg::Full];
    for p in 4..=T::PMAX.min(if th { 15 } else { 13 }) {
        for a in few {
            for b in few {
                let n = match (p, th) {
                    (4..=9, false) => 3,
                    (4..=6, true) => 5,
                    (7..=9, true) => 4,
                    (10..=12, true) => 3,
                    (_, true) => 2,
                    (10..=11, _) => 2,
                    (_, _) => 1,
                };
                v.push(search(format!("{:?} two sketches p={} a={:?} b={:?} alphabet={}", T::KIND, p, a, b, n), move |c| {
                    closure(&Many::<T>::new(p, &[a, b], n), c, 1_000_000)
                }));
            }
        }
        if p <= 9 {
            for n in [if th { 6 } else { 5 }] {
                if p == 4 || p == 7 || p == 8 || th {
                    v.push(search(format!("{:?} two empty sketches p={} alphabet={}", T::KIND, p, n), move |c| {
                        closure(&Many::<T>::new(p, &[Bg::Empty, Bg::Empty], n), c, 3_000_000)
                    }));
                }
            }
            let n = if th { 3 } else { 2 };
            for bgs in [[Bg::Empty, Bg::Empty, Bg::Empty], [Bg::Near, Bg::Empty, Bg::Just], [Bg::Near, Bg::Near, Bg::Full]] {
                if p == 4 || p == 8 || th {
                    v.push(search(format!("{:?} three sketches p={} {:?} alphabet={}", T::KIND, p, bgs, n), move |c| {
                        closure(&Many::<T>::new(p, &bgs, n), c, 1_000_000)
                    }));
                }
            }
        }
    }
    // the longest first
    v.sort_by_key(|c| !(c.id.contains("two empty") || c.id.contains("three sketches")));
    for p in [4u8, 5, 6, 7, 8, 10] {
        let al = alphabet(T::KIND, p, if th { 8 } else { 6 });
        v.push(case(format!("{:?} all shardings over 3 p={}", T::KIND, p), move |c| shards::<T>(c, p, &al, 3)));
    }
    v
}
pub fn p03(tier: Tier) -> Vec<Case> {
    let mut v = merges::<Plus>(tier);
    for p in 4..=18 {
        v.push(case(format!("foreign types p={}", p), move |c| foreign(c, p)));
    }
    v.extend(moments::unions::<Plus>(tier == Tier::Thorough));
    v.extend(super::endure::merging::<Plus>(tier == Tier::Thorough));
    v.extend(super::copies::kin_of_all::<Plus>(tier == Tier::Thorough));
    v
}
pub fn p04(tier: Tier) -> Vec<Case> {
    let mut v = merges::<Pf>(tier);
    for p in 4..=16 {
        v.push(case(format!("foreign types p={}", p), move |c| foreign(c, p)));
    }
    v.extend(moments::unions::<Pf>(tier == Tier::Thorough));
    v.extend(super::endure::merging::<Pf>(tier == Tier::Thorough));
    v.extend(super::copies::kin_of_all::<Pf>(tier == Tier::Thorough));
    v
}

// ---------------------------------------------------------------- P13, P14

/// Two copies driven in lock step: `x` is also observed (counted, cloned, or
/// saved and restored), `y` never is.
struct Twin<T: Sk> {
    p: u8,
    bg: Bg,
    bgh: Vec<u64>,
    al: Vec<u64>,
    others: Vec<T>,
    probe: Vec<T>,
    wrong: T,
    mode: Mode,
    junk: Vec<u64>,
    /// what an undisturbed sketch would estimate, per (mask of inserts and merges)
    exp: Expect<T>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Observe,
    Serde,
}
impl<T: Sk> Twin<T> {
    fn new(p: u8, bg: Bg, n: usize, mode: Mode, heavy: bool) -> Self {
        let k = T::KIND;
        let al = alphabet(k, p, n);
        let small = vec![mk(k, p, 2, 3, 9), mk(k, p, (1 << p) - 2, 1, 0)];
        let mut osets = vec![small];
        if heavy {
            osets.push(background(k, p, Bg::Just));
        }
        let others: Vec<T> = osets.iter().map(|s| build(p, s)).collect();
        let mut probe: Vec<T> = vec![build(p, &[mk(k, p, 1, 5, 0)])];
        if heavy {
            probe.push(build(p, &background(k, p, Bg::Mid)));
        }
        let bgh = background(k, p, bg);
        let mut items: Vec<Vec<u64>> = al.iter().map(|&h| vec![h]).collect();
        items.push(bgh.clone());
        items.extend(osets);
        Twin {
            p,
            bg,
            bgh,
            al,
            others,
            probe,
            wrong: T::new_(if p == 4 { 5 } else { p - 1 }),
            mode,
            // values that change every register, to poison an original or a clone
            junk: (0..1usize << p.min(6)).map(|i| mk(k, p, i << (p - p.min(6)), max_rank(k, p) - 1, 0)).collect(),
            exp: Expect::new(p, items),
        }
    }
    fn poison(&self, s: &mut T) {
        for &h in &self.junk {
            s.ins(h)
        }
        let _ = s.cnt();
    }
}
impl<T: Sk> Model for Twin<T> {
    type S = (T, T, u64);
    fn init(&self) -> Vec<Self::S> {
        let m = 1 << self.al.len();
        vec![(build(self.p, &self.bgh), build(self.p, &self.bgh), m)]
    }
    fn init_code(&self) -> Vec<String> {
        let mut v = bg_code(T::TY, "x", self.p, self.bg, self.bgh.len());
        v.push("let mut y = x.clone(); // or built the same way".into());
        v
    }
    fn ops(&self) -> usize {
        self.al.len() + self.others.len() + 1 + if self.mode == Mode::Serde { 4 } else { 3 }
    }
    fn apply(&self, s: &Self::S, op: usize) -> Result<Option<Self::S>, String> {
        let n = self.al.len();
        let no = self.others.len();
        // the parent state must survive, so the successor starts from clones;
        // that cloning is neutral is itself what this search decides
        let (mut x, mut y, mut m) = (s.0.clone(), s.1.clone(), s.2);
        if op < n {
            x.ins(self.al[op]);
            y.ins(self.al[op]);
            m |= 1 << op;
        } else if op < n + no {
            let a = x.mrg(&self.others[op - n]).is_ok();
            let b = y.mrg(&self.others[op - n]).is_ok();
            if !a || !b {
                return Err(format!("merge of equal precisions refused ({}, {})", a, b));
            }
            m |= 1 << (op + 1);
        } else if op == n + no {
            let a = x.cnt();
            let b = x.cnt();
            if a.to_bits() != b.to_bits() {
                return Err(format!("x.count() returned {} and then {}", a, b));
            }
            let want = self.exp.get(m)?;
            if !close(a, want) {
                return Err(format!("x.count() is {} but an undisturbed sketch gives {}", a, want));
            }
            if self.mode == Mode::Serde {
                y.cnt();
            }
        } else {
            let w = op - n - no - 1;
            match (self.mode, w) {
                // continue with the clone, then disturb the original
                (Mode::Observe, 0) => {
                    let mut orig = x;
                    x = orig.clone();
                    self.poison(&mut orig);
                }
                // continue with the original, disturb the clone
                (Mode::Observe, 1) => {
                    let mut c = x.clone();
                    self.poison(&mut c);
                }
                // be the source of a merge into something disturbed later
                (Mode::Observe, _) => {
                    let mut t = T::new_(self.p);
                    t.mrg(&x).map_err(|e| format!("merge refused: {:?}", e))?;
                    self.poison(&mut t);
                    let mut t2 = self.probe[0].clone();
                    t2.mrg(&x).map_err(|e| format!("merge refused: {:?}", e))?;
                    self.poison(&mut t2);
                }
                (Mode::Serde, 0) => x = x.json(),
                (Mode::Serde, 1) => x = x.cbor(),
                (Mode::Serde, 2) => x = x.value(),
                (Mode::Serde, _) => x = x.pos(),
            }
        }
        Ok(Some((x, y, m)))
    }
    fn check(&self, s: &Self::S) -> Result<Obs, String> {
        let a = s.0.est();
        let b = s.1.est();
        if !close(a, b) {
            return Err(format!("x.count() is {} but the undisturbed twin gives {}", a, b));
        }
        let want = self.exp.get(s.2)?;
        if !close(a, want) {
            return Err(format!("x.count() is {} but an undisturbed sketch gives {}", a, want));
        }
        let mut c = 2;
        for o in &self.probe {
            let (mut oa, mut ob) = (o.clone(), o.clone());
            let (ra, rb) = (oa.mrg(&s.0).is_ok(), ob.mrg(&s.1).is_ok());
            let (ea, eb) = (oa.cnt(), ob.cnt());
            if !ra || !rb || !close(ea, eb) {
                return Err(format!("merged into another sketch: x gives {} ({}), the undisturbed twin {} ({})", ea, ra, eb, rb));
            }
            c += 1;
        }
        let mut w = self.wrong.clone();
        if w.mrg(&s.0).is_ok() || s.0.clone().mrg(&self.wrong).is_ok() {
            return Err("merge with a different precision was accepted".into());
        }
        Ok(Obs { values: [a, 0., 0.], n: 1, compared: c })
    }
    fn key(&self, s: &Self::S) -> u128 {
        let mut h = HW::new();
        let ks = match self.mode {
            Mode::Observe => [s.0.key(), s.1.key()],
            Mode::Serde => [s.0.unordered_key(), s.1.unordered_key()],
        };
        for k in ks {
            h.put(k as u64);
            h.put((k >> 64) as u64);
        }
        h.put(s.2);
        h.finish()
    }
    fn op_code(&self, op: usize) -> String {
        let n = self.al.len();
        let no = self.others.len();
        if op < n {
            format!("x.insert(&{0:#018x}u64); y.insert(&{0:#018x}u64);", self.al[op])
        } else if op < n + no {
            format!("x.merge(&other{0}).unwrap(); y.merge(&other{0}).unwrap();", op - n)
        } else if op == n + no {
            if self.mode == Mode::Serde { "x.count(); y.count();".into() } else { "x.count(); x.count();".into() }
        } else {
            match (self.mode, op - n - no - 1) {
                (Mode::Observe, 0) => "let c = x.clone(); poison(&mut x); let mut x = c;".into(),
                (Mode::Observe, 1) => "{ let mut c = x.clone(); poison(&mut c); }".into(),
                (Mode::Observe, _) => "{ t.merge(&x).unwrap(); poison(&mut t); }".into(),
                (Mode::Serde, 0) => "let mut x = from_str(&serde_json::to_string(&x).unwrap()).unwrap();".into(),
                (Mode::Serde, 1) => "let mut x = from_slice(&serde_cbor::to_vec(&x).unwrap()).unwrap();".into(),
                (Mode::Serde, 2) => "let mut x = from_value(serde_json::to_value(&x).unwrap()).unwrap();".into(),
                (Mode::Serde, _) => "let mut x = /* through a positional binary format such as bincode */ x;".into(),
            }
        }
    }
}

fn twins<T: Sk>(mode: Mode, tier: Tier) -> Vec<Case> {
    let mut v = vec![];
    let th = tier == Tier::Thorough;
    for p in (4..=T::PMAX).rev() {
        for bg in BGS {
            let n = match (p, th) {
                (4..=8, false) => 6,
                (4..=8, true) => 8,
                (9..=10, false) => 5,
                (9..=10, true) => 6,
                (11..=12, false) => 3,
                (11..=12, true) => 5,
                (13..=15, true) => 3,
                (_, true) => 2,
                (13..=14, false) => 2,
                _ => 1,
            };
            let heavy = th || p <= 12;
            v.push(search(format!("{:?} {:?} p={} from={:?} alphabet={}", T::KIND, mode, p, bg, n), move |c| {
                closure(&Twin::<T>::new(p, bg, n, mode, heavy), c, 1_000_000);
            }));
        }
    }
    v
}
pub fn p13(tier: Tier) -> Vec<Case> {
    let mut v = twins::<Plus>(Mode::Observe, tier);
    v.extend(twins::<Pf>(Mode::Observe, tier));
    let th = tier == Tier::Thorough;
    v.extend(super::copies::clones::<Plus>(th));
    v.extend(super::copies::clones::<Pf>(th));
    v.extend(super::copies::kin_of_clones::<Plus>(th));
    v.extend(super::copies::kin_of_clones::<Pf>(th));
    v.extend(moments::cases::<Plus>(th, |p| moments::observing(p)));
    v.extend(moments::cases::<Pf>(th, |p| moments::observing(p)));
    let (n, top) = (super::endure::LONG, if th { 8 } else { 5 });
    v.extend(super::endure::events::<Plus>(th, top, "observing", true, n, |p| moments::observing(p)));
    v.extend(super::endure::events::<Pf>(th, top, "observing", true, n, |p| moments::observing(p)));
    v
}
pub fn p14(tier: Tier) -> Vec<Case> {
    let mut v = twins::<Plus>(Mode::Serde, tier);
    v.extend(twins::<Pf>(Mode::Serde, tier));
    let th = tier == Tier::Thorough;
    v.extend(super::copies::restored::<Plus>(th));
    v.extend(super::copies::restored::<Pf>(th));
    v.extend(super::copies::kin_of_saved::<Plus>(th));
    v.extend(super::copies::kin_of_saved::<Pf>(th));
    v.extend(moments::cases::<Plus>(th, |_| moments::saving()));
    v.extend(moments::cases::<Pf>(th, |_| moments::saving()));
    let (n, top) = if th { (super::endure::LONG, 7) } else { (super::endure::LONG, 4) };
    v.extend(super::endure::events::<Plus>(th, top, "saving", true, n, |_| moments::saving()));
    v.extend(super::endure::events::<Pf>(th, top, "saving", true, n, |_| moments::saving()));
    v
}
