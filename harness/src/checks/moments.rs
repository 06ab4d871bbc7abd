//! Long streams cut at every moment, and blocks of a long stream in every order:
//! what the closures with their few values cannot reach (buffers filled by hundreds of
//! values, many flushes, the switch at any point between).
use super::histories::Expect;
use crate::gen::*;
use crate::report::*;
use crate::sk::*;
use std::collections::HashMap;

/// What may happen to a sketch that holds the first i values of the stream; the result
/// must be as good as the sketch itself.
pub type Event<X> = (&'static str, Box<dyn Fn(X, usize) -> Result<X, String>>);

pub struct Line<'a, X> {
    pub what: String,
    pub stream: &'a [u64],
    pub fresh: &'a dyn Fn() -> X,
    pub ins: &'a dyn Fn(&mut X, u64),
    /// estimate of a copy
    pub est: &'a dyn Fn(&X) -> f64,
    pub dup: &'a dyn Fn(&X) -> X,
    pub events: &'a [Event<X>],
}
impl<X> Line<'_, X> {
    fn want(&self, memo: &mut HashMap<usize, f64>, i: usize) -> f64 {
        *memo.entry(i).or_insert_with(|| {
            let mut x = (self.fresh)();
            for &h in &self.stream[..i] {
                (self.ins)(&mut x, h)
            }
            (self.est)(&x)
        })
    }
    /// `every`: distance between the moments; `horizon`: values inserted after one.
    pub fn run(&self, ctx: &mut Ctx, every: usize, horizon: usize, periods: &[usize]) {
        let n = self.stream.len();
        let mut memo = HashMap::new();
        let mut base = (self.fresh)();
        let mut at = 0;
        for i in (0..=n).step_by(every) {
            while at < i {
                (self.ins)(&mut base, self.stream[at]);
                at += 1;
            }
            if past_deadline() {
                ctx.capped = true;
                return;
            }
            for (name, f) in self.events {
                beat();
                let tell = |j: usize| (format!("{}: {} after {} values, then {} more", self.what, name, i, j - i), vec![format!("stream {}, {} after value {}, estimate after value {}", self.what, name, i, j)]);
                let mut x = match f((self.dup)(&base), i) {
                    Ok(x) => x,
                    Err(e) => {
                        let (m, t) = tell(i);
                        ctx.fail(format!("{}: {}", m, e), t);
                        return;
                    }
                };
                ctx.states += 1;
                let (mut j, mut d, mut step) = (i, i, 1);
                let end = n.min(i + horizon);
                loop {
                    let want = self.want(&mut memo, j);
                    if !ctx.expect((self.est)(&x), &[want], || tell(j)) {
                        return;
                    }
                    if j >= end {
                        break;
                    }
                    // the distances to the moment double, on a grid shared by all moments
                    d = if step < every { d + step } else { (d / step + 1) * step };
                    step *= 2;
                    let to = d.max(j + 1).min(end);
                    for &h in &self.stream[j..to] {
                        (self.ins)(&mut x, h)
                    }
                    ctx.transitions += (to - j) as u64;
                    j = to;
                }
                ctx.traces += 1;
            }
        }
        // the same again and again
        for &k in periods {
            for (name, f) in self.events {
                let mut x = (self.fresh)();
                for i in 0..=n {
                    let tell = || (format!("{}: {} after every {} values up to {}", self.what, name, k, i), vec![]);
                    if i % k == 0 {
                        beat();
                        x = match f(x, i) {
                            Ok(x) => x,
                            Err(e) => {
                                let (m, t) = tell();
                                ctx.fail(format!("{}: {}", m, e), t);
                                return;
                            }
                        };
                        ctx.transitions += 1;
                    }
                    if i % (n / 8).max(1) == 0 || i == n {
                        let want = self.want(&mut memo, i);
                        if !ctx.expect((self.est)(&x), &[want], tell) {
                            return;
                        }
                    }
                    if i < n {
                        (self.ins)(&mut x, self.stream[i]);
                        ctx.transitions += 1;
                    }
                }
                ctx.traces += 1;
                ctx.states += 1;
            }
        }
    }
}

/// (distance between moments, horizon, periods) for a stream of n values
pub fn bounds(n: usize, cost: usize) -> (usize, usize, Vec<usize>) {
    // about `cost` inserts in all for the moments, about half that again for the periods
    let horizon = n.min((n / 3).max(40)).min(cost / 20 + 2);
    let every = (n * horizon / cost).max(1);
    let mut periods = vec![];
    let mut k = 1;
    while k <= n {
        // an event costs about as much as n inserts
        if n / k * n <= cost {
            periods.push(k);
        }
        k += 1 + k / 2;
    }
    (every, horizon, periods)
}

pub fn sketch_moments<T: Sk>(ctx: &mut Ctx, p: u8, which: usize, cost: usize, events: &[Event<T>]) {
    let s = stream(T::KIND, p, which);
    let (every, horizon, periods) = bounds(s.len(), cost);
    Line { what: format!("{} p={} stream {}", T::TY, p, STREAMS[which]), stream: &s, fresh: &|| T::new_(p), ins: &|x, h| x.ins(h), est: &|x| x.est(), dup: &|x| x.clone(), events }
        .run(ctx, every, horizon, &periods)
}

fn poison<T: Sk>(s: &mut T, p: u8) {
    let q = p.min(6);
    for i in 0..1usize << q {
        s.ins(crate::refm::mk(T::KIND, p, i << (p - q), crate::refm::max_rank(T::KIND, p) - 1, 0))
    }
    s.cnt();
}
pub fn observing<T: Sk>(p: u8) -> Vec<Event<T>> {
    vec![
        ("count", Box::new(|mut x, _| {
            let a = x.cnt();
            let b = x.cnt();
            if a.to_bits() != b.to_bits() {
                return Err(format!("counted {} and then {}", a, b));
            }
            Ok(x)
        })),
        ("clone, going on with the clone", Box::new(move |mut x, _| {
            let c = x.clone();
            poison(&mut x, p);
            Ok(c)
        })),
        ("clone, going on with the original", Box::new(move |x, _| {
            let mut c = x.clone();
            poison(&mut c, p);
            Ok(x)
        })),
        ("being merged into another", Box::new(move |x, _| {
            let mut t = T::new_(p);
            t.mrg(&x).map_err(|e| format!("merge refused: {:?}", e))?;
            poison(&mut t, p);
            t.mrg(&x).map_err(|e| format!("merge refused: {:?}", e))?;
            Ok(x)
        })),
        ("being counted through another", Box::new(move |x, _| {
            let mut t = T::new_(p);
            t.mrg(&x).map_err(|e| format!("merge refused: {:?}", e))?;
            let (a, b) = (t.cnt(), x.clone().cnt());
            if !crate::refm::close(a, b) {
                return Err(format!("an empty sketch it was merged into gives {}, itself {}", a, b));
            }
            Ok(x)
        })),
    ]
}
pub fn saving<T: Sk>() -> Vec<Event<T>> {
    vec![
        ("through JSON", Box::new(|x: T, _| Ok(x.json()))),
        ("through CBOR", Box::new(|x: T, _| Ok(x.cbor()))),
        ("through a JSON value", Box::new(|x: T, _| Ok(x.value()))),
        ("through a positional format", Box::new(|x: T, _| Ok(x.pos()))),
        ("saving, going on with the original", Box::new(|x: T, _| {
            x.pos();
            x.json_len();
            Ok(x)
        })),
        ("inside other values", Box::new(|x: T, _| Ok(x.embedded()))),
        ("through CBOR twice", Box::new(|x: T, _| Ok(x.cbor().cbor()))),
    ]
}
pub fn refused<T: Sk>(p: u8) -> Vec<Event<T>> {
    let qs: Vec<u8> = [p.wrapping_sub(1), p + 1, T::PMIN, T::PMAX].into_iter().filter(|&q| q != p && (T::PMIN..=T::PMAX).contains(&q)).collect();
    let built: Vec<T> = qs
        .iter()
        .flat_map(|&q| {
            let mut s = stream(T::KIND, q.min(10), 0);
            s.truncate(700);
            let few: T = build(q, &s[..3]);
            let more: T = build(q, &s);
            [few, more]
        })
        .collect();
    let b2 = built.clone();
    let differs = |e: Result<(), hyperloglogplus::HyperLogLogError>| match e {
        Err(hyperloglogplus::HyperLogLogError::IncompatiblePrecision) => Ok(()),
        r => Err(format!("merge returned {:?}", r)),
    };
    vec![
        ("refused merges", Box::new(move |mut x, i| {
            differs(x.mrg(&built[i % built.len()]))?;
            differs(x.mrg(&built[(i / 2) % built.len()]))?;
            Ok(x)
        })),
        ("refused merges into others", Box::new(move |x, i| {
            let mut o = b2[i % b2.len()].clone();
            let before = o.est();
            differs(o.mrg(&x))?;
            let after = o.est();
            if !crate::refm::close(before, after) {
                return Err(format!("the other sketch's estimate went from {} to {}", before, after));
            }
            Ok(x)
        })),
    ]
}
fn cost(th: bool, p: u8) -> usize {
    let c = if th { 20_000_000 } else { 1_500_000 };
    c >> (p.saturating_sub(14))
}
pub fn cases<T: Sk>(th: bool, events: fn(u8) -> Vec<Event<T>>) -> Vec<Case> {
    let mut v = vec![];
    for p in (T::PMIN..=T::PMAX).rev() {
        for w in 0..STREAMS.len() {
            v.push(case(format!("{:?} p={} every moment of stream {}", T::KIND, p, STREAMS[w]), move |c| sketch_moments::<T>(c, p, w, cost(th, p), &events(p))));
        }
    }
    v
}

// ------------------------------------------------------------------ blocks

/// The stream in k blocks; a block starts with values of the one before.
fn blocks(s: &[u64], k: usize) -> Vec<Vec<u64>> {
    let n = s.len();
    (0..k)
        .map(|i| {
            let (a, b) = (i * n / k, (i + 1) * n / k);
            let a = if i == 0 { a } else { a - (a - (i - 1) * n / k) / 4 };
            s[a..b].to_vec()
        })
        .collect()
}

struct Orders<'a, T: Sk> {
    p: u8,
    exp: &'a Expect<T>,
    blocks: &'a [Vec<u64>],
    variants: usize,
}
impl<T: Sk> Orders<'_, T> {
    fn go(&self, ctx: &mut Ctx, x: &T, mask: u64, path: &mut Vec<(usize, usize)>) -> bool {
        for b in 0..self.blocks.len() {
            if mask >> b & 1 == 1 {
                continue;
            }
            for how in 0..self.variants {
                beat();
                if past_deadline() {
                    ctx.capped = true;
                    return true;
                }
                let mut x = x.clone();
                let bl = &self.blocks[b];
                // forwards or backwards, then counted or not
                for j in 0..bl.len() {
                    x.ins(bl[if how & 1 == 0 { j } else { bl.len() - 1 - j }]);
                }
                ctx.transitions += bl.len() as u64;
                path.push((b, how));
                let m = mask | 1 << b;
                ctx.states += 1;
                ctx.evaluations += 1;
                let r = if how & 2 == 0 {
                    self.exp.check("x", &x, m)
                } else {
                    let got = x.cnt();
                    self.exp.get(m).and_then(|want| if crate::refm::close(got, want) { Ok(got) } else { Err(format!("x.count() is {} but a sketch of the same set gives {}", got, want)) })
                };
                match r {
                    Ok(e) => ctx.outcome(e),
                    Err(e) => {
                        ctx.fail(format!("{} p={} blocks of a stream: {}", T::TY, self.p, e), vec![format!("blocks (number, 1: backwards, 2: counted after): {:?}", path)]);
                        return false;
                    }
                }
                if !self.go(ctx, &x, m, path) {
                    return false;
                }
                path.pop();
            }
        }
        ctx.traces += (mask.count_ones() as usize == self.blocks.len()) as u64;
        true
    }
}
pub fn orders<T: Sk>(th: bool) -> Vec<Case> {
    let mut v = vec![];
    for p in (T::PMIN..=T::PMAX).rev() {
        for w in 0..STREAMS.len() {
            let (k, variants) = match (p, th) {
                (..=8, false) => (5, 4),
                (..=8, true) => (6, 4),
                (..=12, false) => (4, 4),
                (..=12, true) => (5, 4),
                (..=15, false) => (3, 4),
                (..=15, true) => (4, 4),
                (_, false) => (3, 2),
                (_, true) => (3, 4),
            };
            v.push(case(format!("{:?} p={} stream {} in {} blocks, all orders", T::KIND, p, STREAMS[w], k), move |c| {
                let b = blocks(&stream(T::KIND, p, w), k);
                let exp = Expect::<T>::new(p, b.clone());
                Orders { p, exp: &exp, blocks: &b, variants }.go(c, &T::new_(p), 0, &mut vec![]);
            }));
        }
    }
    v
}

/// Every way to bring k separately filled sketches together by merges, into each
/// other and into sketches that go on receiving values.
fn unite<T: Sk>(ctx: &mut Ctx, p: u8, exp: &Expect<T>, live: &[(T, u64)], path: &mut Vec<String>) -> bool {
    for i in 0..live.len() {
        for j in 0..live.len() {
            if i == j {
                continue;
            }
            for how in 0..2 {
                beat();
                if past_deadline() {
                    ctx.capped = true;
                    return true;
                }
                let mut next: Vec<(T, u64)> = live.to_vec();
                let src = next[j].clone();
                path.push(format!("{}{}.merge({}); ", if how == 1 { "count; " } else { "" }, i, j));
                if how == 1 {
                    next[i].0.cnt();
                }
                if let Err(e) = next[i].0.mrg(&src.0) {
                    ctx.fail(format!("{} p={}: merge refused: {:?}", T::TY, p, e), vec![path.concat()]);
                    return false;
                }
                next[i].1 |= src.1;
                ctx.transitions += 1;
                ctx.states += 1;
                ctx.evaluations += 2;
                for (who, (s, m)) in [("the target", &next[i]), ("the source", &src)] {
                    match exp.check(who, s, *m) {
                        Ok(e) => ctx.outcome(e),
                        Err(e) => {
                            ctx.fail(format!("{} p={} sketches of blocks of a stream: {}", T::TY, p, e), vec![path.concat()]);
                            return false;
                        }
                    }
                }
                next.remove(j);
                if next.len() > 1 {
                    if !unite(ctx, p, exp, &next, path) {
                        return false;
                    }
                } else {
                    ctx.traces += 1;
                }
                path.pop();
            }
        }
    }
    true
}
pub fn unions<T: Sk>(th: bool) -> Vec<Case> {
    let mut v = vec![];
    for p in (T::PMIN..=T::PMAX).rev() {
        for w in 0..STREAMS.len() {
            let k = match (p, th) {
                (..=12, false) => 4,
                (..=9, true) => 5,
                (..=15, true) => 4,
                (..=15, false) => 3,
                (_, false) => 2,
                (_, true) => 3,
            };
            v.push(case(format!("{:?} p={} stream {} in {} sketches, all merges", T::KIND, p, STREAMS[w], k), move |c| {
                let b = blocks(&stream(T::KIND, p, w), k);
                let exp = Expect::<T>::new(p, b.clone());
                // each counted before or not, half or all of it already merged
                for counted in 0..if p <= 12 { 1 << k } else { 4 } {
                    let live: Vec<(T, u64)> = b
                        .iter()
                        .enumerate()
                        .map(|(i, hs)| {
                            let mut s: T = build(p, hs);
                            if counted >> i & 1 == 1 {
                                s.cnt();
                            }
                            (s, 1 << i)
                        })
                        .collect();
                    if !unite(c, p, &exp, &live, &mut vec![format!("counted before: {:b}; ", counted)]) {
                        return;
                    }
                }
            }));
        }
    }
    v
}
