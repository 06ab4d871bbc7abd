//! The same operation tens of thousands of times on one sketch: past every point at
//! which a counter of one or two bytes wraps.
use super::moments::Event;
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;

pub const LONG: usize = 66_000;

/// Powers of two and their neighbours, and what follows them.
fn watched(n: usize) -> Vec<usize> {
    let mut v = vec![100, 1000, 10_000, n];
    for b in 0..40 {
        for d in [-1i64, 0, 1, 2] {
            v.push(((1i64 << b) + d) as usize);
        }
    }
    v.retain(|&x| x >= 4 && x <= n);
    v.sort_unstable();
    v.dedup();
    v
}

/// Repeats `act` n times; from the fourth time on the sketch must hold exactly `set`.
pub fn endure<T: Sk>(ctx: &mut Ctx, p: u8, what: &str, base: &[u64], set: &[u64], n: usize, act: &dyn Fn(&mut T, usize) -> Result<(), String>) {
    let probe = alphabet(T::KIND, p, 5);
    let want = canonical::<T>(p, set);
    let mut s2 = set.to_vec();
    s2.extend(&probe);
    let want2 = canonical::<T>(p, &s2);
    let mut x: T = build(p, base);
    let mut at = 0;
    for i in watched(n) {
        while at < i {
            if at & 0x3ff == 0 {
                beat();
                if past_deadline() {
                    ctx.capped = true;
                    return;
                }
            }
            if let Err(e) = act(&mut x, at) {
                ctx.fail(format!("{} p={}: {}, time {}: {}", T::TY, p, what, at + 1, e), vec![format!("{} values, then {} {} times", base.len(), what, at + 1)]);
                return;
            }
            at += 1;
        }
        ctx.states += 1;
        let tell = |m: &str| (format!("{} p={}: {} {} times{}", T::TY, p, what, i, m), vec![format!("{} values, then {} {} times{}", base.len(), what, i, m)]);
        if !ctx.expect(x.est(), &[want], || tell("")) {
            return;
        }
        let mut y = x.clone();
        for &h in &probe {
            y.ins(h);
        }
        if !ctx.expect(y.cnt(), &[want2], || tell(" and five more inserts")) {
            return;
        }
    }
    ctx.transitions += n as u64;
    ctx.traces += 1;
}

/// The states an operation is repeated from, those small enough for `cost` elementary
/// steps per operation.
fn states(kind: Kind, p: u8, cost: usize, dense_too: bool) -> Vec<(String, Vec<u64>)> {
    let few = vec![mk(kind, p, 2, 3, 9), mk(kind, p, (1 << p) - 2, 1, 0), mk(kind, p, 5, max_rank(kind, p), 0), 0];
    let mut v = vec![("nothing".to_string(), vec![]), ("four values".to_string(), few)];
    for bg in [Bg::Near, Bg::Just, Bg::Full] {
        let h = background(kind, p, bg);
        if h.len() <= cost && (dense_too || bg == Bg::Near) {
            v.push((format!("{:?}", bg), h));
        }
    }
    v
}

/// Two counts and a given number of operations between them: every number up to 600 and
/// those around 2^16. The operations change the sketch every time, or the first time only.
fn between<T: Sk>(ctx: &mut Ctx, p: u8, from: &str, base: &[u64], what: &str, act: &dyn Fn(&mut T, usize), limit: usize) {
    let x0: T = {
        let mut x: T = build(p, base);
        x.cnt();
        x
    };
    let top = (1usize << 16) + 2;
    let mut want = std::collections::HashMap::new();
    let ks: Vec<usize> = (1..=600).chain([1 << 10, 1 << 12, 1 << 15, top - 3, top - 2, top - 1, top]).filter(|&k| k <= limit).collect();
    let mut y: T = build(p, base);
    let mut at = 0;
    for &k in &ks {
        while at < k {
            act(&mut y, at);
            at += 1;
        }
        // never counted
        want.insert(k, y.est());
    }
    for &k in &ks {
        beat();
        if past_deadline() {
            ctx.capped = true;
            return;
        }
        let mut x = x0.clone();
        x.cnt();
        for i in 0..k {
            act(&mut x, i);
        }
        ctx.states += 1;
        ctx.traces += 1;
        ctx.transitions += k as u64;
        if !ctx.expect(x.cnt(), &[want[&k]], || (format!("{} p={} from {}: two counts and {} {} between them", T::TY, p, from, k, what), vec![])) {
            return;
        }
    }
}
fn intervals<T: Sk>(ctx: &mut Ctx, p: u8) {
    let m = 1usize << p;
    let r = max_rank(T::KIND, p) as usize;
    for (from, base, low) in [("nothing", vec![], 0usize), ("Full", background(T::KIND, p, Bg::Full), 8)] {
        let al = alphabet(T::KIND, p, 6);
        for &a in &[al[0], al[2], 0] {
            between::<T>(ctx, p, from, &base, "inserts of one value", &|x, _| x.ins(a), usize::MAX);
        }
        between::<T>(ctx, p, from, &base, "changes", &|x, i| x.ins(mk(T::KIND, p, i * 5 % m, (1 + low + i / m) as u32, 0x2a)), (r - low) * m);
    }
}

/// P01, P02, P12: inserts of what is there already, with and without counts.
pub fn inserting<T: Sk>(th: bool) -> Vec<Case> {
    let mut v = vec![];
    for p in (T::PMIN..=T::PMAX).rev() {
        v.push(case(format!("{:?} p={} any number of inserts between two counts", T::KIND, p), move |c| intervals::<T>(c, p)));
        v.push(case(format!("{:?} p={} inserts repeated {} times", T::KIND, p, LONG), move |c| {
            for (name, base) in states(T::KIND, p, 1 << 18, true) {
                let al = alphabet(T::KIND, p, 4);
                let n = if th { 20 * LONG } else { LONG };
                let with = |k: usize| {
                    let mut s = base.clone();
                    s.extend(&al[..k]);
                    s
                };
                for k in [1, 2, 4] {
                    endure::<T>(c, p, &format!("from {}, one of {} values inserted", name, k), &base, &with(k), n, &|x, i| Ok(x.ins(al[i % k])));
                }
                if !base.is_empty() {
                    endure::<T>(c, p, &format!("from {}, its values inserted in turn", name), &base, &base, n, &|x, i| Ok(x.ins(base[i % base.len()])));
                }
                if base.len() <= if th { 1 << 12 } else { 100 } && (T::KIND == Kind::Plus || p <= if th { 16 } else { 12 }) {
                    endure::<T>(c, p, &format!("from {}, a value inserted and counted", name), &base, &with(1), LONG, &|x, _| {
                        x.ins(al[0]);
                        x.cnt();
                        Ok(())
                    });
                }
            }
        }));
    }
    v
}

/// P03, P04, P12: merges.
pub fn merging<T: Sk>(th: bool) -> Vec<Case> {
    let mut v = vec![];
    for p in T::PMIN..=if th { 10 } else { 6 } {
        v.push(case(format!("{:?} p={} merges repeated {} times", T::KIND, p, LONG), move |c| {
            let all = states(T::KIND, p, 2048, true);
            for (name, base) in &all {
                for (other, oset) in &all {
                    let o: T = build(p, oset);
                    let mut set = base.clone();
                    set.extend(oset);
                    endure::<T>(c, p, &format!("from {}, {} merged in", name, other), base, &set, LONG, &|x, _| x.mrg(&o).map_err(|e| format!("refused: {:?}", e)));
                }
                for (other, oset) in &all {
                    let o: T = build(p, oset);
                    between::<T>(c, p, name, base, &format!("merges of {}", other), &|x, _| x.mrg(&o).unwrap_or_else(|e| panic!("IMPL: merge failed {:?}", e)), if p == 4 { usize::MAX } else { 600 });
                }
                let three: Vec<T> = all[..3].iter().map(|o| build(p, &o.1)).collect();
                let mut set = base.clone();
                for o in &all[..3] {
                    set.extend(&o.1);
                }
                endure::<T>(c, p, &format!("from {}, one of three merged in", name), base, &set, LONG, &|x, i| x.mrg(&three[i % 3]).map_err(|e| format!("refused: {:?}", e)));
            }
        }));
    }
    v
}

/// Any operation after which the sketch must be as before, from small states.
pub fn events<T: Sk>(th: bool, pmax: u8, what: &str, dense_too: bool, n: usize, events: fn(u8) -> Vec<Event<T>>) -> Vec<Case> {
    let mut v = vec![];
    for p in T::PMIN..=pmax {
        let names: Vec<&'static str> = events(p).iter().map(|e| e.0).collect();
        for (k, name) in names.into_iter().enumerate() {
            // each time costs several estimates of other sketches
            let n = if name == "refused merges into others" { n / 8 } else { n };
            v.push(case(format!("{:?} p={} {}: {} repeated {} times", T::KIND, p, what, name, n), move |c| {
                let ev = events(p);
                for (from, base) in states(T::KIND, p, if th { 4096 } else { 100 }, dense_too) {
                    endure::<T>(c, p, &format!("from {}, {}", from, name), &base, &base, n, &|x, i| {
                        // the events take the sketch by value
                        let y = std::mem::replace(x, T::new_(p));
                        *x = ev[k].1(y, i)?;
                        Ok(())
                    });
                }
            }));
        }
    }
    v
}

/// P20: as many other sketches come into being, and go, or stay.
pub fn crowds<A: Sk, B: Sk>(th: bool) -> Vec<Case> {
    let mut v = vec![];
    for p in [4u8, 7, 10] {
        v.push(case(format!("{:?} p={} among {} sketches {:?}", A::KIND, p, LONG, B::KIND), move |c| {
            for (from, base) in states(A::KIND, p, if th { 4096 } else { 1024 }, true) {
                for keep in [false, true] {
                    let crowd = std::cell::RefCell::new(vec![]);
                    endure::<A>(c, p, &format!("from {}, another sketch made, filled, counted and {}", from, if keep { "kept" } else { "dropped" }), &base, &base, LONG, &|_, i| {
                        let mut o = B::new_(4 + (i % 3) as u8);
                        o.ins(mix(i as u64));
                        o.ins(mix(i as u64 / 2));
                        let e = o.cnt();
                        if !(e > 0.5 && e < 2.5) {
                            return Err(format!("the other sketch estimates {} after two inserts", e));
                        }
                        if keep {
                            crowd.borrow_mut().push((o, e));
                        }
                        Ok(())
                    });
                    for (i, (o, e)) in crowd.borrow_mut().iter_mut().enumerate() {
                        let e = *e;
                        if !c.expect(o.cnt(), &[e], || (format!("sketch {} of the crowd", i), vec![])) {
                            return;
                        }
                    }
                }
            }
        }));
    }
    v
}
