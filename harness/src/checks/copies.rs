//! P13, P14: a sketch written over another one (`clone_from`, `deserialize_in_place`),
//! from every kind of state over every kind of state, of any precision.
use crate::gen::*;
use crate::report::*;
use crate::sk::*;

fn state<T: Sk>(p: u8, bg: Bg, extra: &[u64], counted: bool) -> (T, Vec<u64>) {
    let mut set = background(T::KIND, p, bg);
    let mut x: T = build(p, &set);
    if counted {
        x.cnt();
    }
    for &h in extra {
        x.ins(h);
    }
    set.extend(extra);
    (x, set)
}

fn over<T: Sk>(ctx: &mut Ctx, p: u8, q: u8, over: &dyn Fn(&mut T, &T), how: &str, heavy: bool) {
    let al = alphabet(T::KIND, p, 7);
    let aq = alphabet(T::KIND, q, 3);
    let mut memo = std::collections::HashMap::new();
    let targets: Vec<(Bg, bool, T)> = BGS
        .iter()
        .filter(|&&tg| heavy || tg != Bg::Just && tg != Bg::Mid)
        .flat_map(|&tg| [false, true].map(|c| (tg, c, state::<T>(q, tg, &aq, c).0)))
        .collect();
    for bg in BGS {
        for counted in [false, true] {
            let (src, set) = state::<T>(p, bg, &al[..2], counted);
            let mut want = |hs: &[u64], n: usize| -> f64 {
                *memo.entry((bg, n)).or_insert_with(|| {
                    let mut v = set.clone();
                    v.extend(hs);
                    canonical::<T>(p, &v)
                })
            };
            for (tg, tcounted, target) in &targets {
                {
                    beat();
                    if past_deadline() {
                        ctx.capped = true;
                        return;
                    }
                    let tell = |m: &str| {
                        (format!("{} p={} {:?} counted={} written by {} over p={} {:?} counted={}: {}", T::TY, p, bg, counted, how, q, tg, tcounted, m), vec![])
                    };
                    let mut t = target.clone();
                    over(&mut t, &src);
                    ctx.states += 1;
                    ctx.traces += 1;
                    let w0 = want(&[], 0);
                    if !ctx.expect(t.est(), &[w0], || tell("its estimate")) || !ctx.expect(src.est(), &[w0], || tell("the original's estimate")) {
                        return;
                    }
                    // any future, one by one, the original following behind
                    let mut s2 = src.clone();
                    for k in 2..al.len() {
                        t.ins(al[k]);
                        ctx.transitions += 1;
                        let w = want(&al[2..=k], k);
                        if !ctx.expect(t.est(), &[w], || tell(&format!("and {} values", k - 1))) || !ctx.expect(s2.est(), &[if k == 2 { w0 } else { want(&al[2..k], k - 1) }], || tell("the original afterwards")) {
                            return;
                        }
                        s2.ins(al[k]);
                    }
                    // many values
                    for &h in al.iter().take(2) {
                        t.ins(h);
                    }
                    let full = want(&al[2..], al.len() - 1);
                    if !ctx.expect(t.cnt(), &[full], || tell("and its values again")) {
                        return;
                    }
                    // merges either way
                    let mut a: T = T::new_(p);
                    let mut r = a.mrg(&t);
                    let mut b = t.clone();
                    r = r.and(b.mrg(&src));
                    if let Err(e) = r {
                        let (m, v) = tell(&format!("merge refused: {:?}", e));
                        ctx.fail(m, v);
                        return;
                    }
                    if !ctx.expect(a.cnt(), &[full], || tell("merged into an empty one")) || !ctx.expect(b.cnt(), &[full], || tell("with the original merged in")) {
                        return;
                    }
                    let mut c: T = T::new_(if p == 4 { 5 } else { 4 });
                    if c.mrg(&t).is_ok() {
                        let (m, v) = tell("merged into another precision");
                        ctx.fail(m, v);
                        return;
                    }
                }
            }
        }
    }
}

/// For every precision: over its own and over smaller and larger ones.
fn each<T: Sk>(th: bool, how: &'static str, f: fn(&mut T, &T)) -> Vec<Case> {
    let mut v = vec![];
    for p in T::PMIN..=T::PMAX {
        for q in T::PMIN..=T::PMAX {
            let near = p == q || (p <= 12 && q <= 12) || (p as i32 - q as i32).abs() == 1;
            if th || near && (p == q || p <= 9 && q <= 9 || (p as i32 - q as i32).abs() == 1) {
                let heavy = th || p <= 12 && q <= 12;
                v.push(case(format!("{:?} p={} over p={} by {}", T::KIND, p, q, how), move |c| over::<T>(c, p, q, &f, how, heavy)));
            }
        }
    }
    v
}

pub fn clones<T: Sk>(th: bool) -> Vec<Case> {
    each::<T>(th, "clone_from", |t, s| t.clone_from(s))
}

/// P14: saved and restored into a sketch that exists.
pub fn restored<T: Sk>(th: bool) -> Vec<Case> {
    let mut v = each::<T>(th, "deserialize_in_place from JSON", |t, s| s.into_place(t, 0));
    v.extend(each::<T>(th, "deserialize_in_place from CBOR", |t, s| s.into_place(t, 1)));
    v
}

type Route<T> = (&'static str, fn(&T) -> T);

/// A sketch and a copy of it, which then receive any values each, merged again: either
/// into the other, and once more after the source received another value.
fn kin<T: Sk>(ctx: &mut Ctx, p: u8, bg: Bg, n: usize, routes: &[Route<T>]) {
    let al = alphabet(T::KIND, p, n + 1);
    let n = al.len() - 1;
    let base = background(T::KIND, p, bg);
    let built: T = build(p, &base);
    let mut memo = std::collections::HashMap::new();
    let mut want = |mask: usize| -> f64 {
        *memo.entry(mask).or_insert_with(|| {
            let mut v = base.clone();
            v.extend((0..=n).filter(|i| mask >> i & 1 == 1).map(|i| al[i]));
            canonical::<T>(p, &v)
        })
    };
    let put = |s: &mut T, mask: usize| (0..=n).filter(|i| mask >> i & 1 == 1).for_each(|i| s.ins(al[i]));
    for (how, route) in routes {
        for counted in 0..3 {
            let mut orig = built.clone();
            if counted == 1 {
                orig.cnt();
            }
            let copy = route(&orig);
            for a in 0..1usize << n {
                for b in 0..1usize << n {
                    beat();
                    if past_deadline() {
                        ctx.capped = true;
                        return;
                    }
                    let (mut x, mut y) = (orig.clone(), copy.clone());
                    put(&mut x, a);
                    put(&mut y, b);
                    if counted == 2 {
                        x.cnt();
                        y.cnt();
                    }
                    let last = 1 << n;
                    for (turn, t, s) in [(0, &x, &y), (1, &y, &x)] {
                        let (mut t, mut s) = (t.clone(), s.clone());
                        let tell = |m: &str| {
                            (
                                format!("{} p={}: a sketch and its copy, {}", T::TY, p, m),
                                vec![format!("{:?}, copied by {}, {}; original receives {:x?} (mask {:b}), copy mask {:b}; {}", bg, how, ["never counted", "counted before", "both counted after"][counted], al, a, b, ["original.merge(&copy)", "copy.merge(&original)"][turn])],
                            )
                        };
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 3 + (a.count_ones() + b.count_ones()) as u64;
                        for (m, more) in [("merged", false), ("merged once more after another value", true)] {
                            if more {
                                s.ins(al[n]);
                            }
                            if let Err(e) = t.mrg(&s) {
                                let (m, v) = tell(&format!("{}: refused {:?}", m, e));
                                ctx.fail(m, v);
                                return;
                            }
                            if !ctx.expect(t.est(), &[want(a | b | if more { last } else { 0 })], || tell(m)) {
                                return;
                            }
                        }
                        let own = if turn == 0 { b } else { a };
                        if !ctx.expect(s.est(), &[want(own | last)], || tell("the source afterwards")) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn all_kin<T: Sk>(th: bool, name: &str, routes: fn() -> Vec<Route<T>>) -> Vec<Case> {
    let mut v = vec![];
    for p in (T::PMIN..=T::PMAX).rev() {
        for bg in BGS {
            let n = match (p, th) {
                (..=9, false) => 3,
                (..=9, true) => 5,
                (..=12, true) => 4,
                (..=12, false) => 2,
                (_, true) => 2,
                _ => 1,
            };
            v.push(case(format!("{:?} p={} {:?} merged with its copies ({}) alphabet={}", T::KIND, p, bg, name, n), move |c| kin::<T>(c, p, bg, n, &routes())));
        }
    }
    v
}

fn by_clone_from<T: Sk>(x: &T) -> T {
    let mut t = T::new_(T::PMIN);
    t.ins(mix(1));
    t.clone_from(x);
    t
}
fn by_place<T: Sk>(x: &T) -> T {
    let mut t = T::new_(T::PMIN);
    t.ins(mix(1));
    x.into_place(&mut t, 0);
    t
}
fn cloned<T: Sk>() -> Vec<Route<T>> {
    vec![("clone", T::clone), ("clone_from", by_clone_from::<T>)]
}
fn saved<T: Sk>() -> Vec<Route<T>> {
    vec![("JSON", T::json), ("CBOR", T::cbor), ("deserialize_in_place", by_place::<T>)]
}
fn any_way<T: Sk>() -> Vec<Route<T>> {
    vec![("clone", T::clone), ("clone_from", by_clone_from::<T>), ("JSON", T::json), ("CBOR", T::cbor)]
}
pub fn kin_of_clones<T: Sk>(th: bool) -> Vec<Case> {
    all_kin::<T>(th, "cloned", cloned::<T>)
}
pub fn kin_of_saved<T: Sk>(th: bool) -> Vec<Case> {
    all_kin::<T>(th, "saved", saved::<T>)
}
pub fn kin_of_all<T: Sk>(th: bool) -> Vec<Case> {
    all_kin::<T>(th, "copied", any_way::<T>)
}
