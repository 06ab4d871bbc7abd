//! P05: precision limits, refused and accepted merges.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use hyperloglogplus::HyperLogLogError;

fn precisions<T: Sk>(ctx: &mut Ctx) {
    for p in 0..=255u8 {
        let r = T::try_new(p);
        let should = p >= T::PMIN && p <= T::PMAX;
        ctx.states += 1;
        ctx.transitions += 1;
        ctx.traces += 1;
        ctx.evaluations += 1;
        let ok = match &r {
            Ok(_) => should,
            Err(HyperLogLogError::InvalidPrecision) => !should,
            Err(_) => false,
        };
        if !ok {
            ctx.fail(format!("{}::new({}) returned {:?}", T::TY, p, r.map(|_| "a sketch")), vec![]);
            return;
        }
        if let Ok(mut s) = r {
            // usable over the whole range of registers
            let m = 1usize << p;
            let mut hs = vec![];
            for i in [0, 1, m / 2, m - 2, m - 1] {
                hs.push(mk(T::KIND, p, i, 1 + (i as u32 % 3), 0));
            }
            for &h in &hs {
                s.ins(h)
            }
            if !ctx.expect(s.cnt(), &est_set(T::KIND, p, &hs), || (format!("{}::new({}) and five inserts", T::TY, p), vec![])) {
                return;
            }
        }
    }
}

/// Every future up to `depth` of `x` and of its twin `y` gives the same estimates.
fn futures<T: Sk>(ctx: &mut Ctx, x: &T, y: &T, al: &[u64], other: &T, depth: usize, what: &dyn Fn(&str) -> (String, Vec<String>), path: &str) -> bool {
    let (a, b) = (x.est(), y.est());
    ctx.states += 1;
    if !ctx.expect(a, &[b], || what(path)) {
        return false;
    }
    if depth == 0 {
        return true;
    }
    for op in 0..al.len() + 2 {
        let (mut x, mut y) = (x.clone(), y.clone());
        let name;
        if op < al.len() {
            x.ins(al[op]);
            y.ins(al[op]);
            name = format!("{} insert {:#x};", path, al[op]);
        } else if op == al.len() {
            x.cnt();
            y.cnt();
            name = format!("{} count;", path);
        } else {
            let (a, b) = (x.mrg(other).is_ok(), y.mrg(other).is_ok());
            name = format!("{} merge an equal-precision sketch;", path);
            ctx.evaluations += 1;
            if !a || !b {
                let (m, t) = what(&name);
                ctx.fail(format!("{}: merge of equal precisions refused", m), t);
                return false;
            }
        }
        ctx.transitions += 1;
        if !futures(ctx, &x, &y, al, other, depth - 1, what, &name) {
            return false;
        }
    }
    ctx.traces += 1;
    true
}

fn pairs<T: Sk>(ctx: &mut Ctx, p: u8, q: u8, bgs: &[(Bg, Bg)], depth: usize) {
    let k = T::KIND;
    for &(ba, bb) in bgs {
        beat();
        for counted in [false, true] {
            let mut a: T = build(p, &background(k, p, ba));
            let mut b: T = build(q, &background(k, q, bb));
            if counted {
                if p.max(q) > 14 {
                    continue;
                }
                a.cnt();
                b.cnt();
            } else {
                // leave buffered values behind
                a.ins(mk(k, p, 3, 2, 0));
                b.ins(mk(k, q, 3, 2, 0));
            }
            let (ta, tb) = (a.clone(), b.clone());
            let r = a.mrg(&b);
            ctx.transitions += 1;
            ctx.evaluations += 1;
            let what = |path: &str| {
                (
                    format!("{} precisions {} and {}, states {:?} and {:?}", T::TY, p, q, ba, bb),
                    vec![format!("a: p={} {:?} counted={}; b: p={} {:?}; a.merge(&b); then:{}", p, ba, counted, q, bb, path)],
                )
            };
            if p != q {
                if !matches!(r, Err(HyperLogLogError::IncompatiblePrecision)) {
                    let (m, t) = what("");
                    ctx.fail(format!("{}: merge returned {:?}", m, r), t);
                    return;
                }
                let (ala, alb) = (alphabet(k, p, 2), alphabet(k, q, 2));
                let oa: T = build(p, &[mk(k, p, 1, 1, 0)]);
                let ob: T = build(q, &[mk(k, q, 1, 1, 0)]);
                if !futures(ctx, &a, &ta, &ala, &oa, depth, &what, "a:") || !futures(ctx, &b, &tb, &alb, &ob, depth, &what, "b:") {
                    return;
                }
            } else if r.is_err() {
                let (m, t) = what("");
                ctx.fail(format!("{}: merge returned {:?}", m, r), t);
                return;
            }
        }
    }
}

fn all<T: Sk>(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![case(format!("{:?} all 256 precisions", T::KIND), precisions::<T>)];
    let four = [Bg::Empty, Bg::Near, Bg::Just, Bg::Full];
    let mut every = vec![];
    for a in four {
        for b in four {
            every.push((a, b));
        }
    }
    for p in (4..=T::PMAX).rev() {
        for q in (4..=T::PMAX).rev() {
            let big = p.max(q);
            let bgs: Vec<(Bg, Bg)> = if big <= 13 || th {
                every.clone()
            } else if T::KIND == Kind::Pf {
                vec![(Bg::Near, Bg::Just), (Bg::Just, Bg::Empty), (Bg::Empty, Bg::Full)]
            } else {
                vec![(Bg::Empty, Bg::Near), (Bg::Near, Bg::Empty), (Bg::Full, Bg::Near), (Bg::Near, Bg::Full)]
            };
            let depth = match (big, th) {
                (..=9, true) => 4,
                (..=13, true) => 3,
                (..=8, false) => 3,
                (..=13, false) => 2,
                _ => 1,
            };
            v.push(case(format!("{:?} p={} with p={}", T::KIND, p, q), move |c| pairs::<T>(c, p, q, &bgs, depth)));
        }
    }
    v
}
pub fn p05(tier: Tier) -> Vec<Case> {
    let mut v = all::<Plus>(tier);
    v.extend(all::<Pf>(tier));
    let th = tier == Tier::Thorough;
    v.extend(super::moments::cases::<Plus>(th, |p| super::moments::refused(p)));
    v.extend(super::moments::cases::<Pf>(th, |p| super::moments::refused(p)));
    let (n, top) = (super::endure::LONG, if th { 8 } else { 5 });
    v.extend(super::endure::events::<Plus>(th, top, "refusals", true, n, |p| super::moments::refused(p)));
    v.extend(super::endure::events::<Pf>(th, top, "refusals", true, n, |p| super::moments::refused(p)));
    v
}
