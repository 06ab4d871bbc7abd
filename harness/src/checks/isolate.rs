//! P20: sketches share nothing. Every sequence of operations over two sketches, on
//! one thread, nested in each other, or handed between threads by a controlled
//! scheduler.
use crate::gen::*;
use crate::refm::*;
use crate::report::*;
use crate::sk::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::mpsc::{channel, Receiver, Sender};

enum Any {
    Pf(Pf),
    Plus(Plus),
}
impl Any {
    fn ins(&mut self, h: u64) {
        match self {
            Any::Pf(s) => s.ins(h),
            Any::Plus(s) => s.ins(h),
        }
    }
    fn cnt(&mut self) -> f64 {
        match self {
            Any::Pf(s) => s.cnt(),
            Any::Plus(s) => s.cnt(),
        }
    }
    fn dup(&self) -> Any {
        match self {
            Any::Pf(s) => Any::Pf(s.clone()),
            Any::Plus(s) => Any::Plus(s.clone()),
        }
    }
    fn ins_any(&mut self, v: &Nest) {
        match self {
            Any::Pf(s) => s.insert_any(v),
            Any::Plus(s) => s.insert_any(v),
        }
    }
    fn saved(&self) -> Any {
        match self {
            Any::Pf(s) => Any::Pf(s.pos()),
            Any::Plus(s) => Any::Plus(s.pos()),
        }
    }
    /// None: of different variants, which the types do not allow to be merged
    fn mrg(&mut self, o: &Any) -> Option<bool> {
        match (self, o) {
            (Any::Pf(a), Any::Pf(b)) => Some(a.mrg(b).is_ok()),
            (Any::Plus(a), Any::Plus(b)) => Some(a.mrg(b).is_ok()),
            _ => None,
        }
    }
}

thread_local! {
    static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
/// A value whose hash computation first runs whatever is in HOOK.
struct Nest(u64);
impl Hash for Nest {
    fn hash<H: Hasher>(&self, state: &mut H) {
        let f = HOOK.with(|h| h.borrow_mut().take());
        if let Some(f) = f {
            f()
        }
        state.write_u64(self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Setting {
    kind: Kind,
    p: u8,
    bg: Bg,
}
impl Setting {
    fn fresh(&self, hs: &[u64]) -> Any {
        match self.kind {
            Kind::Pf => Any::Pf(build(self.p, hs)),
            Kind::Plus => Any::Plus(build(self.p, hs)),
        }
    }
}

/// Runs closures one at a time; the caller waits for each.
struct Worker(Sender<Box<dyn FnOnce() + Send>>, Receiver<bool>);
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = channel::<Box<dyn FnOnce() + Send>>();
        let (dtx, drx) = channel();
        std::thread::spawn(move || {
            while let Ok(f) = rx.recv() {
                let ok = guard(f).is_ok();
                if dtx.send(ok).is_err() {
                    break;
                }
            }
        });
        Worker(tx, drx)
    }
}
struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
/// Run `f` on the given thread (none: this one) and wait for it.
fn on<R>(w: Option<&Worker>, f: impl FnOnce() -> R) -> R {
    let Some(w) = w else { return f() };
    let mut out: Option<R> = None;
    let job: Box<dyn FnOnce()> = Box::new(|| out = Some(f()));
    // the caller blocks until the job has run, so what it borrows stays alive, and
    // nothing runs concurrently
    let raw = Ptr(Box::into_raw(Box::new(Some(job))));
    let addr = raw.0 as usize;
    let ok = {
        let call: Box<dyn FnOnce() + Send> = Box::new(move || unsafe {
            let mut j: Box<Option<Box<dyn FnOnce()>>> = Box::from_raw(addr as *mut _);
            (j.take().unwrap())()
        });
        w.0.send(call).expect("worker");
        w.1.recv().expect("worker")
    };
    if !ok {
        panic!("IMPL: an operation panicked on another thread");
    }
    out.unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    /// both on the exploring thread, staying where they are in memory
    Still,
    /// both on the exploring thread, changing places after every operation
    Swap,
    /// each on its own thread
    Own,
    /// operations alternate between two threads
    Hop,
    /// an operation that follows an insert into the other sketch is executed while
    /// that insert computes the hash
    Inside,
}

const KINDS: usize = 7;
struct World<'a> {
    set: [Setting; 2],
    base: [Vec<u64>; 2],
    al: [Vec<u64>; 2],
    memo: HashMap<(usize, u64), Vec<f64>>,
    workers: Vec<&'a Worker>,
    place: Place,
}
impl<'a> World<'a> {
    /// mask: bits 0..4 alphabet of slot 0, bit 4 base of slot 0; 5..10 the same of slot 1
    fn want(&mut self, slot: usize, mask: u64) -> &Vec<f64> {
        let (set, base, al) = (self.set, &self.base, &self.al);
        self.memo.entry((slot, mask)).or_insert_with(|| {
            let mut hs = vec![];
            for k in 0..2 {
                for j in 0..al[k].len() {
                    if mask >> (5 * k + j) & 1 == 1 {
                        hs.push(al[k][j]);
                    }
                }
                if mask >> (5 * k + 4) & 1 == 1 {
                    hs.extend(&base[k]);
                }
            }
            est_set(set[slot].kind, set[slot].p, &hs)
        })
    }
    fn code(&self, op: usize) -> String {
        let (s, k) = (["a", "b"][op / KINDS], op % KINDS);
        match k {
            0 | 1 => format!("{}.insert(&{:#x});", s, self.al[op / KINDS][k]),
            2 => format!("{}.count();", s),
            3 => format!("{} = new({});", s, self.set[op / KINDS].p),
            4 => format!("{0} = {0}.clone();", s),
            5 => format!("{}.merge(&{});", s, ["b", "a"][op / KINDS]),
            _ => format!("{} = restored from its serialized form;", s),
        }
    }
    fn play(&mut self, ctx: &mut Ctx, init: &[Any; 2], word: &[usize]) -> bool {
        let mut sl: Vec<Any> = vec![init[0].dup(), init[1].dup()];
        // which place holds which sketch
        let mut at = [0usize, 1];
        let mut mask = [1u64 << 4, 1 << 9];
        let trace = |w: &World, n: usize| -> Vec<String> {
            let mut v = vec![format!("a: {:?}; b: {:?}; {:?}", w.set[0], w.set[1], w.place)];
            v.extend(word[..n].iter().map(|&o| w.code(o)));
            v
        };
        let workers = self.workers.clone();
        let mut nested = false;
        for (n, &op) in word.iter().chain([&2, &(KINDS + 2)]).enumerate() {
            let (i, k) = (op / KINDS, op % KINDS);
            if self.place == Place::Inside {
                if nested {
                    // executed within the previous one
                    nested = false;
                    continue;
                }
                let next = word.get(n + 1).map(|o| (o / KINDS, o % KINDS));
                if let (0 | 1, Some((j, q))) = (k, next) {
                    if j != i && q != 5 {
                        let y = &mut sl[j] as *mut Any;
                        let h = self.al[j][q & 1];
                        let set = self.set[j];
                        let got = std::rc::Rc::new(std::cell::Cell::new(None));
                        let g = got.clone();
                        // sl[j] is not otherwise used while sl[i] is inserted into
                        HOOK.with(|k| {
                            *k.borrow_mut() = Some(Box::new(move || {
                                let y = unsafe { &mut *y };
                                match q {
                                    0 | 1 => y.ins(h),
                                    2 => g.set(Some(y.cnt())),
                                    3 => *y = set.fresh(&[]),
                                    4 => *y = y.dup(),
                                    _ => *y = y.saved(),
                                }
                            }))
                        });
                        sl[i].ins_any(&Nest(self.al[i][k]));
                        HOOK.with(|k| *k.borrow_mut() = None);
                        ctx.transitions += 2;
                        mask[i] |= 1 << (5 * i + k);
                        match q {
                            0 | 1 => mask[j] |= 1 << (5 * j + q),
                            3 => mask[j] = 0,
                            _ => (),
                        }
                        if let Some(got) = got.get() {
                            let want = self.want(j, mask[j]).clone();
                            if !ctx.expect(got, &want, || ("count inside an insert into the other".into(), trace(self, n + 2))) {
                                return false;
                            }
                        }
                        nested = true;
                        continue;
                    }
                }
            }
            let w = match self.place {
                Place::Still | Place::Swap | Place::Inside => None,
                Place::Own => Some(workers[i]),
                Place::Hop => Some(workers[n & 1]),
            };
            ctx.transitions += 1;
            let x = at[i];
            match k {
                0 | 1 => {
                    let h = self.al[i][k];
                    on(w, || sl[x].ins(h));
                    mask[i] |= 1 << (5 * i + k);
                }
                2 => {
                    let got = on(w, || sl[x].cnt());
                    let want = self.want(i, mask[i]).clone();
                    if !ctx.expect(got, &want, || (format!("count of {} among operations on the other", ["a", "b"][i]), trace(self, n.min(word.len())))) {
                        return false;
                    }
                }
                3 => {
                    let set = self.set[i];
                    on(w, || sl[x] = set.fresh(&[]));
                    mask[i] = 0;
                }
                4 => on(w, || {
                    let c = sl[x].dup();
                    sl[x] = c
                }),
                5 => {
                    let y = at[1 - i];
                    let r = on(w, || {
                        let (a, b) = sl.split_at_mut(1);
                        if x < y {
                            a[0].mrg(&b[0])
                        } else {
                            b[0].mrg(&a[0])
                        }
                    });
                    if let Some(ok) = r {
                        ctx.evaluations += 1;
                        if ok != (self.set[0].p == self.set[1].p) {
                            ctx.fail(format!("merge returned {}", if ok { "Ok" } else { "an error" }), trace(self, n + 1));
                            return false;
                        }
                        if ok {
                            mask[i] |= mask[1 - i];
                        }
                    }
                }
                _ => on(w, || {
                    let c = sl[x].saved();
                    sl[x] = c
                }),
            }
            if self.place == Place::Swap {
                sl.swap(0, 1);
                at.swap(0, 1);
            }
        }
        ctx.traces += 1;
        true
    }
}

fn explore(ctx: &mut Ctx, a: Setting, b: Setting, place: Place, depth: usize) {
    let pool = [Worker::new(), Worker::new()];
    let base = [background(a.kind, a.p, a.bg), background(b.kind, b.p, b.bg)];
    let init = [a.fresh(&base[0]), b.fresh(&base[1])];
    // the values chosen so that the two sketches often agree in part
    let al = [alphabet(a.kind, a.p, 2), alphabet(b.kind, b.p, 2)];
    let mut w = World { set: [a, b], base, al, memo: HashMap::new(), workers: pool.iter().collect(), place };
    let mut word = vec![0usize; depth];
    loop {
        beat();
        ctx.states += 1;
        if !w.play(ctx, &init, &word) {
            return;
        }
        if ctx.states & 1023 == 0 && past_deadline() {
            ctx.capped = true;
            return;
        }
        let mut i = depth;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            word[i] += 1;
            if word[i] < 2 * KINDS {
                break;
            }
            word[i] = 0;
        }
    }
}

// Is T Send/Sync? Decided by method resolution, so that the harness still builds if not.
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
struct ProbeSend<T>(PhantomData<T>);
struct ProbeSync<T>(PhantomData<T>);
impl<T: Send> ProbeSend<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> ProbeSync<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> No for &ProbeSend<T> {}
impl<T> No for &ProbeSync<T> {}

fn autos(ctx: &mut Ctx) {
    use hyperloglogplus::*;
    use std::collections::hash_map::RandomState;
    macro_rules! t {
        ($($t:ty),*) => { $(
            ctx.states += 1;
            ctx.evaluations += 2;
            ctx.transitions += 1;
            ctx.traces += 1;
            let s = (&ProbeSend::<$t>(PhantomData)).send();
            let y = (&ProbeSync::<$t>(PhantomData)).sync();
            if !s || !y {
                ctx.fail(format!("{} is{} Send and is{} Sync", stringify!($t), if s { "" } else { " not" }, if y { "" } else { " not" }), vec![]);
            }
        )* };
    }
    t!(
        HyperLogLogPF<u64, RandomState>,
        HyperLogLogPlus<u64, RandomState>,
        HyperLogLogPF<String, PassB>,
        HyperLogLogPlus<String, PassB>,
        HyperLogLogPF<str, RandomState>,
        HyperLogLogPlus<str, RandomState>,
        HyperLogLogPF<[u8], PassB>,
        HyperLogLogPlus<[u8], PassB>,
        HyperLogLogError
    );
    // the probe itself tells them apart
    let no = (&ProbeSend::<std::rc::Rc<u8>>(PhantomData)).send() || (&ProbeSync::<std::cell::Cell<u8>>(PhantomData)).sync();
    assert!(!no && (&ProbeSend::<u8>(PhantomData)).send());
}

pub fn p20(tier: Tier) -> Vec<Case> {
    let th = tier == Tier::Thorough;
    let mut v = vec![case("the sketches are Send and Sync", autos)];
    let mut sets = vec![];
    for (kind, ps) in [(Kind::Pf, &[4u8, 5, 8, 12][..]), (Kind::Plus, &[4, 5, 8, 12][..])] {
        for &p in ps {
            for bg in [Bg::Empty, Bg::Near, Bg::Just, Bg::Mid, Bg::Sat] {
                if th || p < 8 || matches!(bg, Bg::Near | Bg::Mid) {
                    sets.push(Setting { kind, p, bg });
                }
            }
        }
    }
    for (i, &a) in sets.iter().enumerate() {
        for &b in &sets[i..] {
            let big = a.p.max(b.p);
            let d = match (big, th) {
                (..=5, false) => 4,
                (..=8, false) => 3,
                (_, false) => 3,
                (..=5, true) => 5,
                (..=8, true) => 4,
                (_, true) => 3,
            };
            for place in [Place::Still, Place::Swap, Place::Inside] {
                v.push(case(format!("{:?} and {:?}, {:?}, all sequences of {}", a, b, place, d), move |c| explore(c, a, b, place, d)));
            }
            let d = d.min(if th { 3 } else { 2 });
            for place in [Place::Own, Place::Hop] {
                v.push(case(format!("{:?} and {:?}, {:?}, all sequences of {}", a, b, place, d), move |c| explore(c, a, b, place, d)));
            }
        }
    }
    use super::endure::crowds;
    v.extend(crowds::<Plus, Plus>(th));
    v.extend(crowds::<Plus, Pf>(th));
    v.extend(crowds::<Pf, Plus>(th));
    v.extend(crowds::<Pf, Pf>(th));
    v
}
