//! Explicit-state search over histories of the real code.
use crate::report::{beat, guard, past_share, Ctx};
use std::collections::{HashMap, VecDeque};

pub trait Model {
    /// real object(s) plus the reference state
    type S: Clone;
    fn init(&self) -> Vec<Self::S>;
    fn init_code(&self) -> Vec<String>;
    fn ops(&self) -> usize;
    /// Apply one operation to the real object(s) and the reference state.
    /// None: not enabled here.
    fn apply(&self, s: &Self::S, op: usize) -> Result<Option<Self::S>, String>;
    /// Compare the real object(s) with the reference; returns what was observed.
    fn check(&self, s: &Self::S) -> Result<Obs, String>;
    fn key(&self, s: &Self::S) -> u128;
    /// A Rust statement for the operation.
    fn op_code(&self, op: usize) -> String;
}

pub struct Obs {
    pub values: [f64; 3],
    pub n: usize,
    pub compared: u64,
}

/// Breadth-first to a fixpoint (or to `max_states`, then the run is reported as
/// capped). Every transition executes the real code; every new state is checked.
pub fn closure<M: Model>(m: &M, ctx: &mut Ctx, max_states: usize) {
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut parent: Vec<(u32, u16, u16)> = vec![]; // parent, op, depth
    let mut queue: VecDeque<(u32, M::S)> = VecDeque::new();
    let trace_of = |parent: &Vec<(u32, u16, u16)>, mut i: u32, last: Option<usize>| {
        let mut t = vec![];
        if let Some(op) = last {
            t.push(m.op_code(op));
        }
        while parent[i as usize].0 != u32::MAX {
            t.push(m.op_code(parent[i as usize].1 as usize));
            i = parent[i as usize].0;
        }
        t.extend(m.init_code().into_iter().rev());
        t.reverse();
        t
    };
    let nops = m.ops();
    for s in m.init() {
        let k = m.key(&s);
        if seen.contains_key(&k) {
            continue;
        }
        let id = parent.len() as u32;
        parent.push((u32::MAX, 0, 0));
        seen.insert(k, id);
        ctx.states += 1;
        match guard(|| m.check(&s)).and_then(|r| r) {
            Ok(o) => note(ctx, &o),
            Err(e) => {
                let t = trace_of(&parent, id, None);
                return violate(ctx, e, t);
            }
        }
        queue.push_back((id, s));
    }
    let mut depth = 0u16;
    while let Some((id, s)) = queue.pop_front() {
        beat();
        // an implementation with endlessly many states must not exhaust the memory
        if past_share() || crate::LIVE.with(|l| l.get()) > 2_500_000_000 {
            ctx.capped = true;
            break;
        }
        let d = parent[id as usize].2;
        depth = depth.max(d);
        for op in 0..nops {
            let r = guard(|| m.apply(&s, op)).and_then(|r| r);
            let n = match r {
                Ok(None) => continue,
                Ok(Some(n)) => n,
                Err(e) => {
                    let t = trace_of(&parent, id, Some(op));
                    return violate(ctx, e, t);
                }
            };
            ctx.transitions += 1;
            let k = m.key(&n);
            if seen.contains_key(&k) {
                continue;
            }
            if seen.len() >= max_states {
                ctx.capped = true;
                continue;
            }
            let nid = parent.len() as u32;
            parent.push((id, op as u16, d + 1));
            seen.insert(k, nid);
            ctx.states += 1;
            ctx.traces += 1;
            match guard(|| m.check(&n)).and_then(|r| r) {
                Ok(o) => note(ctx, &o),
                Err(e) => {
                    let t = trace_of(&parent, nid, None);
                    return violate(ctx, e, t);
                }
            }
            if ctx.states == 40 {
                let t = trace_of(&parent, nid, None).join(" ");
                ctx.sample(t);
            }
            queue.push_back((nid, n));
        }
    }
    ctx.note_max("history length", depth as f64);
}

fn note(ctx: &mut Ctx, o: &Obs) {
    ctx.evaluations += o.compared;
    for i in 0..o.n {
        ctx.outcome(o.values[i]);
    }
}

fn violate(ctx: &mut Ctx, e: String, t: Vec<String>) {
    let body: Vec<String> = t.iter().map(|l| format!("    {}", l)).collect();
    let ut = format!(
        "// expected: {}\n#[test]\nfn replay() {{\n{}\n}}\n",
        e.replace('\n', " "),
        body.join("\n")
    );
    let case = ctx.case.clone();
    ctx.violations.push(crate::report::Violation { case, msg: e, trace: t, unit_test: Some(ut) });
}
