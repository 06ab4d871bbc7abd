//! Bounded exhaustive exploration of hyperloglogplus. See /verif/DESIGN.md.
mod checks;
mod explore;
mod gen;
mod pos;
mod props;
mod refm;
mod report;
mod sk;
mod tables;

use report::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Live and peak heap bytes of the current thread.
pub struct Counting;
thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
}
#[inline]
fn account(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn usage() -> i32 {
    eprintln!("usage: mc check Pnn [--tier quick|thorough] [--case ID] | mc list Pnn | mc replay FILE");
    2
}

fn go() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    refm::self_check();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32);
    match a.first().map(|s| s.as_str()) {
        Some("check") | Some("list") => {
            let t = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let tier = tier_of(&t);
            let Some(prop) = a.get(1).and_then(|id| props::get(id, tier)) else { return usage() };
            if a[0] == "list" {
                for c in &prop.cases {
                    println!("{}", c.id);
                }
                return 0;
            }
            let case = opt("--case");
            set_deadline(tier);
            let total = run(&prop, case.as_deref(), threads);
            finish(&prop, tier, total, case.is_some())
        }
        Some("replay") => {
            let Some(t) = a.get(1).and_then(|f| std::fs::read_to_string(f).ok()) else { return usage() };
            let j: serde_json::Value = match serde_json::from_str(&t) {
                Ok(j) => j,
                Err(e) => {
                    eprintln!("not a replay file: {}", e);
                    return 2;
                }
            };
            let tier = tier_of(j["tier"].as_str().unwrap_or("quick"));
            let Some(prop) = props::get(j["property"].as_str().unwrap_or(""), tier) else { return usage() };
            let total = run(&prop, j["case"].as_str(), 1);
            finish(&prop, tier, total, true)
        }
        _ => usage(),
    }
}

fn main() {
    std::process::exit(go())
}
