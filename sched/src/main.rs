#![allow(dead_code)]
#[path = "../../harness/src/build.rs"]
mod build;
#[path = "../../harness/src/indep.rs"]
mod indep;
#[path = "../../harness/src/infra.rs"]
mod infra;
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/dump.rs"]
mod dump;
mod c07;
mod c08;
mod litmus;
mod pack;
mod run;

use infra::*;
use std::path::PathBuf;

/// Memory that is not initialised, or not any more, does not look like stored bytes.
struct Poison;
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() && (256..=65536).contains(&l.size()) { std::ptr::write_bytes(p, 0xA5, l.size()) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if (256..=65536).contains(&l.size()) { std::ptr::write_bytes(p, 0xDD, l.size()) }
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Poison = Poison;

fn suite(id: &str) -> Option<Suite> {
    match id { "C07" => Some(c07::suite()), "C08" => Some(c08::suite()), _ => None }
}
fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

fn main() {
    let _ = ON_PANIC.set(|l| eng::LAST.with(|x| *x.borrow_mut() = format!(" at {l}")));
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match get(1).as_str() {
        "check" => {
            let (id, t) = (get(2), tier(&get(3)));
            let budget = std::env::var("JV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match t { Tier::Quick => 240, Tier::Thorough => 780 });
            check(&id, &suite(&id).expect("unknown property"), t, &[("release".into(), std::env::current_exe().unwrap())], budget)
        }
        "child" => { child(&suite(&get(2)).unwrap(), tier(&get(3)), &PathBuf::from(get(4)), &get(5), get(6).parse().unwrap_or(600)); 0 }
        "one" => {
            let sc;
            let w = if get(5).is_empty() { sc = Scratch::new("one"); sc.0.clone() } else { PathBuf::from(get(5)) };
            one(&suite(&get(2)).unwrap(), tier(&get(3)), &get(4), &w)
        }
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(get(2)).unwrap()).unwrap();
            let sc = Scratch::new("replay");
            one(&suite(j["property"].as_str().unwrap()).unwrap(), tier(j["tier"].as_str().unwrap()), j["key"].as_str().unwrap(), &sc.0)
        }
        _ => { eprintln!("jvs check|one|replay"); 2 }
    };
    std::process::exit(code);
}
