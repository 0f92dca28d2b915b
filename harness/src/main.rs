#![allow(dead_code)]
mod build;
mod dump;
mod indep;
mod infra;
mod model;
mod spec;
mod suites;
mod trace;

use infra::*;
use std::path::PathBuf;

fn tier(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match get(1).as_str() {
        "check" => {
            // jv check ID TIER [label=exe ...]
            let (id, t) = (get(2), tier(&get(3)));
            let s = suites::get(&id).expect("unknown property");
            let mut exes: Vec<(String, PathBuf)> = a[4..].iter().filter_map(|x| x.split_once('=')).map(|(l, p)| (l.into(), p.into())).collect();
            if exes.is_empty() { exes.push(("release".into(), std::env::current_exe().unwrap())); }
            if !s.dbg { exes.truncate(1); }
            let budget = std::env::var("JV_BUDGET").ok().and_then(|s| s.parse().ok())
                .unwrap_or(match t { Tier::Quick => 270, Tier::Thorough => 700 });
            check(&id, &s, t, &exes, budget)
        }
        "child" => {
            child(&suites::get(&get(2)).unwrap(), tier(&get(3)), &PathBuf::from(get(4)), &get(5), get(6).parse().unwrap_or(600));
            0
        }
        "one" => {
            let sc;
            let w = if get(5).is_empty() { sc = Scratch::new("one"); sc.0.clone() } else { PathBuf::from(get(5)) };
            one(&suites::get(&get(2)).unwrap(), tier(&get(3)), &get(4), &w)
        }
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(get(2)).unwrap()).unwrap();
            let sc = Scratch::new("replay");
            one(&suites::get(j["property"].as_str().unwrap()).unwrap(), tier(j["tier"].as_str().unwrap()), j["key"].as_str().unwrap(), &sc.0)
        }
        "create" => suites::c09::create_child(&get(2), &PathBuf::from(get(3)), &PathBuf::from(get(4))),
        "gen" => suites::gen(&a[2..]),
        _ => {
            eprintln!("jv check|one|replay|gen");
            2
        }
    };
    std::process::exit(code);
}
