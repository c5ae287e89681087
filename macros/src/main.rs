#![allow(dead_code, unused_imports, unused_variables, unused_assignments, non_snake_case)]
#[path = "../../harness/src/util.rs"] mod util;
#[path = "../../harness/src/header.rs"] mod header;
#[path = "../../harness/src/analysis.rs"] mod analysis;
mod child;
mod progs;
mod calls;
use util::*;

fn main() {
    if let Ok(p) = std::env::var("VM_PROG") {
        let r = (progs::PROGS[p.parse::<usize>().unwrap()].4)();
        std::process::exit(match r { Ok(()) => 0, Err(e) => { eprintln!("{:?}", e); 3 } });
    }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let args = Args {
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        thorough: get("--tier").map_or(false, |s| s == "thorough"),
        script: get("--script"), dir: get("--dir"),
        scale: get("--scale").map_or(100, |s| s.parse().unwrap()),
    };
    open(&get("--out").expect("--out"), 100);
    match a[1].as_str() {
        "calls" => calls::run(&args),
        d => { eprintln!("unknown driver {}", d); std::process::exit(2); }
    }
    finish();
}
