mod util;
mod list;
mod clock;
mod agents;
mod geom;
mod vecs;
mod header;
mod config;
mod analysis;
mod search;
mod physics;
mod seq;
mod texts;
mod request;
mod reflect;
mod fault;
mod reason;
mod argset;
use util::*;

fn main() {
    if let Ok(w) = std::env::var("VF_CHILD") { fault::child(&w); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let driver = a[1].clone();
    let args = Args {
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        thorough: get("--tier").map_or(false, |s| s == "thorough"),
        script: get("--script"), dir: get("--dir"),
        scale: get("--scale").map_or(100, |s| s.parse().unwrap()),
    };
    open(&get("--out").expect("--out"), get("--hang").map_or(40, |s| s.parse().unwrap()));
    // what a driver asks for is always legitimate: where the library refuses it and a driver cannot go on, that is recorded
    // as well (no specification has an action for it).  Failures of the machine the drivers run on are not.
    if let Err(m) = guard(|| dispatch(&driver, &args)) {
        eprintln!("{}", m);
        if m.contains("os error") { std::process::exit(101); }
        ev(J::op("panic").s("of", "driver").s("msg", &m));
        end_case();
    }
    finish();
}
fn dispatch(driver: &str, args: &Args) {
    match driver {
        "list" => list::run_list(args),
        "sweep" => list::run_sweep(args),
        "pairs" => list::run_pairs(args),
        "merge" => list::run_merge(args),
        "times" => clock::run(args, false),
        "steps" => clock::run(args, true),
        "move" => geom::run_move(args),
        "member" => geom::run_member(args),
        "place" => geom::run_place(args),
        "vectors" => vecs::run_vectors(args),
        "disp" => vecs::run_disp(args),
        "randmove" => vecs::run_randmove(args),
        "draws" => vecs::run_draws(args),
        "header" => header::run_header(args),
        "help" => header::run_help(args),
        "argv" => header::run_argv(args),
        "dataset" => header::run_dataset(args),
        "config" => config::run_config(args),
        "bins" => analysis::run_bins(args),
        "wide" => analysis::run_wide(args),
        "dirs" => analysis::run_dirs(args),
        "force" => physics::run_force(args),
        "freq" => physics::run_freq(args),
        "reflect" => reflect::run_reflect(args),
        "texts" => texts::run_texts(args),
        "request" => request::run_request(args),
        "reason" => reason::run_reason(args),
        "argset" => argset::run(args),
        "fault" => fault::run_fault(args),
        "seq" => seq::run_seq(args),
        "search" => search::run(args),
        "objects" => config::run_objects(args),
        _ => { eprintln!("unknown driver {}", driver); std::process::exit(2); }
    }
}
