//! Programs whose output or input fails: files that cannot grow beyond a limit, places that are taken,
//! data that are no samples. Analyses and set-ups under a limit run in a process of their own.
use crate::analysis::{ens_text, qf, snapshot, Ens, Set};
use crate::header::{d1::D1, Ds};
use crate::util::*;
use moledyn::prelude::*;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

#[repr(C)]
struct Rlimit { cur: u64, max: u64 }
extern "C" { fn setrlimit(what: i32, lim: *const Rlimit) -> i32; fn signal(sig: i32, how: usize) -> usize; }
/// no file may grow beyond n bytes: writing fails, as on a full disk
fn limit(n: u64) { unsafe { signal(25, 1); let l = Rlimit { cur: n, max: n }; assert_eq!(setrlimit(1, &l), 0); } }

fn setup(args: Vec<String>) -> Result<(), Error> {
    setup_simulation_fixed!(args, 15, 0, TimeAnalysis, "PRE", dataset, D1, sys_arg, ContCubicSystem, target_arg, ContBulkTarget,
        agent_arg, ContPassiveIndepAgent, time_arg, ConstStep, sim_arg, VariableSimulation);
    let output_dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "PRE", ContCubicSystem, _sys, sys_arg, ContBulkTarget, _target, target_arg,
        ContPassiveIndepAgent, _agent, agent_arg, ConstStep, _time, time_arg, VariableSimulation, _sim, sim_arg);
    // rows of a run, as the documentation writes them
    for i in 0..std::env::var("VF_ROWS").unwrap().parse::<usize>().unwrap() {
        write!(&mut writer, "{0:.5e}\n", 1.5 * i as f64).map_err(Error::make_error_io)?;
        writer.flush().map_err(Error::make_error_io)?;
    }
    Ok(())
}
fn kind_of(e: &Error) -> &'static str { match (e.is_io(), e.is_syntax(), e.is_data()) { (true, false, false) => "io", (false, true, false) => "syntax", (false, false, true) => "data", _ => "?" } }
fn run_one(what: &str, args: Vec<String>) -> Result<(), Error> {
    match what { "setup" => setup(args), "time" => TimeAnalysis::analyze::<D1>(&args, 15, "PRE"), "vec" => TimeVecAnalysis::analyze::<D1>(&args, 15, "PRE"), _ => ProcessAnalysis::analyze::<D1>(&args, 15, "PRE") }
}
pub fn child(what: &str) -> ! {
    let args: Vec<String> = std::env::var("VF_ARGS").unwrap().split('\u{1f}').map(|s| s.to_string()).collect();
    if let Ok(n) = std::env::var("VF_LIMIT") { limit(n.parse().unwrap()); }
    std::process::exit(match run_one(what, args) { Ok(()) => 0, Err(e) => match kind_of(&e) { "io" => 3, "syntax" => 4, "data" => 5, _ => 6 } })
}
fn call(what: &str, args: &[String], lim: Option<u64>, rows: usize) -> (&'static str, &'static str) {
    beat();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.env("VF_CHILD", what).env("VF_ARGS", args.join("\u{1f}")).env("VF_ROWS", rows.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(n) = lim { c.env("VF_LIMIT", n.to_string()); }
    match c.status().expect("run").code() { Some(0) => ("ok", ""), Some(3) => ("err", "io"), Some(4) => ("err", "syntax"), Some(5) => ("err", "data"), Some(6) => ("err", "?"), Some(101) => ("panic", ""), _ => ("killed", "") }
}
fn local(what: &str, args: &[String]) -> (&'static str, &'static str) {
    match guard(|| run_one(what, args.to_vec())) { Ok(Ok(())) => ("ok", ""), Ok(Err(e)) => ("err", kind_of(&e)), Err(_) => ("panic", "") }
}
fn strs(l: &[&str]) -> Vec<String> { l.iter().map(|s| s.to_string()).collect() }
fn config(r: &mut R, out: &str) -> Vec<Vec<String>> {
    let x = |r: &mut R| format!("{}", r.r(1, 60) as f64 / 8.0);
    vec![vec!["Periodic".into(), x(r), r.r(1, 3).to_string()], vec!["0,0".into(), x(r)], vec![x(r), "Uniform".into(), r.r(1, 9).to_string()], vec!["0.1".into(), "0".into()],
        vec![r.r(1, 9).to_string(), r.n(9).to_string(), r.u().to_string(), out.to_string()]]
}
type Tree = BTreeMap<String, Vec<u8>>;
/// what came into being between two snapshots, and what changed that was there
fn news(before: &Tree, after: &Tree) -> (Vec<String>, Vec<String>) {
    let made: Vec<String> = after.keys().filter(|k| !k.contains('/') && !before.contains_key(*k)).cloned().collect();
    let touched = before.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| k.clone())
        .chain(after.keys().filter(|k| !before.contains_key(*k) && !made.iter().any(|m| *k == m || k.starts_with(&format!("{}/", m)))).cloned()).collect();
    (made, touched)
}
/// the files below a directory; the order of the rows is not laid down
fn files(t: &Tree, top: &str) -> BTreeMap<String, (u64, Vec<String>)> {
    let pre = format!("{}/", top);
    t.iter().filter(|(k, v)| k.starts_with(&pre) && v.as_slice() != b"dir").map(|(k, v)| {
        let mut l: Vec<String> = String::from_utf8_lossy(v).lines().map(|s| s.to_string()).collect();
        l.sort();
        (k[pre.len()..].to_string(), (v.len() as u64, l))
    }).collect()
}
fn limits(sizes: &[u64], r: &mut R) -> Vec<u64> {
    let max = sizes.iter().copied().max().unwrap_or(0);
    let mut l = vec![0, max, max + 1, max - 1, max + 5000, max / 2];
    for _ in 0..3 { let s = *r.pick(sizes); l.push(s); l.push(s.saturating_sub(1)); l.push(s + 1); }
    for _ in 0..2 { l.push(r.n(max + 10)); }
    l.sort(); l.dedup();
    l
}
fn listed(want: &BTreeMap<String, (u64, Vec<String>)>, got: &BTreeMap<String, (u64, Vec<String>)>) -> Vec<J> {
    let mut l: Vec<J> = want.iter().map(|(k, v)| J::new().s("name", k).i("need", v.0 as i64).i("got", got.get(k).map_or(-1, |g| g.0 as i64)).b("same", got.get(k) == Some(v))).collect();
    for k in got.keys() { if !want.contains_key(k) { l.push(J::new().s("name", k).i("need", -1).i("got", 0).b("same", false)); } }
    l
}
fn analyses(a: &Args, base: &str) {
    for (ki, kind) in ["time", "vec", "proc"].iter().enumerate() { for i in 0..a.num(12, 120) {
        let mut r = R::new(a.seed, 0x320000 + ki as u64 * 0x10000 + i);
        let mut set = Set::gen(&mut r, kind, true);
        let wide = *kind == "vec" && r.p(1, 3);
        if wide { set.nv = *r.pick(&[40usize, 400, 700]); }     // rows longer than any buffer
        let dir = format!("{}/an-{}-{}", base, kind, i);
        std::fs::create_dir_all(&dir).unwrap();
        let nconf = if r.p(1, 6) { r.r(60, 90) } else { r.r(0, 6) };
        for f in 0..nconf {
            let w = config(&mut r, "out");
            let n = r.r(1, 9);
            let ens: Ens = (0..n).map(|_| match *kind {
                "proc" => (0..r.r(1, 4)).map(|_| (set.time(&mut r), r.r(-200, 200))).collect(),
                "vec" => (0..set.nv).map(|_| (set.time(&mut r), 0)).collect(),
                _ => vec![(set.time(&mut r), 0)] }).collect();
            let text = format!("=== DESCRIPTIONS ===\n{}========== DATA STARTS ==========\n{}", D1::print(&w, 15).unwrap_or_default(), ens_text(&set, &ens, &mut r));
            std::fs::write(format!("{}/res{}.dat", dir, f), text).unwrap();
        }
        begin_case(format!("{}{}", kind, i), J::new().s("what", kind).i("files", nconf));
        let args = set.args(&mut r, &dir);
        let run = |lim: Option<u64>| {
            let before = snapshot(&dir);
            let (res, k) = call(kind, &args, lim, 0);
            let after = snapshot(&dir);
            let (made, touched) = news(&before, &after);
            let got = made.first().map(|m| files(&after, m)).unwrap_or_default();
            for m in &made { let _ = std::fs::remove_dir_all(format!("{}/{}", dir, m)); }
            (res, k, made, touched, got)
        };
        let (res, _, made, touched, want) = run(None);
        ev(J::op("free").s("res", res).b("one", made.len() == 1).vs("touched", &touched).a("files", listed(&want, &want)));
        let sizes: Vec<u64> = want.values().map(|v| v.0).collect();
        if res == "ok" && !sizes.is_empty() { for lim in limits(&sizes, &mut r) {
            let (res, k, _, touched, got) = run(Some(lim));
            ev(J::op("limit").i("lim", lim as i64).s("res", res).s("kind", k).vs("touched", &touched).a("files", listed(&want, &got)));
        } }
        end_case();
        std::fs::remove_dir_all(&dir).unwrap();
    } }
}
fn setups(a: &Args, base: &str) {
    for i in 0..a.num(25, 250) {
        let mut r = R::new(a.seed, 0x390000 + i);
        let dir = format!("{}/set-{}", base, i);
        std::fs::create_dir_all(&dir).unwrap();
        let out = format!("{}/{}", dir, r.pick(&["out", "a/b/c", "."]));
        let args: Vec<String> = config(&mut r, &out).concat();
        let rows = *r.pick(&[0usize, 0, 1, 20]);
        begin_case(format!("setup{}", i), J::new().s("what", "setup").i("files", 1));
        let run = |lim: Option<u64>| {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            let (res, k) = call("setup", &args, lim, rows);
            let t: Tree = snapshot(&dir).into_iter().map(|(k, v)| (format!("x/{}", k), v)).collect();
            (res, k, files(&t, "x"))
        };
        let (res, _, want) = run(None);
        ev(J::op("free").s("res", res).b("one", want.len() == 1).vs("touched", &[]).a("files", listed(&want, &want)));
        let sizes: Vec<u64> = want.values().map(|v| v.0).collect();
        if res == "ok" && !sizes.is_empty() {
            for lim in limits(&sizes, &mut r) {
                let (res, k, got) = run(Some(lim));
                ev(J::op("limit").i("lim", lim as i64).s("res", res).s("kind", k).vs("touched", &[]).a("files", listed(&want, &got)));
            }
            // places that are taken
            for how in ["dirs", "name", "long"] {
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                let mut args = args.clone();
                let last = args.len() - 1;
                match how {
                    "dirs" => { std::fs::write(format!("{}/taken", dir), "x").unwrap(); args[last] = format!("{}/taken{}", dir, r.pick(&["", "/b"])); }
                    "name" => { let n = want.keys().next().unwrap(); std::fs::create_dir_all(format!("{}/{}", dir, n)).unwrap(); }
                    _ => args[last] = format!("{}/{}", dir, "n".repeat(300)),
                }
                let before = snapshot(&dir);
                let (res, k) = call("setup", &args, None, rows);
                let after = snapshot(&dir);
                let touched: Vec<String> = before.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|(k, _)| k.clone()).collect();
                ev(J::op("taken").s("how", how).s("res", res).s("kind", k).vs("touched", &touched));
            }
        }
        end_case();
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
/// result files with a line that is no sample
fn bad_data(a: &Args, base: &str) {
    for (ki, kind) in ["time", "vec", "proc"].iter().enumerate() { for i in 0..a.num(60, 600) {
        let mut r = R::new(a.seed, 0x3a0000 + ki as u64 * 0x10000 + i);
        let mut set = Set::gen(&mut r, kind, true);
        if *kind == "vec" { set.nv = r.r(1, 4) as usize; }
        let dir = format!("{}/bad-{}-{}", base, kind, i);
        std::fs::create_dir_all(&dir).unwrap();
        let good = |r: &mut R| -> String { match *kind { "proc" => (0..r.r(1, 3)).map(|_| format!("({},{})", qf(r.r(1, 90)), qf(r.r(-90, 90)))).collect::<Vec<_>>().join(" "), _ => (0..set.nv).map(|_| format!("{}", qf(r.r(1, 90)))).collect::<Vec<_>>().join("\t") } };
        let nfiles = r.r(1, 4);
        let worst = r.n(nfiles as u64) as i64;
        let mut what = "none";
        let same = config(&mut r, "out");
        for f in 0..nfiles {
            let w = if r.p(1, 2) { same.clone() } else { config(&mut r, "out") };
            let mut lines: Vec<Vec<u8>> = (0..r.r(0, 5)).map(|_| good(&mut r).into_bytes()).collect();
            if f == worst && !r.p(1, 8) {
                let at = r.n(lines.len() as u64 + 1) as usize;
                let l: (&str, Vec<u8>) = match r.n(7) {
                    6 => ("endless", { let x = *r.pick(&["NaN", "inf", "-inf", "nan", "infinity", "1e400", "-NaN"]);
                        match *kind { "proc" => if r.p(1, 2) { format!("{} (1.5,{})", good(&mut r), x) } else { format!("({},1.5)", x) },
                            "vec" => { let g = good(&mut r); let mut w: Vec<&str> = g.split('\t').collect(); let k = r.n(w.len() as u64) as usize; w[k] = x; w.join("\t") }
                            _ => x.into() }.into_bytes() }),
                    0 => ("word", r.pick(&["x", "1;5", "1e", "1.5.2", "-", "0x10", "1_0", "# note", "one 2", "1.5,", "1.5f", "+", "1.5 s", ",", "1.5;", "0b1", "1d3"]).as_bytes().to_vec()),
                    1 => ("bytes", vec![0xff, 0xfe, b'1']),
                    2 => ("tail", format!("{} {}", good(&mut r), r.pick(&["e5", "1.e+", "(1", "?", "1;2"])).into_bytes()),
                    3 => ("marker", b"========================     DATA STARTS    ==========================".to_vec()),
                    4 if *kind == "vec" && set.nv > 1 && r.p(1, 2) => ("few", { let g = good(&mut r); g.split('\t').skip(1).collect::<Vec<_>>().join("\t").into_bytes() }),
                    4 if *kind != "proc" => ("many", format!("{} 1.25", good(&mut r)).into_bytes()),
                    _ => if *kind == "proc" { ("single", r.pick(&["(1.5)", "7", "(1,2,3)", "(1,x)", "(,)", "()"]).as_bytes().to_vec()) } else { ("empty", r.pick(&["", " ", "\t"]).as_bytes().to_vec()) },
                };
                what = l.0;
                lines.insert(at, l.1);
            }
            let mut text = format!("=== DESCRIPTIONS ===\n{}========== DATA STARTS ==========\n", D1::print(&w, 15).unwrap_or_default()).into_bytes();
            for l in lines { text.extend(l); text.push(b'\n'); }
            std::fs::write(format!("{}/res{}.dat", dir, f), text).unwrap();
        }
        begin_case(format!("bad-{}{}", kind, i), J::new().s("what", kind).i("files", nfiles));
        let args = set.args(&mut r, &dir);
        for _ in 0..2 {
            let before = snapshot(&dir);
            let (res, k) = local(kind, &args);
            let (_, touched) = news(&before, &snapshot(&dir));
            ev(J::op("data").s("line", what).s("res", res).s("kind", k).vs("touched", &touched));
        }
        end_case();
        std::fs::remove_dir_all(&dir).unwrap();
    } }
}
/// opening a result file
fn opening(a: &Args, base: &str) {
    let dir = format!("{}/open", base);
    std::fs::create_dir_all(&dir).unwrap();
    begin_case("open", J::new().s("what", "open").i("files", 1));
    for i in 0..a.num(60, 400) {
        let mut r = R::new(a.seed, 0x3f0000 + i);
        let p = format!("{}/f{}", dir, i);
        let head = D1::print(&config(&mut r, "out"), 15).unwrap_or_default();
        let n = head.lines().count() as u64;
        let cut = |k: usize| head.lines().take(k).map(|l| format!("{}\n", l)).collect::<String>();
        let how = *r.pick(&["missing", "dir", "below", "loop", "short", "foreign", "good", "bytes"]);
        let mut q = p.clone();
        match how {
            "missing" => {}
            "dir" => std::fs::create_dir_all(&p).unwrap(),
            "below" => { std::fs::write(&p, "x").unwrap(); q = format!("{}/x", p); }
            "loop" => std::os::unix::fs::symlink(&p, &p).unwrap(),
            "short" => std::fs::write(&p, format!("=== DESCRIPTIONS ===\n{}", cut(r.n(n) as usize))).unwrap(),
            "foreign" => std::fs::write(&p, format!("=== DESCRIPTIONS ===\n{}{}", cut(r.n(n) as usize), "something else\n".repeat(30))).unwrap(),
            "bytes" => { let mut t = format!("=== DESCRIPTIONS ===\n{}", cut(r.n(n) as usize)).into_bytes(); t.extend([0xffu8, 0xfe, 0x80, b'\n']); std::fs::write(&p, t).unwrap() }
            _ => std::fs::write(&p, format!("=== DESCRIPTIONS ===\n{}=== DATA STARTS ===\n", head)).unwrap(),
        }
        let (res, k) = match guard(|| D1::from_file(&q).map(|_| ())) { Ok(Ok(())) => ("ok", ""), Ok(Err(e)) => ("err", kind_of(&e)), Err(_) => ("panic", "") };
        ev(J::op("open").s("how", how).s("res", res).s("kind", k));
    }
    end_case();
    std::fs::remove_dir_all(&dir).unwrap();
}
pub fn run_fault(a: &Args) {
    let base = a.dir.clone().expect("--dir");
    analyses(a, &base);
    setups(a, &base);
    bad_data(a, &base);
    opening(a, &base);
}
