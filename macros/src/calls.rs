//! Calls of whole programs: every combination of components, with every number of arguments, run
//! again and again over the same directories; what they wrote, when, and what they were given.
use crate::analysis::*;
use crate::header::{comps, named_in_brief, named_in_info, Comp, Val};
use crate::progs::PROGS;
use crate::util::*;
use moledyn::prelude::*;
use std::collections::{BTreeMap, HashMap as Map};
use std::process::{Command, Stdio};

type Word = (String, String);
fn w<T: Val>(v: T, r: &mut R) -> Word { let c = v.canon(); (v.words(r), c) }
fn pos(r: &mut R) -> f64 { *r.pick(&[1.0, 0.5, 2.75, 10.0, 3.3, 0.1 + 0.2, 1e-3, 123456.789, 7e5, 1e-7]) }
fn words_of(name: &str, r: &mut R, dir: &str) -> Vec<Word> {
    let d = r.r(1, 3) as usize;
    let p = Position::new((0..d).map(|_| pos(r) - 1.0).collect::<Vec<f64>>());
    let mt = if r.p(1, 5) { MoveType::Levy } else { MoveType::Brownian(pos(r)) };
    let it = if r.p(1, 2) { InitType::Uniform } else { InitType::SpecificPosition(p.clone()) };
    let n = r.r(1, 9) as usize;
    let mut l = match name {
        "Cubic" => vec![w(*r.pick(&[BoundaryCond::Periodic, BoundaryCond::Reflection]), r), w(pos(r), r), w(d, r)],
        "Circ" => vec![w(pos(r), r), w(d, r)],
        "Cyl" => { let k = r.r(1, d as i64) as usize; vec![w(SystemType::ContinuousCylindrical(k), r), w(BoundaryCond::Mixed(k), r), w(pos(r), r), w(pos(r), r), w(d, r)] }
        "Bulk" => vec![w(p, r), w(pos(r), r)],
        "Indep" => vec![w(mt, r), w(it, r), w(n, r)],
        "Merge" => vec![w(mt, r), w(it, r), w(pos(r), r), w(pos(r), r), w(n, r)],
        "Exp" => vec![w(mt, r), w(it, r), w(pos(r), r), w(d, r), w(pos(r), r), w(n, r)],
        "LJ" => vec![w(mt, r), w(it, r), w(pos(r), r), w(pos(r), r), w(n, r)],
        "Const" => vec![w(pos(r) / 1e6, r), w(1e3 + pos(r), r)],
        "ExpStep" => vec![w(1e-7 * pos(r), r), w(10.0 + pos(r), r), w(r.r(10, 40) as usize, r), w(pos(r) * 1e6, r)],
        "Var" => vec![w(n, r), w(r.n(9) as usize, r), w(r.u() as u128, r), (dir.into(), dir.to_string().canon())],
        "ParVar" => vec![w(n, r), w(r.u() as u128, r), w(r.r(1, 8) as usize, r), (dir.into(), dir.to_string().canon())],
        _ => vec![w(n, r), w(pos(r), r), w(r.n(9) as usize, r), w(r.u() as u128, r), (dir.into(), dir.to_string().canon())],
    };
    // a first value may not look like a number with blanks before a sign
    for x in l.iter_mut() { if x.0.is_empty() { x.0 = x.1.clone(); } }
    l
}
/// (words of a component in the data set's list, words that are parameters of the run)
fn listed(name: &str) -> &'static [usize] {
    match name { "Cubic" => &[1, 2], "Circ" => &[0, 1], "Cyl" => &[2, 3, 4], "Bulk" => &[1], "Indep" => &[2], "Merge" => &[2, 3, 4], "Exp" => &[2, 4, 5], "LJ" => &[2, 3, 4],
        "Const" => &[0, 1], "ExpStep" => &[0, 1, 2, 3], "Var" => &[1], "ParVar" => &[2], _ => &[1, 2] }
}
fn names_of(name: &str) -> &'static [&'static str] {
    match name { "Cubic" | "Circ" => &["sys_size", "dim"], "Cyl" => &["sys_radius", "sys_length", "dim"], "Bulk" => &["target_size"], "Indep" => &["num_agent"],
        "Merge" => &["ptl_radius", "alpha", "num_agent"], "Exp" => &["gamma", "strength", "num_agent"], "LJ" => &["ptl_size", "strength", "num_agent"],
        "Const" => &["dt", "tmax"], "ExpStep" => &["dt_min", "dt_max", "length", "tmax"], "Var" => &["idx_set"], "ParVar" => &["n_thrd"], _ => &["period", "idx_set"] }
}
/// another value of the same kind, possibly the next one there is
fn vary(x: &Word, r: &mut R) -> Word {
    if let Some(h) = x.1.strip_prefix('f') {
        let v = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
        w(match r.n(4) { 0 => f64::from_bits(v.to_bits() + 1), 1 => v * (1.0 + 1e-13), 2 => v * (1.0 + 1e-4), _ => v * 1.5 }, r)
    } else { w(x.1.parse::<usize>().unwrap() + r.r(1, 3) as usize, r) }
}
fn flat(l: &[Vec<Word>]) -> Vec<Word> { l.iter().flatten().cloned().collect() }
/// values in the name of a file, by the names of the parameters before them
fn named(file: &str, labels: &[&str], canon: &[String]) -> Vec<String> {
    let Some(mut rest) = file.strip_prefix("VM_").and_then(|f| f.strip_suffix(".dat")) else { return vec!["?".into()] };
    let mut out = vec![];
    for (i, l) in labels.iter().enumerate() {
        let Some(t) = rest.strip_prefix(*l).and_then(|t| t.strip_prefix('_')) else { return vec![format!("? {}", rest)] };
        let end = labels.get(i + 1).and_then(|n| t.find(&format!("_{}_", n))).unwrap_or(t.len());
        let v = &t[..end];
        out.push(if canon[i].starts_with('f') { v.parse::<f64>().map(|x| x.canon()).unwrap_or("?".into()) } else { v.parse::<u128>().map(|x| x.to_string()).unwrap_or("?".into()) });
        rest = t[end..].strip_prefix('_').unwrap_or("");
    }
    if !rest.is_empty() { out.push(format!("? {}", rest)); }
    out
}
struct Prog { k: usize, kind: &'static str, how: &'static str, cs: [&'static str; 5], skip: usize }
struct Ran { res: &'static str, help: bool, text: String }
fn call(p: &Prog, words: &[String], cwd: &str, rec: &str, data: &str, die: Option<i64>) -> Ran {
    beat();
    let _ = std::fs::remove_dir_all(rec);
    std::fs::create_dir_all(rec).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.current_dir(cwd).env("VM_PROG", p.k.to_string()).env("VM_REC", rec).env("VM_DATA", data).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if p.how == "fixed" {
        let mut all: Vec<String> = (0..p.skip).map(|i| ["first", "3"][i].to_string()).collect();
        all.extend(words.iter().cloned());
        c.env("VM_ARGS", all.iter().map(|s| format!("\u{1f}{}", s)).collect::<String>());
    } else { c.args(words); }
    if let Some(n) = die { c.env("VM_DIE", n.to_string()); }
    let o = c.output().expect("run");
    let res = match o.status.code() { Some(0) => "ok", Some(3) => "err", Some(101) => "panic", Some(_) => "exit", None => "killed" };
    Ran { res, help: o.stderr.len() + o.stdout.len() > 200, text: format!("{}{}", String::from_utf8_lossy(&o.stderr), String::from_utf8_lossy(&o.stdout)) }
}
fn read_header(cs: &[Comp], which: &[&str; 5], path: &str) -> (Vec<String>, bool) {
    let mut l = BufReader::new(File::open(path).unwrap()).lines();
    l.next();
    let mut out = vec![];
    for n in which {
        let c = cs.iter().find(|c| c.name == *n).unwrap();
        match guard(|| (c.read)(&mut l)) { Ok(Ok(v)) => out.extend(v), _ => return (vec!["?".into()], false) }
    }
    let marker = l.next().map_or(false, |x| x.map_or(false, |x| x.contains("DATA STARTS")));
    (out, marker && l.next().is_none())
}
struct State { live: Vec<(String, Vec<Vec<(i64, i64)>>, String)>, names: Map<String, String> }
fn same_part(before: &BTreeMap<String, Vec<u8>>, after: &BTreeMap<String, Vec<u8>>) -> (Vec<String>, Vec<String>, Vec<String>) {
    let (mut files, mut dirs, mut touched) = (vec![], vec![], vec![]);
    for (k, v) in after { if !before.contains_key(k) { if v == b"dir" { dirs.push(k.clone()) } else { files.push(k.clone()) } } else if before[k] != *v { touched.push(k.clone()) } }
    for k in before.keys() { if !after.contains_key(k) { touched.push(k.clone()) } }
    (files, dirs, touched)
}
pub fn run(a: &Args) {
    let base = a.dir.clone().expect("--dir");
    let cs = comps();
    for (k, (kind, how, which, skip, _)) in PROGS.iter().enumerate() { for round in 0..a.num(1, 8) {
        let p = Prog { k, kind, how, cs: *which, skip: *skip };
        let mut r = R::new(a.seed, 99_000_000 + k as u64 * 1000 + round);
        let set = Set::gen(&mut r, kind, true);
        let (cwd, rec) = (format!("{}/w{}-{}", base, k, round), format!("{}/r{}-{}", base, k, round));
        std::fs::create_dir_all(&cwd).unwrap();
        begin_case(format!("{}-{}-{}", how, k, round), set.cfg(true).vs("comps", &which.map(|s| s.to_string())).s("how", how));
        one(&p, &cs, &set, &mut r, &cwd, &rec, a);
        end_case();
        std::fs::remove_dir_all(&cwd).unwrap();
        let _ = std::fs::remove_dir_all(&rec);
    } }
}
fn one(p: &Prog, cs: &[Comp], set: &Set, r: &mut R, cwd: &str, rec: &str, a: &Args) {
    let dirs = [r.pick(&["out", "new/deep/dir", "a b", "데이터"]).to_string(), format!("{}/abs", cwd)];
    let rel = |d: &str| d.strip_prefix(&format!("{}/", cwd)).unwrap_or(d).to_string();
    let base: Vec<Vec<Word>> = p.cs.iter().map(|n| words_of(n, r, &dirs[0])).collect();
    let phys: Vec<String> = p.cs[..4].iter().flat_map(|c| names_of(c).iter().map(|s| s.to_string())).collect();
    let labels: Vec<&str> = p.cs.iter().flat_map(|c| names_of(c).iter().copied()).collect();
    let mut st: Map<String, State> = Map::new();
    let total = flat(&base).len();
    // every number of arguments once; what fits an analysis or a run comes below
    let an = if p.kind == "vec" { [5, 6] } else { [4, 5] };
    let mut counts: Vec<usize> = (0..total + 3).filter(|n| !an.contains(n) && *n != total).collect();
    if !a.thorough { counts.retain(|n| *n < 8 || *n + 3 > total || r.p(1, 4)); }
    for n in counts {
        let mut words: Vec<Word> = flat(&base);
        while words.len() < n { let x = words[words.len() - total.min(words.len())].clone(); words.push(x); }
        plain(p, &words[..n], cwd, rec, &labels);
    }
    let mut variants = vec![base.clone()];
    let steps = r.r(5, 9);
    for step in 0..steps {
        match if step == 0 { 0 } else { r.n(8) } {
            0 | 1 | 2 | 3 => {
                let mut v = variants[r.n(variants.len() as u64) as usize].clone();
                match r.n(4) {
                    0 => {} // again, the same run
                    1 => { let n = v[4].len(); v[4][0] = w(r.r(1, 9) as usize, r); let _ = n; }
                    _ => { let c = r.n(5) as usize; if !listed(p.cs[c]).is_empty() { let i = *r.pick(listed(p.cs[c])); v[c][i] = vary(&v[c][i], r); } }
                }
                let d = r.pick(&dirs).clone();
                let last = v[4].len() - 1;
                v[4][last] = (d.clone(), d.canon());
                variants.push(v.clone());
                run_sim(p, cs, set, r, cwd, rec, &v, &rel(&d), &labels, &phys, &mut st);
            }
            4 => { // a word that is no value
                let v = variants[r.n(variants.len() as u64) as usize].clone();
                let mut words = flat(&v);
                let at = r.n(total as u64 - 1) as usize;
                let (mut i, mut c) = (at, 0);
                while i >= v[c].len() { i -= v[c].len(); c += 1; }
                let comp = cs.iter().find(|x| x.name == p.cs[c]).unwrap();
                if let Some(b) = (comp.bad)(comp.nfix + i, r) { words[at] = (b, "bad".into()); plain(p, &words, cwd, rec, &labels); }
            }
            5 => { // what lies in the directory besides
                let d = r.pick(&dirs).clone();
                let _ = std::fs::create_dir_all(format!("{}/{}/sub", cwd, rel(&d)));
                let _ = std::fs::write(format!("{}/{}/notes.txt", cwd, rel(&d)), "no result\n");
                ev(J::op("other").s("dir", &rel(&d)));
            }
            _ => {
                let d = r.pick(&dirs).clone();
                look(p, set, r, cwd, rec, &d, &rel(&d), &phys, &st);
            }
        }
    }
    for d in &dirs { look(p, set, r, cwd, rec, d, &rel(d), &phys, &st); }
}
fn plain(p: &Prog, words: &[Word], cwd: &str, rec: &str, labels: &[&str]) {
    let _ = labels;
    let before = snapshot(cwd);
    let t: Vec<String> = words.iter().map(|x| x.0.clone()).collect();
    let ran = call(p, &t, cwd, rec, "", None);
    let (files, dirs, touched) = same_part(&before, &snapshot(cwd));
    let canon: Vec<String> = words.iter().map(|x| x.1.clone()).collect();
    ev(J::op("refused").vs("words", &canon).s("res", ran.res).b("help", ran.help).b("started", std::path::Path::new(&format!("{}/vars", rec)).exists())
        .vs("files", &files).vs("dirs", &dirs).vs("touched", &touched).o("said", said(&ran.text)));
}
fn number_after(t: &str, mark: &str) -> i64 {
    t.find(mark).and_then(|i| t[i + mark.len()..].split(|c: char| !c.is_ascii_digit()).find(|w| !w.is_empty()).and_then(|w| w.parse().ok())).unwrap_or(-1)
}
/// what the help says: how many words were given and are wanted, and the names in both parts
fn said(t: &str) -> J {
    let over = t.find("OVERVIEW").map_or("", |i| &t[i..]);
    let cut = over.find("DESCRIPTIONS").unwrap_or(over.len());
    let (a, b) = over.split_at(cut);
    let an = b.find("FOR ANALYSIS").unwrap_or(b.len());
    let (b, c) = b.split_at(an);
    let info = |s: &str| named_in_info(s).into_iter().map(|x| x.0).collect::<Vec<_>>();
    J::new().i("given", number_after(t, "")).i("wanted", number_after(t, "should give")).vs("over", &named_in_brief(a)).vs("descr", &info(b))
        .vs("an", &named_in_brief(c)).vs("andescr", &info(c))
}
fn look(p: &Prog, set: &Set, r: &mut R, cwd: &str, rec: &str, d: &str, rel: &str, phys: &[String], st: &Map<String, State>) {
    let path = format!("{}/{}", cwd, rel);
    if !std::path::Path::new(&path).exists() { return; }
    let none = State { live: vec![], names: Map::new() };
    let s = st.get(rel).unwrap_or(&none);
    let words = set.args(r, d);
    let whole = snapshot(cwd);
    let mut help = false;
    analyze_by(set, &path, phys, &s.names, &s.live, J::op("analyze").s("dir", rel).i("nargs", words.len() as i64), || {
        let ran = call(p, &words, cwd, rec, "", None);
        help = std::path::Path::new(&format!("{}/vars", rec)).exists();
        ran.res
    });
    let (files, _, touched) = same_part(&whole, &snapshot(cwd));
    let away: Vec<String> = files.into_iter().filter(|f| !f.starts_with(&format!("{}/", rel))).chain(touched).collect();
    ev(J::op("rest").vs("away", &away).b("started", help));
}
fn run_sim(p: &Prog, cs: &[Comp], set: &Set, r: &mut R, cwd: &str, rec: &str, v: &[Vec<Word>], rel: &str, labels: &[&str], phys: &[String], st: &mut Map<String, State>) {
    let words = flat(v);
    let key: Vec<String> = p.cs.iter().zip(v).flat_map(|(c, l)| listed(c).iter().map(|i| l[*i].1.clone())).collect();
    let nph = phys.len();
    let s = st.entry(rel.to_string()).or_insert(State { live: vec![], names: Map::new() });
    let many = s.live.iter().filter(|l| l.2 == key[..nph].join("|")).map(|l| l.1.iter().map(|e| e.len()).sum::<usize>()).sum::<usize>();
    if many > 60 { return; }
    let nens = if r.p(1, 8) { 0 } else { r.r(1, 6) };
    let ens: Vec<Vec<(i64, i64)>> = (0..nens).map(|_| match p.kind {
        "proc" => (0..r.r(1, 5)).map(|_| (set.time(r), if r.p(1, 3) { 7 } else { r.r(-200, 200) })).collect(),
        "vec" => (0..set.nv).map(|_| (set.time(r), 0)).collect(),
        _ => vec![(set.time(r), 0)] }).collect();
    let data = ens_text(set, &ens, r);
    let die = if r.p(1, 7) { Some(r.r(0, nens)) } else { None };
    let before = snapshot(cwd);
    let t: Vec<String> = words.iter().map(|x| x.0.clone()).collect();
    let ran = call(p, &t, cwd, rec, &data, die);
    let after = snapshot(cwd);
    let canon: Vec<String> = words.iter().map(|x| x.1.clone()).collect();
    // what there was when the macro had done its work
    let mut start: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for e in std::fs::read_dir(rec).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("start") {
            let b = std::fs::read(e.path()).unwrap();
            let z = b.iter().position(|c| *c == 0).unwrap();
            start.insert(String::from_utf8_lossy(&b[..z]).to_string(), b[z + 1..].to_vec());
        }
    }
    let vars = std::fs::read_to_string(format!("{}/vars", rec)).unwrap_or_default();
    let mut vl = vars.lines();
    let nag = vl.next().and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
    let vals: Vec<String> = vl.map(|x| x.split_once('\t').map_or("?", |y| y.1).to_string()).collect();
    // the files of the run: new or different at that time
    let fresh: Vec<String> = start.iter().filter(|(k, b)| before.get(*k) != Some(b)).map(|(k, _)| k.clone()).collect();
    let (mut files, _, touched) = same_part(&before, &after);
    files.extend(touched);
    let pre = format!("{}/", rel);
    // a run again with the same arguments leaves the same text at its start
    let name = if fresh.len() == 1 && fresh[0].starts_with(&pre) { fresh[0][pre.len()..].to_string() } else if fresh.is_empty() {
        s.live.iter().map(|l| l.0.clone()).find(|n| named(n, labels, &key) == key).unwrap_or("?".into()) } else { "?".into() };
    let full = format!("{}{}", pre, name);
    files.retain(|f| *f != full);
    let text = start.get(&full).cloned().unwrap_or_default();
    let (mut hv, mut closed, mut first, mut hl) = (vec![], false, false, vec![]);
    if !text.is_empty() {
        let tmp = format!("{}/header", rec);
        std::fs::write(&tmp, &text).unwrap();
        let (x, y) = read_header(cs, &p.cs, &tmp);
        hv = x; closed = y && text.ends_with(b"\n");
        let s = String::from_utf8_lossy(&text).to_string();
        first = s.lines().next().map_or(false, |l| l.contains("DESCRIPTIONS"));
        let n = s.lines().count();
        hl = s.lines().skip(1).take(n.max(2) - 2).map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect();
    }
    let end = after.get(&full).cloned().unwrap_or_default();
    let kept = end.starts_with(&text) && !text.is_empty();
    let rest = String::from_utf8_lossy(&end[text.len().min(end.len())..]).to_string();
    // a killed run may have lost rows that were not flushed yet
    let got: Vec<Vec<(i64, i64)>> = if rest == data { ens.clone() } else if die.is_some() && data.starts_with(&rest) && (rest.is_empty() || rest.ends_with('\n')) { ens[..rest.lines().count()].to_vec() } else { vec![vec![(BIG, BIG)]] };
    let k = key[..nph].join("|");
    let mut nm = String::from("VM");
    for (l, x) in phys.iter().zip(&key) { nm.push_str(&format!("_{}_{}", l, value(x))); }
    s.names.insert(format!("{}.dat", nm), k.clone());
    s.live.retain(|l| l.0 != name);
    if name != "?" { s.live.push((name.clone(), got.clone(), k.clone())); }
    ev(J::op("run").s("dir", rel).vs("words", &canon).s("res", ran.res).b("die", die.is_some()).vs("vars", &vals).i("nag", nag)
        .s("name", &name).vs("named", &named(&name, labels, &key)).s("key", &k)
        .b("first", first).vs("labels", &hl).vs("vals", &hv).b("closed", closed).b("kept", kept).raw("ens", &ens_json(&got)).raw("want", &ens_json(&ens)).vs("others", &files));
}
