//! What a program of this crate does between the library's macros: it reports what it was given and what
//! lies in its directory by then, and writes the rows it was told to write.
use crate::analysis::snapshot;
use std::sync::atomic::{AtomicI64, Ordering};
static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
pub fn given() -> Vec<String> {
    let s = std::env::var("VM_ARGS").unwrap_or_default();
    if s.is_empty() { vec![] } else { s.split('\u{1f}').skip(1).map(|x| x.to_string()).collect() }
}
pub fn started(vars: &[(&str, String)], nagents: usize) {
    let rec = std::env::var("VM_REC").expect("VM_REC");
    let mut t = format!("{}\n", nagents);
    for (n, v) in vars { t.push_str(&format!("{}\t{}\n", n, v)); }
    std::fs::write(format!("{}/vars", rec), t).unwrap();
    // everything that lies here by now
    for (i, (k, v)) in snapshot(".").iter().enumerate() {
        if v == b"dir" { continue; }
        std::fs::write(format!("{}/start{}", rec, i), [k.as_bytes(), b"\0", v].concat()).unwrap();
    }
    if let Ok(n) = std::env::var("VM_DIE") { LEFT.store(n.parse().unwrap(), Ordering::Relaxed); }
    if LEFT.load(Ordering::Relaxed) == 0 { std::process::abort(); }
}
pub fn rows() -> Vec<String> { std::env::var("VM_DATA").unwrap_or_default().split_inclusive('\n').map(|s| s.to_string()).collect() }
/// a run that is killed after some rows
pub fn maybe_die() { if LEFT.fetch_sub(1, Ordering::Relaxed) == 1 { std::process::abort(); } }
