//! C01-C04: LinkedList histories.
use crate::util::*;
use moledyn::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Push, Del(usize), Conn, It, Step(u8), Dit, Dstep(u8) }

fn opt(x: Option<usize>) -> i64 { x.map_or(-1, |i| i as i64) }

fn walk(l: &LinkedList<i64>, fwd: bool) -> Vec<i64> {
    let mut out = vec![];
    let mut c = if fwd { l.head } else { l.tail };
    while let Some(i) = c {
        out.push(i as i64);
        if out.len() > l.links.len() + 2 { out.push(-7); break; }
        match l.links.get(i) { Some(n) => c = if fwd { n.next } else { n.prev }, None => { out.push(-8); break; } }
    }
    out
}

/// Execute a history on a real list; `proj` logs the projected abstract state after every operation.
pub fn exec(id: &str, k: usize, from_vec: bool, ops: &[Op], proj: bool) {
    begin_case(id, J::new().i("k", k as i64).b("proj", proj));
    let mut n = k;
    let made = guard_ev("new", || {
        if from_vec { LinkedList::from((0..k).map(|i| 100 + i as i64).collect::<Vec<i64>>()) }
        else { let mut l = LinkedList::<i64>::new(); for i in 0..k { l.push(100 + i as i64); } l }
    });
    let mut l = match made { Some(l) => l, None => { end_case(); return; } };
    let pj = |j: J, l: &LinkedList<i64>| -> J {
        if proj {
            let alive: Vec<i64> = l.links.iter().enumerate().filter(|(_, n)| n.alive).map(|(i, _)| i as i64).collect();
            j.v("fw", &walk(l, true)).v("bw", &walk(l, false)).v("ct", &l.contents).v("al", &alive)
             .i("hd", opt(l.head)).i("tl", opt(l.tail))
        } else { j }
    };
    ev(pj(J::op("init"), &l));
    for op in ops {
        let done = match *op {
            Op::Push => { let v = 100 + n as i64; n += 1;
                guard_ev("push", || l.push(v)).map(|_| ev(pj(J::op("push").i("v", v), &l))) }
            Op::Del(i) => guard_ev("del", || l.del(i).is_ok()).map(|r| ev(pj(J::op("del").i("i", i as i64).b("ok", r), &l))),
            Op::Conn => guard_ev("connect_all", || l.connect_all().is_ok()).map(|r| ev(pj(J::op("conn").b("ok", r), &l))),
            Op::It => guard_ev("into_iter", || l.into_iter()).map(|_| ev(pj(J::op("it"), &l))),
            Op::Dit => guard_ev("into_double_iter", || l.into_double_iter()).map(|_| ev(pj(J::op("dit"), &l))),
            Op::Step(a) => {
                // i = -1: ended; -2: accessor does not tell the index; v: content seen (or -1); w: content written (or -1)
                let r = guard_ev("step", || match a % 5 {
                    0 => l.get().map_or((-1, -1, -1), |v| (-2, *v, -1)),
                    1 => l.get_mut().map_or((-1, -1, -1), |v| { let o = *v; *v += 1000; (-2, o, *v) }),
                    2 => l.enumerate().map_or((-1, -1, -1), |(i, v)| (i as i64, *v, -1)),
                    3 => l.enumerate_mut().map_or((-1, -1, -1), |(i, v)| { let o = *v; *v += 1000; (i as i64, o, *v) }),
                    _ => l.indicies().map_or((-1, -1, -1), |i| (i as i64, -1, -1)),
                });
                r.map(|(i, v, w)| ev(pj(J::op("step").i("a", (a % 5) as i64).i("i", i).i("v", v).i("w", w), &l)))
            }
            Op::Dstep(a) => {
                let r = guard_ev("dstep", || match a % 3 {
                    0 => l.get_double().map_or((-1, -1, -1, -1), |(x, y)| (-2, -2, *x, *y)),
                    1 => l.enumerate_double().map_or((-1, -1, -1, -1), |(i, x, j, y)| (i as i64, j as i64, *x, *y)),
                    _ => l.indicies_double().map_or((-1, -1, -1, -1), |(i, j)| (i as i64, j as i64, -1, -1)),
                });
                r.map(|(i, j, x, y)| ev(pj(J::op("dstep").i("a", (a % 3) as i64).i("i", i).i("j", j).i("x", x).i("y", y), &l)))
            }
        };
        if done.is_none() { break; }
    }
    end_case();
}

/// All op sequences of length `depth` over a menu that may grow with the history.
fn all_seqs(depth: usize, menu: &dyn Fn(&[Op]) -> Vec<Op>, f: &mut dyn FnMut(&[Op])) {
    fn rec(cur: &mut Vec<Op>, depth: usize, menu: &dyn Fn(&[Op]) -> Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if cur.len() == depth { f(cur); return; }
        for o in menu(cur) { cur.push(o); rec(cur, depth, menu, f); cur.pop(); }
    }
    rec(&mut Vec::new(), depth, menu, f);
}
fn pushes(ops: &[Op]) -> usize { ops.iter().filter(|o| **o == Op::Push).count() }

/// Behaviours produced by TLC from LinkListImpl: one per line, "k;op;op;..."
fn scripts(path: &str, f: &mut dyn FnMut(usize, usize, Vec<Op>)) {
    let text = std::fs::read_to_string(path).expect("script");
    for (n, line) in text.lines().enumerate() {
        let mut it = line.split(';');
        let k: usize = it.next().unwrap().trim().parse().expect("k");
        let mut rot = n as u8;
        let ops = it.filter(|s| !s.trim().is_empty()).map(|s| {
            let w: Vec<&str> = s.trim().split(' ').collect();
            rot = rot.wrapping_add(1);
            match w[0] {
                "push" => Op::Push, "del" => Op::Del(w[1].parse().unwrap()), "conn" => Op::Conn,
                "it" => Op::It, "step" => Op::Step(rot), "dit" => Op::Dit, "dstep" => Op::Dstep(rot),
                x => panic!("op {}", x),
            }
        }).collect();
        f(n, k, ops);
    }
}

pub fn run_list(a: &Args) {
    if let Some(s) = &a.script { scripts(s, &mut |n, k, ops| exec(&format!("tlc{}", n), k, n % 2 == 0, &ops, true)); }
    let depth = if a.thorough { 5 } else { 4 };
    for k in 0..=3usize {
        let mut c = 0;
        all_seqs(depth, &|h| {
            let n = k + pushes(h);
            let mut m = vec![Op::Push, Op::Conn];
            for i in 0..=n { m.push(Op::Del(i)); }
            m
        }, &mut |ops| { exec(&format!("all{}-{}", k, c), k, c % 2 == 0, ops, true); c += 1; });
    }
    let mut r = R::new(a.seed, 101);
    for c in 0..a.num(300, 3000) {
        let k = r.n(9) as usize;
        let mut n = k;
        let mut ops = vec![];
        let len = r.r(5, 60);
        // phases: mostly deleting, mostly pushing, mixed
        let mut mode = r.n(3);
        for _ in 0..len {
            if r.p(1, 12) { mode = r.n(3); }
            let x = r.n(100);
            let (pd, pp) = match mode { 0 => (75, 90), 1 => (20, 90), _ => (50, 85) };
            if x < pd { ops.push(Op::Del(r.n(n as u64 + 2) as usize)); }
            else if x < pp && n < 40 { ops.push(Op::Push); n += 1; }
            else if x < 97 { ops.push(*r.pick(&[Op::It, Op::Step(0), Op::Step(1), Op::Step(3), Op::Dit, Op::Dstep(0), Op::Dstep(1)])); }
            else { ops.push(Op::Conn); }
        }
        // sweeps only after they were started on the current structure
        let mut fixed = vec![]; let mut mode = 0;
        for o in ops {
            match o { Op::It => mode = 1, Op::Dit => mode = 2, Op::Conn => mode = 0, _ => {} }
            if o == Op::Push && mode == 2 { mode = 0; }
            match o { Op::Step(_) if mode != 1 => { mode = 1; fixed.push(Op::It); } Op::Dstep(_) if mode != 2 => { mode = 2; fixed.push(Op::Dit); } _ => {} }
            fixed.push(o);
        }
        exec(&format!("rnd{}", c), k, r.p(1, 2), &fixed, true);
    }
    // long lists
    for c in 0..a.num(7, 33) {
        let k = if c % 7 == 6 { *r.pick(&[1020usize, 1500]) } else { *r.pick(&[0usize, 33, 65, 100, 129, 200, 257]) };
        let mut n = k;
        let mut ops = vec![];
        if k == 0 { for _ in 0..70 { ops.push(Op::Push); n += 1; } }
        for _ in 0..if k > 1000 { 25 } else { 90 } {
            let x = r.n(100);
            if x < 70 { ops.push(Op::Del(if r.p(1, 3) { n - 1 - r.n(5) as usize } else { r.n(n as u64) as usize })); }
            else if x < 90 { ops.push(Op::Push); n += 1; }
            else if x < 98 { ops.push(Op::It); for _ in 0..r.n(4) { ops.push(Op::Step(r.n(5) as u8)); } }
            else { ops.push(Op::Conn); }
        }
        exec(&format!("big{}", c), k, r.p(1, 2), &ops, true);
    }
}

pub fn run_sweep(a: &Args) {
    if let Some(s) = &a.script { scripts(s, &mut |n, k, ops| exec(&format!("tlc{}", n), k, n % 2 == 0, &ops, false)); }
    // every interleaving of steps, deletions and pushes within one sweep
    for (k, depth) in if a.thorough { vec![(1, 5), (2, 6), (3, 7), (4, 6)] } else { vec![(1usize, 4usize), (2, 5), (3, 6), (4, 5)] } {
        let mut c = 0u64;
        all_seqs(depth, &|h| {
            if h.is_empty() { return vec![Op::It]; }
            let n = k + pushes(h);
            let mut m = vec![Op::Step(0)];
            if pushes(h) < 2 { m.push(Op::Push); }
            for i in 0..n { if !h.contains(&Op::Del(i)) { m.push(Op::Del(i)); } }
            m
        }, &mut |ops| {
            c += 1;
            let mut ops: Vec<Op> = ops.iter().enumerate().map(|(p, o)| match o { Op::Step(_) => Op::Step(((c as usize + p * 3) % 5) as u8), o => *o }).collect();
            for t in 0..k + 2 { ops.push(Op::Step(((c as usize + t) % 5) as u8)); }
            exec(&format!("all{}-{}", k, c), k, c % 2 == 0, &ops, false);
        });
    }
    let mut r = R::new(a.seed, 102);
    for c in 0..a.num(400, 4000) {
        let k = r.n(12) as usize;
        let mut n = k;
        let mut ops = vec![];
        for _ in 0..r.r(1, 5) {
            // something before the sweep: deletions, an abandoned sweep, a reconnection
            for _ in 0..r.n(4) { ops.push(Op::Del(r.n(n as u64 + 1) as usize)); }
            if r.p(1, 3) { ops.push(Op::Dit); for _ in 0..r.n(8) { ops.push(if r.p(3, 4) { Op::Dstep(r.n(3) as u8) } else { Op::Del(r.n(n as u64 + 1) as usize) }); } }
            if r.p(1, 3) { ops.push(Op::It); for _ in 0..r.n(5) { ops.push(Op::Step(r.n(5) as u8)); } }
            if r.p(1, 4) { ops.push(Op::Conn); }
            ops.push(Op::It);
            let full = r.p(2, 3);
            let acc = if r.p(1, 2) { Some(r.n(5) as u8) } else { None };
            for _ in 0..if full { n as u64 + 6 } else { r.n(n as u64 + 3) } {
                match r.n(10) {
                    0 | 1 => ops.push(Op::Del(r.n(n as u64 + 1) as usize)),
                    2 if n < 30 => { ops.push(Op::Push); n += 1; }
                    _ => ops.push(Op::Step(acc.unwrap_or(r.n(5) as u8))),
                }
            }
            if full { for _ in 0..n + 2 { ops.push(Op::Step(acc.unwrap_or(r.n(5) as u8))); } }
        }
        exec(&format!("rnd{}", c), k, r.p(1, 2), &ops, false);
    }
    // long lists, and a list that grows again after a finished sweep (which stays finished)
    for c in 0..a.num(10, 60) {
        let k = if c % 10 == 9 { 1100 } else { *r.pick(&[31usize, 64, 101, 150, 257, 300]) };
        let mut n = k;
        let mut ops = vec![];
        let density = r.n(5);
        for _ in 0..r.r(1, 2) {
            for _ in 0..r.n(20) { ops.push(Op::Del(r.n(n as u64) as usize)); }
            ops.push(Op::It);
            let acc = if r.p(1, 2) { Some(r.n(5) as u8) } else { None };
            for _ in 0..n + 4 {
                if r.n(10) < density { ops.push(Op::Del(r.n(n as u64) as usize)); }
                if r.p(1, 40) { ops.push(Op::Push); n += 1; }
                ops.push(Op::Step(acc.unwrap_or(r.n(5) as u8)));
            }
            for _ in 0..6 { ops.push(Op::Step(acc.unwrap_or(r.n(5) as u8))); }
            if r.p(1, 2) { ops.push(Op::Push); n += 1; for _ in 0..2 { ops.push(Op::Step(r.n(5) as u8)); } }
        }
        exec(&format!("big{}", c), k, r.p(1, 2), &ops, false);
    }
}

pub fn run_pairs(a: &Args) {
    if let Some(s) = &a.script { scripts(s, &mut |n, k, ops| exec(&format!("tlc{}", n), k, n % 2 == 0, &ops, false)); }
    // every placement of deletions into a pair sweep: after step s delete element d (up to two deletions; three in thorough)
    let kmax = if a.thorough { 6 } else { 5 };
    for k in 0..=kmax {
        let total = k * (k.max(1) - 1) / 2;
        let mut c = 0u64;
        let mut plans: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for s1 in 0..=total { for d1 in 0..k {
            plans.push(vec![(s1, d1)]);
            for s2 in s1..=total { for d2 in 0..k { if d2 != d1 {
                plans.push(vec![(s1, d1), (s2, d2)]);
                if a.thorough && k <= 4 || k <= 3 { for s3 in s2..=total { for d3 in 0..k { if d3 != d1 && d3 != d2 { plans.push(vec![(s1, d1), (s2, d2), (s3, d3)]); } } } }
            } } }
        } }
        for p in plans {
            c += 1;
            let mut ops = vec![Op::Dit];
            for s in 0..=total {
                for (ps, d) in &p { if *ps == s { ops.push(Op::Del(*d)); } }
                ops.push(Op::Dstep(((c as usize + s) % 3) as u8));
            }
            ops.push(Op::Dstep(0)); ops.push(Op::Dstep(1)); ops.push(Op::Dstep(2));
            exec(&format!("plan{}-{}", k, c), k, c % 2 == 0, &ops, false);
        }
    }
    // every short continuation of a pair sweep, under way or ended, with new elements
    let depth = if a.thorough { 4 } else { 3 };
    for k in 0..=3usize {
        for s in 0..=(k * k.saturating_sub(1) / 2 + 1) {
            let mut c = 0u64;
            all_seqs(depth, &|cur: &[Op]| { let mut m = vec![Op::Push, Op::Dstep(2)]; for d in 0..k + pushes(cur) { m.push(Op::Del(d)); } m }, &mut |w| {
                if w.len() < depth || pushes(w) == 0 { return; }
                c += 1;
                let mut ops = vec![Op::Dit];
                for i in 0..s { ops.push(Op::Dstep(((c as usize + i) % 3) as u8)); }
                ops.extend(w.iter().cloned());
                for i in 0..3 { ops.push(Op::Dstep(((c as usize + i) % 3) as u8)); }
                exec(&format!("more{}-{}-{}", k, s, c), k, c % 2 == 0, &ops, false);
            });
        }
    }
    let mut r = R::new(a.seed, 103);
    for c in 0..a.num(300, 3000) {
        let k = r.n(10) as usize;
        let mut n = k;
        let mut ops = vec![];
        for _ in 0..r.r(1, 3) {
            for _ in 0..r.n(3) { ops.push(Op::Del(r.n(n as u64 + 1) as usize)); }
            if r.p(1, 4) { ops.push(Op::Push); n += 1; }
            if r.p(1, 4) { ops.push(Op::Conn); }
            if r.p(1, 4) { ops.push(Op::It); for _ in 0..r.n(5) { ops.push(Op::Step(r.n(5) as u8)); } }
            ops.push(Op::Dit);
            let acc = if r.p(1, 2) { Some(r.n(3) as u8) } else { None };
            let pd = r.n(4);
            let steps = if r.p(3, 4) { n * (n.max(1) - 1) / 2 + 3 } else { r.n(20) as usize };
            for _ in 0..steps {
                while r.n(10) < pd { ops.push(Op::Del(r.n(n as u64) as usize)); }
                ops.push(Op::Dstep(acc.unwrap_or(r.n(3) as u8)));
            }
        }
        exec(&format!("rnd{}", c), k, r.p(1, 2), &ops, false);
    }
    // deletions relative to the pair just presented (what a collision loop does); the last ones with long lists
    let usual = a.num(300, 3000);
    for c in 0..usual + a.num(6, 40) {
        let k = if c < usual { r.r(2, 9) as usize } else { *r.pick(&[12usize, 17, 24, 33, 40]) };
        begin_case(format!("rel{}", c), J::new().i("k", k as i64).b("proj", false));
        let mut l = LinkedList::from((0..k).map(|i| 100 + i as i64).collect::<Vec<i64>>());
        ev(J::op("init"));
        let pat = r.n(4);
        let prob = r.r(1, 6) as u64;
        let rounds = r.r(1, 2);
        'o: for round in 0..rounds {
            if round > 0 { if guard_ev("connect_all", || l.connect_all().is_ok()).map(|b| ev(J::op("conn").b("ok", b))).is_none() { break 'o; } }
            if guard_ev("into_double_iter", || l.into_double_iter()).map(|_| ev(J::op("dit"))).is_none() { break 'o; }
            for _ in 0..k * k + 2 {
                let x = match guard_ev("dstep", || l.indicies_double()) { Some(x) => x, None => break 'o };
                ev(J::op("dstep").i("a", 2).i("i", x.map_or(-1, |p| p.0 as i64)).i("j", x.map_or(-1, |p| p.1 as i64)).i("x", -1).i("y", -1));
                let (i, j) = match x { Some(p) => p, None => break };
                if r.n(if k > 9 { 8 * k as u64 } else { 8 }) < prob {
                    let d = match pat { 0 => j, 1 => i, 2 => if r.p(1, 2) { i } else { j }, _ => r.n(k as u64) as usize };
                    match guard_ev("del", || l.del(d).is_ok()) { Some(b) => ev(J::op("del").i("i", d as i64).b("ok", b)), None => break 'o }
                }
            }
        }
        end_case();
    }
}

// ---------------------------------------------------------------- C04

const LEVY: u8 = 1;
/// diffusion coefficient in millionths, -1: not a Brownian mover
fn dm(a: &ContPassiveMergeAgent) -> i64 { match a.mtype { MoveType::Brownian(d) => fx(d, 1e6), _ => -1 } }
fn mproj(j: J, l: &LinkedList<ContPassiveMergeAgent>) -> J {
    let alive: Vec<i64> = l.links.iter().enumerate().filter(|(_, n)| n.alive).map(|(i, _)| i as i64).collect();
    j.v("al", &alive)
     .v("sz", &l.contents.iter().map(|a| a.size as i64).collect::<Vec<_>>())
     .v("dm", &l.contents.iter().map(dm).collect::<Vec<_>>())
     .v("ps", &l.contents.iter().map(|a| if a.pos.coordinate.len() == a.dim && a.dim == 2 { exact(a.pos.coordinate[0], 1.0) } else { BIG }).collect::<Vec<_>>())
}

pub fn run_merge(a: &Args) {
    let mut r = R::new(a.seed, 104);
    // alpha in quarters
    let alphas = [0i64, 2, 4, 8, -4];
    let usual = a.num(1500, 12000);
    for c in 0..usual + a.num(12, 80) {
        let big = c >= usual;
        let heavy = c % 25 == 24;       // agents of many thousands
        let k = if big { *r.pick(&[16usize, 25, 33, 48, 64]) } else { r.r(1, 8) as usize };
        // one exponent for all, or each its own
        let one = if heavy { *r.pick(&[0i64, 2, 4]) } else { *r.pick(&alphas) };
        let own = r.p(1, 4) && !heavy;
        let al: Vec<i64> = (0..k).map(|_| if own { *r.pick(&alphas) } else { one }).collect();
        let kinds: Vec<u8> = (0..k).map(|_| if r.p(1, 12) { LEVY } else { 0 }).collect();
        let d0: Vec<f64> = (0..k).map(|_| if r.p(2, 3) { 1.0 } else { r.r(1, 8) as f64 * 0.25 }).collect();
        let agents: Vec<ContPassiveMergeAgent> = (0..k).map(|i| {
            let m = if kinds[i] == LEVY { MoveType::Levy } else { MoveType::Brownian(d0[i]) };
            ContPassiveMergeAgent::new(m, Position::new(vec![10.0 + i as f64, 1.0]), 0.5, al[i] as f64 / 4.0)
        }).collect();
        begin_case(format!("m{}", c), J::new().i("k", k as i64).v("al", &al)
            .v("d0", &d0.iter().zip(&kinds).map(|(d, k)| if *k == LEVY { -1 } else { fx(*d, 1e6) }).collect::<Vec<_>>()));
        // what no merge and no renewal changes
        let rest: Vec<ContPassiveMergeAgent> = agents.clone();
        let mproj = |j: J, l: &LinkedList<ContPassiveMergeAgent>| -> J {
            let kept = l.contents.iter().zip(&rest).all(|(a, b)| ContPassiveMergeAgent { size: b.size, mtype: b.mtype, pos: b.pos.clone(), ..a.clone() } == *b);
            mproj(j, l).b("rs", kept)
        };
        let mut l = LinkedList::from(agents);
        ev(mproj(J::op("init"), &l));
        let sys = ContCubicSystem::new(BoundaryCond::Periodic, 100.0, 2);
        let target = ContBulkTarget::new(Position::new(vec![0.0, 0.0]), 1.0);
        let mut rng = rng_seed(r.u() as u128);
        let len = if big { r.r(30, 120) } else { r.r(3, 25) };
        'h: for _ in 0..len {
            match if big && r.p(3, 4) { 19 } else if heavy && r.p(1, 3) { 4 } else { r.n(20) } {
                0 => match guard_ev("connect_all", || l.connect_all().is_ok()) { Some(b) => ev(mproj(J::op("conn").b("ok", b), &l)), None => break },
                1 => { let i = r.n(k as u64 + 1) as usize;
                    match guard_ev("del", || l.del(i).is_ok()) { Some(b) => ev(mproj(J::op("del").i("i", i as i64).b("ok", b), &l)), None => break } }
                2 => { // one agent renewed for a new run
                    let i = r.n(k as u64) as usize;
                    if kinds[i] == LEVY { continue; }
                    match guard_ev("renew", || l.contents[i].renew_uniform(&sys, &target, &mut rng).is_ok()) {
                        Some(b) => { l.contents[i].pos.coordinate[0] = 10.0 + i as f64; ev(mproj(J::op("renew").i("i", i as i64).b("ok", b), &l)) } None => break }
                }
                3 => { // direct merge of two agents, outside of the list
                    let (i, j) = (r.n(k as u64) as usize, r.n(k as u64) as usize);
                    let other = l.contents[j].clone();
                    match guard_ev("agent.merge", || l.contents[i].merge(&other).is_ok()) { Some(b) => {
                        let same = other == l.contents[j] || i == j;
                        ev(mproj(J::op("amerge").i("i", i as i64).i("j", j as i64).b("ok", b).b("same", same), &l)) } None => break }
                }
                4 => { // direct growth
                    let i = r.n(k as u64) as usize; let s = if heavy { *r.pick(&[1i64, 250, 255, 256, 32767, 65535, 65536, 100_000]) } else { r.r(1, 4) };
                    match guard_ev("add_size", || (l.contents[i].add_size(s as usize).is_ok(), l.contents[i].size())) {
                        Some((b, z)) => ev(mproj(J::op("grow").i("i", i as i64).i("s", s).b("ok", b).i("z", z as i64), &l)), None => break }
                }
                5 | 6 => { // a collision loop: sweep pairs, merge some
                    if guard_ev("into_double_iter", || l.into_double_iter()).is_none() { break; }
                    ev(J::op("dit"));
                    for _ in 0..k * k + 2 {
                        let x = match guard_ev("dstep", || l.indicies_double()) { Some(x) => x, None => break 'h };
                        let (i, j) = match x { Some(p) => p, None => break };
                        if r.p(1, if big { 20 } else { 3 }) {
                            let (p, q) = if r.p(1, 4) { (j, i) } else { (i, j) };
                            match guard_ev("merge", || l.merge(p, q).is_ok()) { Some(b) => ev(mproj(J::op("merge").i("i", p as i64).i("j", q as i64).b("ok", b), &l)), None => break 'h }
                        }
                    }
                }
                _ => {
                    let (i, j) = if r.p(1, 10) { (r.n(k as u64 + 2) as usize, r.n(k as u64 + 2) as usize) } else { (r.n(k as u64) as usize, r.n(k as u64) as usize) };
                    match guard_ev("merge", || l.merge(i, j).is_ok()) { Some(b) => ev(mproj(J::op("merge").i("i", i as i64).i("j", j as i64).b("ok", b), &l)), None => break }
                }
            }
            if l.contents.iter().map(|a| a.size).max().unwrap_or(0) > if heavy { 2_000_000 } else { 200 } { break; }
        }
        end_case();
    }
}
