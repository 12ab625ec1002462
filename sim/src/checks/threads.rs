//! Thread schedules inside one process: C07 conversion, C15 parallel search.
use super::Check;
use super::flow::*;
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, World};
use std::collections::{BTreeMap, BTreeSet};

/// A member of the class of `q`, reached by random equivalence operations.
pub fn random_member(t: Type, q: &Quad, n: usize, r: &mut Rng) -> Quad {
    let u = *r.pick(&units(n));
    let mut x = q.map(|s| decimate(s, u, n));
    if t != Type::Ws {
        let k = r.below(n as u64) as usize;
        x = x.map(|s| rot(s, k, n));
    }
    if n % 2 == 0 {
        if r.chance(1, 2) {
            x = x.map(|s| altneg(s, n));
        }
        let mut h = r.below(16) as u32;
        if t == Type::Qts && h.count_ones() % 2 == 1 {
            h ^= 1;
        }
        for (i, s) in x.iter_mut().enumerate() {
            if (h >> i) & 1 == 1 {
                *s = rot(*s, n / 2, n);
            }
        }
    }
    let mut par = 0;
    for i in (1..4).rev() {
        let j = r.below(i as u64 + 1) as usize;
        if i != j {
            x.swap(i, j);
            par ^= 1;
        }
    }
    for s in x.iter_mut() {
        if r.chance(1, 2) {
            *s = !*s & mask(n);
            par ^= 1;
        }
    }
    if t == Type::Qts && par == 1 {
        x[0] = !x[0] & mask(n);
    }
    x
}
/// Scheduling points of a run of this command without preemptions.
fn points(cx: &Cx, w: &mut World, key: &str, sc: &Scenario, cmd: &str, prep: &dyn Fn(&mut World)) -> [u64; 3] {
    *cx.cached(&format!("points {key}"), || {
        w.reset();
        prep(w);
        let mut s = sc.clone();
        s.atoms.retain(|a| !matches!(a, Atom::Rule(..)));
        let r = w.run1(Actor::inst(cmd), &s.plan(0));
        w.reset();
        let p = r.find("node");
        [0, 1, 2].map(|k| p.first().map_or(0, |p| p.stat(&format!("p{k}"))))
    })
}
fn preemptions(s: &mut Scenario, p: [u64; 3], rng: &mut Rng) {
    if rng.chance(5, 6) {
        let prob = *rng.pick(&[0u64, 1 << 20, 1 << 26, 1 << 29, 1 << 31]);
        // with a small probability, switches anywhere in the code or at shared memory
        let (prob, mask) = if rng.chance(1, 3) { (1u64 << rng.range(12, 25), *rng.pick(&[2, 3, 6])) } else { (prob, 4) };
        s.atoms.push(rule(0, "node", None, false, format!("sched {} {prob} {mask}", rng.range(1, 1 << 40))));
    }
    if rng.chance(1, 2) {
        let (mask, lo, hi) = *rng.pick(&[(1, 4, 10), (1, 6, 10), (2, 0, 7), (3, 4, 10), (4, 0, 2)]);
        let m = 1u64 << rng.range(lo, hi);
        s.atoms.push(rule(0, "node", None, false, format!("meet {mask} {m} {} {}", rng.below(m), 1u64 << rng.range(6, 24))));
    }
    for _ in 0..rng.below(24) {
        let c = *rng.pick(&[0usize, 1, 1, 1, 2, 2]);
        if p[c] > 0 {
            s.atoms.push(rule(0, "node", None, false, format!("pre {c} {} {}", rng.range(1, p[c]), rng.below(8))));
        }
    }
}
/// Mostly few threads, sometimes more than there is work for.
fn thread_count(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => rng.range(9, 40),
        1 => rng.range(5, 16),
        _ => rng.range(1, 8),
    }
}
/// Sometimes a worker cannot be started, or memory runs out among them.
fn shortage(s: &mut Scenario, threads: u64, rng: &mut Rng) {
    if rng.chance(1, 14) {
        s.atoms.push(rule(0, "node", None, false, format!("nothread {}", rng.range(1, threads))));
    } else if rng.chance(1, 20) {
        let k = 1 + (rng.next() >> 40 >> rng.below(24));
        s.atoms.push(rule(0, "node", None, false, format!("nomem {k} {}", rng.pick(&[1, 3, 0]))));
    }
}
fn flag_problem(r: &crate::world::Run) -> Option<String> {
    for p in &r.procs {
        for f in &p.flags {
            if f.starts_with('X') {
                return Some("all threads wait for each other".into());
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C07
fn gen_c07(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let t = *rng.pick(&[Type::Qts, Type::Wts, Type::Ws]);
    let lens: &[u64] = if cx.thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12] } else { &[1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 9] };
    let n = *rng.pick(lens) as usize;
    let refs = cx.refs.get(&(t, n)).cloned().unwrap_or_default();
    if refs.is_empty() {
        return None;
    }
    let mut s = Scenario::new("C07");
    s.put("type", t.name());
    s.put("n", n);
    let k = rng.range(1, if n >= 10 { 6 } else { 14 });
    let mut last: Option<Quad> = None;
    // sometimes all sequences are of one class, or all lines are the same
    let (one, again) = *rng.pick(&[(false, 20), (false, 20), (true, 10), (true, 50), (false, 95)]);
    let first = *rng.pick(&refs);
    for _ in 0..k {
        let q = match last {
            Some(q) if rng.chance(again, 100) => q,
            _ => random_member(t, if one { &first } else { rng.pick(&refs) }, n, rng),
        };
        s.atoms.push(Atom::Step(format!("line {}", encode(&q, n))));
        last = Some(q);
    }
    let th = thread_count(rng);
    s.atoms.push(Atom::Env(None, format!("threads {th}")));
    s.atoms.push(Atom::Env(None, format!("hash {}", rng.range(1, 1 << 30))));
    let sc = s.clone();
    let p = points(cx, w, &format!("c07 {} {n} {k} {th}", t.name()), &s, &format!("convert hm {} {n}", t.name()), &|w| put_lists(w, &sc));
    preemptions(&mut s, p, rng);
    shortage(&mut s, th, rng);
    Some(s)
}
fn put_lists(w: &mut World, sc: &Scenario) {
    let t = Type::parse(sc.get("type")).unwrap_or(Type::Qts);
    let d = dir(t, sc.num("n") as usize);
    let text: String = sc.steps().iter().filter_map(|s| s.strip_prefix("line ")).map(|l| format!("{l}\n")).collect();
    w.put(&format!("{d}/result.seq"), text.as_bytes());
    if t == Type::Wts {
        w.put(&format!("{d}/result-qts.seq"), text.as_bytes());
    }
    w.chown_tree();
}
pub fn class_name(cx: &Cx, m: &[Vec<i8>], key: &str) -> String {
    use std::hash::{Hash, Hasher};
    cx.cached(&format!("hclass {key}"), || {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        hadamard_class(m).hash(&mut h);
        format!("{:016x}", h.finish())
    })
    .to_string()
}
/// Every line a Hadamard matrix of order 4n, no two equivalent, and exactly the
/// classes of the given sequences.
pub fn check_mat(cx: &Cx, w: &World, what: &str, d: &str, n: usize, lines: &[String], o: &mut Outcome) {
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for l in lines {
        match decode(l) {
            Some((q, m)) if m == n => {
                want.insert(class_name(cx, &hadamard_of(&q, n), l), l.clone());
            }
            _ => return,
        }
    }
    let text = match w.text(&format!("{d}/result.mat")) {
        Some(t) => t,
        None => return o.violate("file-missing", format!("{what}: no result.mat after a successful conversion")),
    };
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    for (k, l) in text.lines().enumerate() {
        let m = match parse_mat(l) {
            Ok(m) => m,
            Err(e) => return o.violate("not-a-matrix", format!("{what}: line {} of result.mat: {e}", k + 1)),
        };
        if m.len() != 4 * n || !is_hadamard(&m) {
            return o.violate("not-hadamard", format!("{what}: line {} of result.mat is not a Hadamard matrix of order {}", k + 1, 4 * n));
        }
        if let Some(j) = got.insert(class_name(cx, &m, l), k) {
            return o.violate("equivalent-matrices", format!("{what}: lines {} and {} of result.mat are Hadamard equivalent", j + 1, k + 1));
        }
    }
    if let Some((_, l)) = want.iter().find(|(c, _)| !got.contains_key(*c)) {
        return o.violate("matrix-missing", format!("{what}: result.mat has {} matrices and none equivalent to that of {l} ({} classes expected)", got.len(), want.len()));
    }
    if got.keys().any(|c| !want.contains_key(c)) {
        return o.violate("foreign-matrix", format!("{what}: result.mat has a matrix of no listed sequence"));
    }
    if want.len() > 1 {
        o.probe("several-classes");
    }
    if want.len() < lines.len() {
        o.probe("equivalent-inputs");
    }
}
fn run_c07(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let t = Type::parse(sc.get("type")).unwrap_or(Type::Qts);
    let n = sc.num("n") as usize;
    put_lists(w, sc);
    let lines: Vec<String> = sc.steps().iter().filter_map(|s| s.strip_prefix("line ")).map(|l| l.to_string()).collect();
    if lines.is_empty() {
        return o;
    }
    let cmd = format!("convert hm {} {n}", t.name());
    let r = run_cmd(w, sc, 0, Actor::inst(&cmd), &mut o);
    let what = format!("{cmd}, {} sequences, {} threads", lines.len(), sc.env(0).threads);
    if let Some(e) = flag_problem(&r) {
        o.violate("deadlock", format!("{what}: {e}"));
        return o;
    }
    if !r.ok() && !r.hang && r.fired() > 0 {
        o.probe("shortage-reported");
        return o;
    }
    if !r.ok() {
        o.violate("conversion-fails", format!("{what}: {}", describe(&cmd, &r)));
        return o;
    }
    o.note = format!("{:?}", r.find("node").first().map(|p| [p.stat("p0"), p.stat("p1"), p.stat("p2"), p.stat("sw"), p.stat("thr")]));
    if r.find("node").iter().any(|p| p.stat("meet") > 0) {
        o.probe("threads-meet");
    }
    check_mat(cx, w, &what, &dir(t, n), n, &lines, &mut o);
    o
}

// ------------------------------------------------------------------ C15
fn alphabet(q24: bool) -> Vec<(char, [i32; 4])> {
    UNIT_LETTERS.chars().take(if q24 { 24 } else { 16 }).map(|c| (c, letter_quaternion(c).unwrap())).collect()
}
/// All perfect sequences with first entry 1 and the given symmetry.
fn enumerate(q24: bool, n: usize, sym: &str) -> BTreeSet<String> {
    let a = alphabet(q24);
    let free = if sym == "none" { n } else { (n + 1) / 2 };
    let mut out = BTreeSet::new();
    let mut ix = vec![0usize; free];
    loop {
        let mut v = vec![[0i32; 4]; n];
        for i in 0..free {
            let x = a[ix[i]].1;
            v[i] = x;
            let neg = x.map(|y| -y);
            match sym {
                "I" => v[n - 1 - i] = x,
                "II" => v[n / 2 + i] = if i % 2 == 1 { neg } else { x },
                "III" => v[n / 2 + i] = if (i / 2) % 2 == 1 { neg } else { x },
                _ => {}
            }
        }
        let ok = (1..n).all(|k| {
            let mut s = [0i32; 4];
            for i in 0..n {
                let b = v[(i + k) % n];
                let p = qmul(v[i], [b[0], -b[1], -b[2], -b[3]]);
                for t in 0..4 {
                    s[t] += p[t];
                }
            }
            s == [0; 4]
        });
        if ok {
            out.insert(v.iter().map(|x| a.iter().find(|l| l.1 == *x).map_or('?', |l| l.0)).collect());
        }
        let mut i = free;
        loop {
            i -= 1;
            if i == 0 {
                return out;
            }
            ix[i] += 1;
            if ix[i] < a.len() {
                break;
            }
            ix[i] = 0;
        }
    }
}
fn gen_c15(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let kinds: &[(&str, u64, &str)] = &[
        ("pqs", 2, "none"), ("pqs", 3, "none"), ("pqs", 3, "none"), ("pqs", 4, "none"), ("pqs", 4, "I"), ("pqs", 5, "I"), ("pqs", 6, "I"), ("pqs", 6, "II"), ("pqs", 4, "II"), ("pqs", 6, "III"),
        ("pqs", 4, "III"), ("q24", 2, "none"), ("q24", 3, "none"), ("q24", 4, "II"), ("q24", 5, "I"), ("q24", 6, "II"), ("q24", 6, "III"),
        ("pqs", 8, "II"), ("pqs", 7, "I"), ("q24", 4, "none"), ("pqs", 5, "none"),
    ];
    let (k, n, sym) = kinds[rng.below(if cx.thorough { kinds.len() } else { kinds.len() - 3 } as u64) as usize];
    let mut s = Scenario::new("C15");
    s.put("kind", k);
    s.put("n", n);
    s.put("sym", sym);
    let th = thread_count(rng);
    s.atoms.push(Atom::Env(None, format!("threads {th}")));
    let p = points(cx, w, &format!("c15 {k} {n} {sym} {th}"), &s, &format!("brute {k} {n} {sym}"), &|_| {});
    preemptions(&mut s, p, rng);
    shortage(&mut s, th, rng);
    Some(s)
}
fn run_c15(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let (k, n, sym) = (sc.get("kind"), sc.num("n") as usize, sc.get("sym"));
    let want = cx.cached(&format!("brute {k} {n} {sym}"), || enumerate(k == "q24", n, sym));
    let cmd = format!("brute {k} {n} {sym}");
    let r = run_cmd(w, sc, 0, Actor::inst(&cmd), &mut o);
    let what = format!("{cmd}, {} threads", sc.env(0).threads);
    if let Some(e) = flag_problem(&r) {
        o.violate("deadlock", format!("{what}: {e}"));
        return o;
    }
    if !r.ok() && !r.hang && r.fired() > 0 {
        o.probe("shortage-reported");
        return o;
    }
    if !r.ok() {
        o.violate("search-fails", format!("{what}: {}", describe(&cmd, &r)));
        return o;
    }
    o.note = format!("{} solutions {:?}", want.len(), r.find("node").first().map(|p| [p.stat("p0"), p.stat("p1"), p.stat("p2"), p.stat("sw"), p.stat("thr")]));
    let mut seen = BTreeSet::new();
    let mut count = None;
    for l in r.ends[0].out.lines() {
        if let Some(c) = l.strip_prefix("count ") {
            count = c.trim().parse::<u64>().ok();
            continue;
        }
        if !want.contains(l) {
            o.violate("false-solution", format!("{what}: printed `{l}`, which is no solution"));
            return o;
        }
        if !seen.insert(l.to_string()) {
            o.violate("printed-twice", format!("{what}: printed `{l}` more than once"));
            return o;
        }
    }
    if let Some(m) = want.iter().find(|x| !seen.contains(*x)) {
        o.violate("solution-missing", format!("{what}: {} of {} solutions were not printed, such as {m}", want.len() - seen.len(), want.len()));
    } else if count != Some(want.len() as u64) {
        o.violate("wrong-count", format!("{what}: returned {count:?} instead of {}", want.len()));
    }
    if !want.is_empty() {
        o.probe("solutions-exist");
    }
    o
}

pub const CHECKS: &[Check] = &[
    Check { id: "C07", gen: gen_c07, run: run_c07, shrink: None, quick: 800, thorough: 20000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one conversion of a list of 1 to 14 reference sequences by the instrumented program under one thread schedule; distinct by schedule, operations and result", assumptions: &["Hadamard classes are decided by an independent graph and the same canonical labelling library (nauty) the program uses", "schedules switch threads at operations, locks, atomic and shared-memory accesses of the crate's own code; rayon and std are switched only at their system calls and yields"] },
    Check { id: "C15", gen: gen_c15, run: run_c15, shrink: None, quick: 25000, thorough: 400000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one parallel search by the instrumented program under one thread schedule, compared with an independent enumeration", assumptions: &["the search is reached through the guarded command of the hook, as no command of the program calls it", "symmetry type IV is left out: the code's meaning of it for the first entry is not documented"] },
];
