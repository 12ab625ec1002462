//! The remaining commands: C19 expanded matrix list, C20 amicability
//! verification, C21 requests that cannot be served.
use super::answers::sorted_snap;
use super::crash::pick_kill;
use super::flow::*;
use super::{long, Check};
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, Ent, Plan, World};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const ALL: &[Type] = &[Type::Qts, Type::Wts, Type::Ws];

// ------------------------------------------------------------------ C19
/// Members of known classes, as a joining stage (or a user) might list them.
fn listed(cx: &Cx, t: Type, n: usize, seed: u64, k: u64) -> Vec<Quad> {
    let known = long::base(cx, t, n);
    let mut r = Rng::new(seed);
    let mut v: Vec<Quad> = vec![];
    for _ in 0..k {
        if let (false, Some(q)) = (v.is_empty() || r.chance(3, 4), v.first().copied()) {
            // an equivalent of one that is listed already
            v.push(long::member(t, &q, n, &mut r));
        } else if !known.is_empty() {
            v.push(long::member(t, r.pick(&known), n, &mut r));
        }
    }
    v
}
fn gen_c19(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let t = *rng.pick(ALL);
    let n = rng.range(1, if cx.thorough { 8 } else { 7 }) as usize;
    let c = Cfg { t, n, pairing: "WZ".into(), corr: false, hm: false, flow: Flow::Scripts };
    let mut s = Scenario::new("C19");
    c.put(&mut s);
    s.put("list", rng.below(1 << 40));
    s.put("k", rng.range(0, 4));
    s.put("old", rng.below(4));
    s.atoms = random_env(rng);
    if rng.chance(1, 2) {
        // an earlier attempt that was killed
        let line = format!("qhm-all {}", c.tn());
        w.reset();
        let tr = write_list(cx, w, &s, &c).then(|| w.run1(Actor::node(&line), &Plan { trace: true, ..quiet().plan(0) }).procs);
        w.reset();
        if let Some(at) = tr.and_then(|t| pick_kill(rng, &t, 0, false)) {
            s.atoms.push(at);
        }
    }
    if rng.chance(1, 3) {
        s.atoms.push(rule(1, "node", None, false, format!("fault {} {} {}", rng.range(1, 40), rng.pick(&["short", "eintr"]), rng.range(1, 5))));
    }
    Some(s)
}
fn write_list(cx: &Cx, w: &World, s: &Scenario, c: &Cfg) -> bool {
    let v = listed(cx, c.t, c.n, s.num("list"), s.num("k"));
    w.put(&format!("{}/result.seq", c.dir()), v.iter().map(|q| encode(q, c.n) + "\n").collect::<String>().as_bytes());
    w.chown_tree();
    true
}
/// A name for a normalised matrix, the same for conjugates of it.
fn name_of(m: &[Vec<[i32; 4]>]) -> Vec<u8> {
    let n = m.len();
    let mut best: Option<Vec<u8>> = None;
    for u in UNIT_LETTERS.chars() {
        let u = letter_quaternion(u).unwrap();
        let v: Vec<u8> = (0..n * n).flat_map(|i| qmul2(qmul2(conj(u), m[i / n][i % n]), u).map(|x| (x + 2) as u8)).collect();
        if best.as_ref().map_or(true, |b| v < *b) {
            best = Some(v);
        }
    }
    best.unwrap_or_default()
}
fn run_c19(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: sc.num("k") > 0, ..Default::default() };
    let line = format!("qhm-all {}", c.tn());
    let file = format!("{}/qhm_all.mat", c.dir());
    write_list(cx, w, sc, &c);
    match sc.num("old") {
        1 => w.put(&file, "Old matrix\n".repeat(5000).as_bytes()),
        2 => w.put(&file, b""),
        _ => {}
    }
    w.chown_tree();
    if sc.atoms.iter().any(|a| matches!(a, Atom::Rule(0, ..))) {
        let r = run_cmd(w, sc, 0, Actor::node(&line), &mut o);
        if r.fired() > 0 {
            o.probe("attempt-killed");
        }
    }
    let r = run_cmd(w, sc, 1, Actor::node(&line), &mut o);
    if !r.ok() {
        o.violate("fault-free-run-fails", describe(&line, &r));
        return o;
    }
    let text = w.text(&file).unwrap_or_default();
    // what is to be found: one matrix for every sequence of the classes
    let mut want: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
    let mut all: BTreeSet<Quad> = BTreeSet::new();
    for q in listed(cx, c.t, c.n, sc.num("list"), sc.num("k")) {
        if !all.contains(&q) {
            all.extend(orbit(c.t, &q, c.n));
        }
    }
    for q in &all {
        let line = encode(q, c.n);
        *want.entry(name_of(&normal_form(&line))).or_default() += 1;
    }
    let blocks = parse_qhm(&text);
    for (k, b) in blocks.iter().enumerate() {
        let m: Option<Vec<Vec<[i32; 4]>>> = b.iter().map(|r| r.iter().map(|l| letter_quaternion(*l)).collect()).collect();
        let m = match m {
            Some(m) if m.len() == c.n && m.iter().all(|r| r.len() == c.n) => m,
            _ => {
                o.violate("not-a-matrix", format!("{}: block {} of qhm_all.mat is not a {} by {} matrix of unit quaternions", line, k + 1, c.n, c.n));
                return o;
            }
        };
        if (0..c.n).any(|i| m[0][i] != [2, 0, 0, 0] || m[i][0] != [2, 0, 0, 0]) {
            o.violate("not-normalised", format!("{line}: block {} of qhm_all.mat has a first row or column that is not all 1", k + 1));
            return o;
        }
        let e = want.entry(name_of(&m)).or_default();
        *e -= 1;
        if *e < 0 {
            o.violate("matrix-too-many", format!("{line}: block {} of qhm_all.mat is the matrix of no sequence equivalent to a listed one, or stands there too often", k + 1));
            return o;
        }
    }
    let missing: i64 = want.values().sum();
    if missing > 0 {
        o.violate("matrix-missing", format!("{line}: {} of {} matrices are missing from qhm_all.mat", missing, all.len()));
    }
    o.note = format!("{} matrices", all.len());
    if all.len() > 0 {
        o.probe("matrices-compared");
    }
    o
}

// ------------------------------------------------------------------ C20
fn gen_c20(_cx: &Cx, _w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let mut s = Scenario::new("C20");
    let n = if rng.chance(1, 4) { rng.range(12, 34) } else { rng.range(1, 12) };
    Cfg { t: Type::Qts, n: n as usize, pairing: "WZ".into(), corr: false, hm: false, flow: Flow::Scripts }.put(&mut s);
    s.put("list", rng.below(1 << 40));
    s.put("k", rng.range(0, 6));
    s.atoms = random_env(rng);
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2]) {
        let what = *rng.pick(&["near", "near", "near", "near", "random", "cut", "flip", "longer", "letter", "missing", "space", "half", "nonamicable", "bytes"]);
        s.atoms.push(Atom::Step(format!("spoil {what} {}", rng.below(1 << 40))));
    }
    if rng.chance(1, 3) {
        s.atoms.push(rule(0, "node", None, false, format!("fault {} {} {}", rng.range(1, 24), rng.pick(&["short", "eintr", "err"]), if rng.chance(1, 2) { 5 } else { *rng.pick(&[1, 2, 3, 6, 12, 9, 21]) })));
    }
    Some(s)
}
fn run_c20(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let n = sc.num("n") as usize;
    let mut o = Outcome { nontrivial: sc.num("k") > 0, ..Default::default() };
    let file = format!("{}/result.seq", dir(Type::Qts, n));
    // Williamson-type sequences are amicable QT sequences
    let wts = long::base(cx, Type::Wts, n);
    let mut r = Rng::new(sc.num("list"));
    let mut lines: Vec<String> = if wts.is_empty() { vec![] } else { (0..sc.num("k")).map(|_| encode(&long::member(Type::Wts, r.pick(&wts), n, &mut r), n)).collect() };
    let mut missing = false;
    // a place where a byte that is no text stands
    let mut bytes: Option<(usize, usize)> = None;
    for st in sc.steps() {
        let x: Vec<&str> = st.split(' ').collect();
        let mut r = Rng::new(x[2].parse().unwrap_or(0));
        let at = r.below(lines.len() as u64 + 1) as usize;
        let have = at < lines.len();
        match x[1] {
            "near" => {
                // nearly perfect, or perfect and nearly amicable
                let t = *r.pick(&[Type::Qts, Type::Wts, Type::Wts]);
                if let Some(q) = long::near(t, n, &wts, &mut r) {
                    lines.insert(at, encode(&q, n));
                }
            }
            "nonamicable" => {
                let q = (0..200).map(|_| long::member(Type::Qts, r.pick(&long::base(cx, Type::Qts, n)), n, &mut r)).find(|q| !amicable(q, n));
                if let Some(q) = q {
                    lines.insert(at, encode(&q, n));
                }
            }
            "random" => lines.insert(at, encode(&[0; 4].map(|_| r.next() & mask(n)), n)),
            "cut" if have => {
                let l = lines[at].len() as u64;
                lines[at].truncate(r.below(l) as usize);
                lines.truncate(at + 1);
            }
            "half" if have && n % 2 == 0 => lines[at].truncate(n / 2),
            "flip" if have => {
                let k = r.below(n as u64) as usize;
                let l: char = *r.pick(&"+-iIjJkKqQxXyYzZ".chars().collect::<Vec<_>>());
                lines[at] = lines[at].chars().enumerate().map(|(i, c)| if i == k { l } else { c }).collect();
            }
            "longer" if have => {
                let l = lines[at].clone();
                lines[at] = if r.chance(1, 2) { format!("{l}{l}") } else { format!("{l}+") };
            }
            "letter" if have => {
                let k = r.below(n as u64) as usize;
                lines[at] = lines[at].chars().enumerate().map(|(i, c)| if i == k { '?' } else { c }).collect();
            }
            "bytes" if have => bytes = Some((at, r.below(n as u64) as usize)),
            "space" if have => lines.insert(at, String::new()),
            "missing" => missing = true,
            _ => {}
        }
    }
    if !missing {
        let mut b = lines.iter().map(|l| format!("{l}\n")).collect::<String>().into_bytes();
        if let Some((l, k)) = bytes.filter(|x| x.0 < lines.len()) {
            let p = lines[..l].iter().map(|x| x.len() + 1).sum::<usize>() + k;
            if p < b.len() {
                b[p] = 0xff;
                lines[l] = "?".into();
            }
        }
        w.put(&file, &b);
    } else {
        w.put(&format!("{}/result.log", dir(Type::Qts, n)), b"");
    }
    w.chown_tree();
    // the truth
    let wrong = lines.iter().position(|l| match decode(l) {
        Some((q, m)) => m != n || !perfect(&q, n) || !amicable(&q, n),
        None => true,
    });
    let before = w.snapshot("results");
    let line = format!("amicable {n}");
    let run = run_cmd(w, sc, 0, Actor::node(&line), &mut o);
    let hurt = run.procs.iter().any(|p| p.fired.iter().any(|f| f.1.contains("err")));
    let unread = run.procs.iter().any(|p| p.fired.iter().any(|f| f.1.contains("err") && f.2 == 'r'));
    if unread {
        o.probe("read-failed");
    }
    if run.hang {
        o.violate("no-end", format!("`{line}` did not end"));
    } else if run.ends[0].code == 0 && missing {
        o.violate("false-verification", format!("`{line}` succeeded without a list"));
    } else if run.ends[0].code == 0 && unread {
        o.violate("false-verification", format!("`{line}` succeeded, but a read of the list failed"));
    } else if let (0, Some(k)) = (run.ends[0].code, wrong) {
        o.violate("false-verification", format!("`{line}` succeeded, but line {} of the list, `{}`, is not an amicable QT sequence of length {n}", k + 1, lines[k]));
    } else if run.ends[0].code != 0 && wrong.is_none() && !missing && !hurt {
        o.violate("false-refusal", format!("every line of the list is an amicable QT sequence, but {}", describe(&line, &run)));
    } else if let Some(d) = file_diff(&before, &w.snapshot("results")) {
        o.violate("changes-files", format!("`{line}`: {d}"));
    }
    o.probe(if missing { "list-missing" } else if wrong.is_some() { "list-with-a-wrong-line" } else { "list-correct" });
    o
}

// ------------------------------------------------------------------ C21
const BAD: &[&str] = &[
    "./driver.sh {t} {n} -x", "./driver.sh {t} {n} -p", "./driver.sh {t} {n} -h -q", "./driver.sh {t} {n} -c -p WX -z", "./driver.sh {t} {n} -hx",
    "./driver.sh {t} {n} -d -x", "./driver.sh {t} {n} -d -p", "./driver.sh {t} {n} -dz -c", "./driver.sh {t} {n} -x -d",
    "./pairs.sh {t} {n} -d -x", "./pairs.sh {t} {n} -d -p", "./pairs.sh {t} {n} -cdh",
    "./pairs.sh {t} {n} -x", "./pairs.sh {t} {n} -p", "./pairs.sh {t} {n} -h", "./pairs.sh {t} {n} -c -y",
    "./sortpairs.sh {t} {n} -x", "./sortpairs.sh {t} {n} -d",
    // SLURM_TMPDIR is not set
    "./sortpairs.sh {t} {n} -s", "./sortpairs.sh {t} {n} -s", "./driver.sh {t} {n} -s", "./driver.sh {t} {n} -s -d", "./driver.sh {t} {n} -csh",
    "./driver.sh {t}", "./pairs.sh {t}", "./driver.sh {t} 0{n}", "./driver.sh {t} +{n}", "./pairs.sh {t} 00{n}", "./pairs.sh {t} +{n}", "./driver.sh {t} {n}x", "./driver.sh {t} abc", "./pairs.sh {t} -{n}", "./driver.sh {t} 0",
    "./driver.sh foo {n}", "./pairs.sh foo {n}", "./driver.sh WTS {n}", "./driver.sh {n} {t}", "./pairs.sh {n} {t}",
    "node foo {t} {n}", "node pair {t} {n} psd WZ", "node joins {t} {n}", "node join {t}", "node join foo {n}", "node join {t} x", "node join {n} {t}",
    "node pairs {t} {n} PSD WZ", "node pairs {t} {n} psd", "node pairs foo {n} psd WZ", "node pairs_rowsum {t} {n} {rs} foo WZ", "node pairs_rowsum {t} {n} psd WZ",
    "node pair_single {t} {n} {rs} psd WZ 3", "node pair_single {t} {n} {rs} correlation WX 0", "node pair_single {t} {n} {rs} psd ZW 1", "node pair_single {t} {n} {rs} psd WY", "node pair_single {t} {n} {rs} foo WY 2",
    "node create {t} {n} {rs} ZW", "node create foo {n} {rs} WZ", "node create {t} {n}",
    "node convert foo {t} {n}", "node convert qhm foo {n}", "node convert hm {t}", "node convert hm {t} 1 {n}", "node qhm-all {t}", "node qhm-all foo {n}", "node amicable", "node amicable x", "node rowsums foo {n}", "node rowsums {t}",
    "node rowsums {t} {n}x", "node rowsums {t} -{n}", "node rowsums {t} {n} {n}", "node pairs {t} {n}.5 psd WZ", "node pairs {t} -{n} psd WZ", "node pairs {t} x psd WZ", "node pairs {t} {n} psd WZ 1", "node pairs {t} 99999999999999999999 psd WZ",
    "node join {t} {n}x", "node join {t} {n} {n}", "node pairs_rowsum {t} {n} 1 1 x 1 psd WZ", "node pairs_rowsum {t} {n} {rs} psd WZ 1", "node pair_single {t} x {rs} psd WZ 1", "node pair_single {t} {n} {rs} psd WZ 256", "node pair_single {t} {n} {rs} psd WZ -1",
    "node create {t} x {rs} WZ", "node create {t} {n} 1 1 1.5 1 WZ", "node convert qhm {t} {n}x", "node convert hm {t} -{n}", "node convert hm {t} {n} {n}", "node qhm-all {t} {n}x", "node qhm-all {t} {n} {n}", "node amicable {n}x", "node amicable {n} {n}", "node {t} {n}", "node -h", "node --help {n}",
];
/// Requests for the usage message.
const HELP: &[&str] = &["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh", "countpairs.sh", "pair_file_cleanup.sh", "collect_results.py"];
const STATES: &[&str] = &["nothing", "directory", "unsorted", "sorted", "cleaned", "complete"];
fn gen_c21(cx: &Cx, w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = Cfg::pick(rng, if cx.thorough { 400 } else { 130 }, ALL, &[Flow::Driver], Some(false));
    let mut s = Scenario::new("C21");
    c.put(&mut s);
    s.put("state", rng.pick(STATES));
    let rs = super::faults::rowsum_list(cx, w, &c);
    let rs = rs.as_ref().as_ref().ok().filter(|v| !v.is_empty()).map(|v| rng.pick(v).clone()).unwrap_or("1 1 1 1".into());
    let bad = if i % 2 == 0 { BAD[(i / 2) as usize % BAD.len()] } else { *rng.pick(BAD) };
    s.put("command", bad.replace("{t}", c.t.name()).replace("{n}", &c.n.to_string()).replace("{rs}", &rs));
    if rng.chance(1, 12) {
        s.put("command", format!("./{} {}", rng.pick(HELP), rng.pick(&["", "", "help", "-h", "--help"])).trim());
        s.put("help", 1);
    }
    s.atoms = random_env(rng);
    Some(s)
}
fn run_c21(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let state = sc.get("state").to_string();
    match &state[..] {
        "nothing" => {}
        "directory" => {
            let _ = std::fs::create_dir_all(w.path(&c.dir()));
        }
        "sorted" => {
            let s = sorted_snap(cx, w, &c);
            match s.as_ref() {
                Ok(s) => w.restore(s),
                Err(e) => {
                    o.violate("fault-free-run-fails", e.clone());
                    return o;
                }
            }
        }
        k => {
            let k = k.to_string();
            let s: Arc<Result<_, String>> = cx.cached(&format!("c21 {k} {}", c.key()), || {
                w.reset();
                let mut o = Outcome::default();
                let line = if k == "unsorted" { c.pairs(false) } else { c.driver(false) };
                let r = run_cmd(w, &quiet(), 0, Actor::sh(&line), &mut o);
                if !r.ok() {
                    return Err(describe(&line, &r));
                }
                if k == "cleaned" {
                    run_cmd(w, &quiet(), 1, Actor::sh(&format!("./pair_file_cleanup.sh {}", c.tn())), &mut o);
                }
                let s = w.snapshot("results");
                w.reset();
                Ok(s)
            });
            match s.as_ref() {
                Ok(s) => w.restore(s),
                Err(e) => {
                    o.violate("fault-free-run-fails", e.clone());
                    return o;
                }
            }
        }
    }
    w.chown_tree();
    let before = w.snapshot("results");
    let cmd = sc.get("command").to_string();
    let r = run_cmd(w, sc, 0, if let Some(l) = cmd.strip_prefix("node ") { Actor::node(l) } else { Actor::sh(&cmd) }, &mut o);
    let after = w.snapshot("results");
    if r.hang {
        o.violate("no-end", format!("`{cmd}` did not end"));
        return o;
    }
    if sc.flag("help") {
        let text = format!("{} {}", r.ends[0].out, r.ends[0].err);
        if !r.ok() || text.split_whitespace().filter(|x| x.chars().any(|c| c.is_alphabetic())).count() < 3 {
            o.violate("no-usage", format!("`{cmd}` gives no usage message: {}", describe(&cmd, &r)));
        } else if after != before {
            o.violate("changes-files", format!("`{cmd}` only asks for the usage message, but changes the results"));
        }
        o.probe("usage");
        return o;
    }
    if r.ends[0].code == 0 {
        o.violate("accepted", format!("`{cmd}` ended with status 0 (results: {state})"));
        return o;
    }
    for (p, e) in &before {
        if let (Ent::File(_), true) = (e, after.get(p) != Some(e)) {
            o.violate("changes-files", format!("`{cmd}` was refused, but {p} was changed or removed"));
            return o;
        }
    }
    if let Some(p) = after.keys().find(|p| !before.contains_key(*p) && p.contains("/rowsum_") && matches!(after[*p], Ent::File(_))) {
        o.violate("starts-computing", format!("`{cmd}` was refused, but wrote {p}"));
        return o;
    }
    o.probe(if cmd.starts_with("node") { "refused-by-program" } else { "refused-by-script" });
    o
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C19",
        gen: gen_c19,
        run: run_c19,
        shrink: Some(shrink_cfg),
        quick: 1500,
        thorough: 20_000,
        cap_quick: 150,
        cap_thorough: 2400,
        rule: "one scenario = one `qhm-all` over a list of members of known classes, often after a killed attempt or over an old file, compared as a multiset of matrices with the orbits of the listed sequences; non-trivial: the list is not empty",
        assumptions: &["matrices are compared up to conjugation by a unit, the freedom a normal form has"],
    },
    Check {
        id: "C20",
        gen: gen_c20,
        run: run_c20,
        shrink: None,
        quick: 12000,
        thorough: 100_000,
        cap_quick: 150,
        cap_thorough: 2400,
        rule: "one scenario = one `amicable` run over a list of valid sequences, in most cases spoiled in one or two lines, with read faults in a third; its verdict is compared with the definitions; non-trivial: the list was not empty",
        assumptions: &["an empty list is verified trivially"],
    },
    Check {
        id: "C21",
        gen: gen_c21,
        run: run_c21,
        shrink: None,
        quick: 9000,
        thorough: 60_000,
        cap_quick: 150,
        cap_thorough: 1800,
        rule: "one scenario = one state of the results tree and one request that cannot be served, in a drawn environment; exit status and a full snapshot are compared; every one is non-trivial",
        assumptions: &["requests are drawn from a list of kinds of mistakes (BAD in checks/extra.rs)", "directories and a log for a new length may be made before the request is refused"],
    },
];
