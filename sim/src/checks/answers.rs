//! What the result files say: C01 exhaustive, C02 genuine, C03 irredundant,
//! C04 same answer, C05 QT list, C06 files agree, C17 exact keys, C18 counts.
use super::flow::*;
use super::{long, Check};
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, Ent, Snap, World};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const ALL: &[Type] = &[Type::Qts, Type::Wts, Type::Ws];
const FLOWS: &[Flow] = &[Flow::Driver, Flow::Driver, Flow::Scripts, Flow::Jobs];

fn base(prop: &str, c: &Cfg, rng: &mut Rng) -> Scenario {
    let mut s = Scenario::new(prop);
    c.put(&mut s);
    s.atoms = random_env(rng);
    if rng.chance(1, 6) {
        s.put("batch", 1); // as part of a SLURM job
    }
    s
}
/// Small lengths get walked systematically, the rest is drawn.
fn cfg(cx: &Cx, i: u64, rng: &mut Rng, types: &[Type], flows: &[Flow], hm: Option<bool>, quick: u64, thorough: u64) -> Cfg {
    let _ = i;
    Cfg::pick(rng, if cx.thorough { thorough } else { quick }, types, flows, hm)
}
/// Flow of the scenario; a run that fails without any fault is reported.
fn plain_flow(w: &mut World, sc: &Scenario, c: &Cfg, o: &mut Outcome) -> bool {
    match run_flow(w, sc, c, false, 0, o) {
        Ok(_) => true,
        Err(e) => {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            false
        }
    }
}
fn list(w: &World, c: &Cfg, f: &str) -> String {
    w.text(&format!("{}/{f}", c.dir())).unwrap_or_default()
}

// ------------------------------------------------------------------ C01
fn gen_c01(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    if i % 3 == 2 {
        return Some(beyond(cx, "C01", ALL, rng));
    }
    let c = cfg(cx, i, rng, ALL, FLOWS, Some(false), 3000, 20000);
    let mut s = base("C01", &c, rng);
    if c.flow == Flow::Jobs && rng.chance(2, 3) {
        // one share of a distributed search: only some of the rowsums
        s.put("part", rng.range(1, 1 << 30));
    }
    Some(s)
}
/// Jobs for a drawn part of the rowsums: the classes with such row sums are found.
fn run_c01_part(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let mut ph = 0;
    let mut go = |w: &mut World, line: &str, o: &mut Outcome| -> bool {
        let a = if let Some(l) = line.strip_prefix("node ") { Actor::node(l) } else { Actor::sh(line) };
        let r = run_cmd(w, sc, ph, a, o);
        ph += 1;
        if !r.ok() {
            o.violate("fault-free-run-fails", format!("{}, for a part of the rowsums: without any fault, {}", c.key(), describe(line, &r)));
        }
        r.ok()
    };
    if !go(w, &format!("mkdir -p {}", c.dir()), &mut o) || !go(w, &format!("node rowsums {}", c.tn()), &mut o) {
        return o;
    }
    let mut r = Rng::new(sc.num("part"));
    let all = rowsums(w, &c);
    let single = r.chance(1, 2) && !all.is_empty();
    let one = if single { Some(r.pick(&all).clone()) } else { None };
    let mut some: Vec<String> = all.iter().filter(|x| one.as_ref().map_or_else(|| r.chance(1, 2), |o| o == *x)).cloned().collect();
    if some.is_empty() {
        some.extend(all.first().cloned());
    }
    let mut want: BTreeSet<Canon> = BTreeSet::new();
    for rs in &some {
        let v: Vec<i32> = rs.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if let Ok(v) = <[i32; 4]>::try_from(v) {
            want.extend(quads_with(cx, c.t, c.n, v).iter().map(|q| canonical(c.t, q, c.n)));
        }
        if r.chance(1, 2) {
            if !go(w, &format!("node pairs_rowsum {} {rs} {} {}", c.tn(), c.opt(), c.pairing), &mut o) {
                return o;
            }
            continue;
        }
        for p in 1..=2 {
            if !go(w, &format!("node pair_single {} {rs} {} {} {p}", c.tn(), c.opt(), c.pairing), &mut o) {
                return o;
            }
        }
    }
    for s in &c.scripts(false)[1..3] {
        if !go(w, s, &mut o) {
            return o;
        }
    }
    let found = found_classes(w, &c, "result.seq", c.t);
    if let Some(m) = want.iter().find(|x| !found.contains(*x)) {
        o.violate("class-missing", format!("{}, for the rowsums {some:?}: {} of {} classes are missing, such as that of {}", c.key(), want.iter().filter(|x| !found.contains(*x)).count(), want.len(), show(&representative(m, c.n), c.n)));
    }
    o.probe(if some.len() < all.len() { "part-of-the-rowsums" } else { "all-rowsums" });
    if want.is_empty() {
        o.probe("part-without-solutions");
    }
    o.note = format!("{} classes", want.len());
    o
}
/// A scenario over intermediate files of a length that whole searches do not reach.
fn beyond(cx: &Cx, prop: &str, types: &[Type], rng: &mut Rng) -> Scenario {
    let (t, n) = long::pick(rng, types, cx.thorough);
    let c = Cfg { t, n, pairing: rng.pick(&PAIRINGS).to_string(), corr: true, hm: false, flow: Flow::Scripts };
    let mut s = base(prop, &c, rng);
    long::put(&mut s, &c, rng);
    s
}
/// Canonical forms of the valid quadruples that result.seq lists.
fn found_classes(w: &World, c: &Cfg, f: &str, t: Type) -> BTreeSet<Canon> {
    decode_seq(&list(w, c, f), c.n).into_iter().filter_map(|q| q.ok()).filter(|q| valid(t, q, c.n)).map(|q| canonical(t, &q, c.n)).collect()
}
fn run_c01_long(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    // the row sums that the search starts from must cover every known class
    w.put(&format!("{}/.x", c.dir()), b"");
    let _ = std::fs::remove_file(w.path(&format!("{}/.x", c.dir())));
    w.chown_tree();
    let cmd = format!("rowsums {}", c.tn());
    let r = run_cmd(w, sc, 50, Actor::node(&cmd), &mut o);
    if !r.ok() {
        o.violate("fault-free-run-fails", format!("{}: without any fault, {}", c.key(), describe(&cmd, &r)));
        return o;
    }
    let listed: BTreeSet<Vec<i32>> = rowsums(w, &c).iter().map(|l| l.split_whitespace().filter_map(|x| x.parse().ok()).collect()).collect();
    for q in long::base(cx, c.t, c.n) {
        let mut r = Rng::new(7);
        if !(0..64).any(|_| listed.contains(&long::member(c.t, &q, c.n, &mut r).map(|s| rowsum(s, c.n)).to_vec())) {
            o.violate("rowsum-missing", format!("{}: no equivalent of the valid quadruple {} has row sums that the rowsums stage lists ({} lists)", c.key(), show(&q, c.n), listed.len()));
            return o;
        }
        o.probe("class-in-reach-of-rowsums");
    }
    if let Some(b) = long::go(cx, w, sc, &c, false, &mut o) {
        let found = found_classes(w, &c, "result.seq", c.t);
        if let Some(m) = b.expected.iter().find(|x| !found.contains(*x)) {
            o.violate("class-missing", format!("{}: {} of {} classes found in the intermediate files are missing, such as that of {}", c.key(), b.expected.iter().filter(|x| !found.contains(*x)).count(), b.expected.len(), show(&representative(m, c.n), c.n)));
        }
        o.note = format!("{} classes in {} directories", b.expected.len(), b.dirs);
    }
    o
}
fn run_c01(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    if long::is(sc) {
        return run_c01_long(cx, w, sc);
    }
    if sc.num("part") > 0 {
        return run_c01_part(cx, w, sc);
    }
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    if !plain_flow(w, sc, &c, &mut o) {
        return o;
    }
    let found = found_classes(w, &c, "result.seq", c.t);
    let want = cx.classes(c.t, c.n);
    if want.is_empty() {
        o.err = Some("no reference".into());
        return o;
    }
    if let Some(m) = want.iter().find(|x| !found.contains(*x)) {
        o.violate("class-missing", format!("{}: {} of {} classes are missing, such as that of {}", c.key(), want.iter().filter(|x| !found.contains(*x)).count(), want.len(), show(&representative(m, c.n), c.n)));
    }
    o.note = format!("{} classes", want.len());
    o
}

// ------------------------------------------------------------------ C02
/// Intermediate files after pairs and sorting, undisturbed, as a snapshot.
pub fn sorted_snap(cx: &Cx, w: &mut World, c: &Cfg) -> Arc<Result<Snap, String>> {
    let c = Cfg { hm: false, flow: Flow::Scripts, ..c.clone() };
    cx.cached(&format!("sorted {}", c.key()), || {
        w.reset();
        let mut o = Outcome::default();
        let mut r = Ok(Snap::new());
        for (k, s) in c.scripts(false)[..2].iter().enumerate() {
            let run = run_cmd(w, &quiet(), k, Actor::sh(s), &mut o);
            if !run.ok() {
                r = Err(describe(s, &run));
                break;
            }
        }
        if r.is_ok() {
            r = Ok(w.snapshot("results"));
        }
        w.reset();
        r
    })
}
const MUT: &[&str] = &["trunc", "tear", "flip", "swap", "dup", "del", "shuffle", "garbage", "index", "key", "merge", "stale", "othertype", "otherlen", "retag", "mix", "near", "near", "near", "near", "near"];
fn gen_c02(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = cfg(cx, i, rng, ALL, &[Flow::Scripts], Some(false), 400, 3000);
    let mut s = if i % 4 == 1 { beyond(cx, "C02", ALL, rng) } else { base("C02", &c, rng) };
    if i % 6 != 0 {
        for _ in 0..rng.range(1, 4) {
            s.atoms.push(Atom::Step(format!("mutate {} {}", rng.pick(MUT), rng.below(1 << 40))));
        }
    }
    if rng.chance(1, 3) {
        // the joining stage itself may be hit by a torn or failing read as well
        s.atoms.push(rule(1, "node join", None, false, format!("fault {} {} {}", rng.range(1, 60), rng.pick(&["short", "eintr", "err"]), if rng.chance(1, 2) { 5 } else { 1 })));
    }
    Some(s)
}
fn lines_of(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect()
}
fn unlines(v: &[String]) -> Vec<u8> {
    let mut s = v.join("\n");
    if !v.is_empty() {
        s.push('\n');
    }
    s.into_bytes()
}
/// Apply one mutation to the intermediate files.
fn mutate(cx: &Cx, w: &mut World, c: &Cfg, kind: &str, seed: u64, snaps: &[Arc<Result<Snap, String>>]) -> bool {
    let mut r = Rng::new(seed);
    let s = w.snapshot(&c.dir());
    let files: Vec<(String, Vec<u8>)> = s.iter().filter_map(|(p, e)| match e {
        Ent::File(b) if p.contains("/rowsum_") => Some((p.clone(), b.clone())),
        _ => None,
    }).collect();
    let sorted: Vec<&(String, Vec<u8>)> = files.iter().filter(|f| f.0.ends_with(".sorted")).collect();
    let seqs: Vec<&(String, Vec<u8>)> = files.iter().filter(|f| f.0.ends_with(".seq")).collect();
    if sorted.is_empty() || seqs.is_empty() {
        return false;
    }
    let pick = |r: &mut Rng| -> (String, Vec<u8>) {
        if r.chance(2, 5) {
            (*r.pick(&seqs)).clone()
        } else {
            (*r.pick(&sorted)).clone()
        }
    };
    let (p, mut b) = pick(&mut r);
    let mut l = lines_of(&b);
    let nl = l.len() as u64;
    match kind {
        "trunc" => b.truncate(r.below(b.len() as u64 + 1) as usize),
        "tear" => {
            let at = r.below(b.len() as u64 + 1) as usize;
            let to = (at + r.below(40) as usize).min(b.len());
            b.drain(at..to);
        }
        "flip" => {
            if b.is_empty() {
                return false;
            }
            let at = r.below(b.len() as u64) as usize;
            b[at] = match b[at] {
                b'+' => b'-',
                b'-' => b'+',
                b'0'..=b'9' => b'0' + r.below(10) as u8,
                x => x,
            };
        }
        "swap" | "dup" | "del" | "shuffle" | "garbage" | "mix" => {
            if nl == 0 {
                return false;
            }
            let (a, z) = (r.below(nl) as usize, r.below(nl) as usize);
            match kind {
                "swap" => l.swap(a, z),
                "dup" => {
                    let x = l[a].clone();
                    for _ in 0..r.range(1, 5) {
                        l.insert(a, x.clone());
                    }
                }
                "del" => {
                    let k = (r.range(1, 6) as usize).min(l.len() - a);
                    l.drain(a..a + k);
                }
                "shuffle" => {
                    for i in (1..l.len()).rev() {
                        l.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
                "garbage" => l.insert(a, r.pick(&["_:_0_0", ":_1_1", "", "x_:_0_0", "0_0_:_999999_0", "++", "-", "_:_"]).to_string()),
                _ => {
                    // a line of the neighbouring file of the same kind
                    let other = if p.ends_with(".seq") { *r.pick(&seqs) } else { *r.pick(&sorted) };
                    let ol = lines_of(&other.1);
                    if ol.is_empty() {
                        return false;
                    }
                    l[a] = ol[r.below(ol.len() as u64) as usize].clone();
                }
            }
            b = unlines(&l);
        }
        "index" | "key" => {
            let (p, b) = (*r.pick(&sorted)).clone();
            let mut l = lines_of(&b);
            if l.is_empty() {
                return false;
            }
            for _ in 0..r.range(1, 12) {
                let (a, z) = (r.below(l.len() as u64) as usize, r.below(l.len() as u64) as usize);
                let (ka, ia) = l[a].split_once("_:_").map(|(x, y)| (x.to_string(), y.to_string())).unwrap_or_default();
                let (kz, iz) = l[z].split_once("_:_").map(|(x, y)| (x.to_string(), y.to_string())).unwrap_or_default();
                if kind == "index" {
                    l[a] = format!("{ka}_:_{iz}");
                } else {
                    l[a] = format!("{kz}_:_{ia}");
                }
            }
            if kind == "key" {
                l.sort();
            }
            w.put(&p, &unlines(&l));
            return true;
        }
        "merge" => {
            // the same key on many lines of both files of a directory
            let d = p.rsplit_once('/').unwrap().0.to_string();
            let both: Vec<&(String, Vec<u8>)> = sorted.iter().copied().filter(|f| f.0.starts_with(&format!("{d}/"))).collect();
            let key = lines_of(&both[0].1).first().and_then(|x| x.split_once("_:_").map(|k| k.0.to_string())).unwrap_or("0".into());
            for f in both {
                let mut l: Vec<String> = lines_of(&f.1);
                let k = (r.range(20, 120) as usize).min(l.len());
                let from = r.below((l.len() - k) as u64 + 1) as usize;
                for x in l[from..from + k].iter_mut() {
                    let i = x.split_once("_:_").map(|y| y.1.to_string()).unwrap_or_default();
                    *x = format!("{key}_:_{i}");
                }
                l.sort();
                w.put(&f.0, &unlines(&l));
            }
            return true;
        }
        "near" => {
            // quadruples that violate the definition in as little as possible
            let known = long::base(cx, c.t, c.n);
            let dirs: BTreeSet<String> = files.iter().map(|f| f.0.rsplit_once('/').unwrap().0.to_string()).collect();
            let dirs: Vec<String> = dirs.into_iter().collect();
            let mut any = false;
            for _ in 0..r.range(2, 8) {
                if let Some(q) = long::near(c.t, c.n, &known, &mut r) {
                    let d = r.pick(&dirs).clone();
                    any |= long::hide(w, c, &d, &q, &mut r);
                }
            }
            return any;
        }
        "retag" => {
            let (p, b) = (*r.pick(&sorted)).clone();
            let d = p.rsplit_once('/').unwrap().0.to_string();
            let tag = *r.pick(&["WX", "XW", "WY", "WZ", "ZW", "XY", "YX", "YZ", "ZY", "XZ"]);
            let _ = std::fs::remove_file(w.path(&p));
            w.put(&format!("{d}/pair_{tag}.pair.sorted"), &b);
            return true;
        }
        "stale" => {
            // a file of another directory of the same run, under this name
            let kind = if p.ends_with(".seq") { &seqs } else { &sorted };
            b = r.pick(kind).1.clone();
        }
        "othertype" | "otherlen" => {
            let k = if kind == "othertype" { 0 } else { 1 };
            let snap = match snaps.get(k).map(|s| s.as_ref()) {
                Some(Ok(s)) => s,
                _ => return false,
            };
            let dirs: BTreeSet<String> = snap.keys().filter_map(|p| p.find("/rowsum_").map(|i| p[i + 1..].split('/').next().unwrap().to_string())).collect();
            let dirs: Vec<String> = dirs.into_iter().collect();
            if dirs.is_empty() {
                return false;
            }
            let from = r.pick(&dirs).clone();
            let mine: Vec<String> = files.iter().map(|f| f.0.rsplit_once('/').unwrap().0.to_string()).collect();
            let to = if r.chance(1, 2) { r.pick(&mine).clone() } else { format!("{}/{from}", c.dir()) };
            let whole = r.chance(2, 3);
            if whole {
                let _ = std::fs::remove_dir_all(w.path(&to));
            }
            for (p, e) in snap {
                if let (Some(i), Ent::File(b)) = (p.find(&format!("/{from}/")), e) {
                    if whole || r.chance(1, 2) {
                        w.put(&format!("{to}{}", &p[i + 1 + from.len()..]), b);
                    }
                }
            }
            return true;
        }
        _ => return false,
    }
    w.put(&p, &b);
    true
}
fn apply_mutations(cx: &Cx, w: &mut World, sc: &Scenario, c: &Cfg, o: &mut Outcome) -> Result<(), String> {
    let steps = sc.steps();
    let mut others = vec![];
    if steps.iter().any(|s| s.contains(" other")) {
        let t2 = match c.t {
            Type::Qts => Type::Wts,
            Type::Wts => Type::Qts,
            Type::Ws => Type::Qts,
        };
        others.push(sorted_snap(cx, w, &Cfg { t: t2, n: c.n.min(9), ..c.clone() }));
        let n2 = if c.n > 2 { c.n - 1 - c.n % 2 } else { c.n + 1 };
        others.push(sorted_snap(cx, w, &Cfg { n: n2.min(9), ..c.clone() }));
    }
    if long::is(sc) {
        w.reset();
        if long::build(cx, w, sc, c, true).is_none() {
            return Ok(());
        }
        o.probe("beyond-search-length");
    } else {
        let s = sorted_snap(cx, w, c);
        let snap = s.as_ref().as_ref().map_err(|e| e.clone())?;
        w.reset();
        w.restore(snap);
    }
    for st in steps {
        let x: Vec<&str> = st.split(' ').collect();
        if x[0] == "mutate" {
            if mutate(cx, w, c, x[1], x[2].parse().unwrap_or(0), &others) {
                *o.fired.entry(format!("mutation:{}", x[1])).or_default() += 1;
            }
        }
    }
    w.chown_tree();
    Ok(())
}
fn check_genuine(w: &World, c: &Cfg, complete: bool, o: &mut Outcome) {
    for (f, t) in [("result.seq", c.t), ("result-qts.seq", Type::Qts)] {
        let text = match w.text(&format!("{}/{f}", c.dir())) {
            Some(t) => t,
            None => continue,
        };
        // a stage that failed may leave a last line unfinished
        let text = if complete { &text[..] } else { &text[..text.rfind('\n').map_or(0, |i| i + 1)] };
        for (k, q) in decode_seq(text, c.n).into_iter().enumerate() {
            match q {
                Err(e) => return o.violate("not-a-sequence", format!("{}: line {} of {f}: {e}", c.key(), k + 1)),
                Ok(q) if !valid(t, &q, c.n) => return o.violate("false-result", format!("{}: line {} of {f}, {}, is not a valid {} of length {}", c.key(), k + 1, show(&q, c.n), t.name(), c.n)),
                Ok(_) => o.probe("line-verified"),
            }
        }
    }
}
fn run_c02(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: !sc.steps().is_empty(), ..Default::default() };
    if sc.steps().is_empty() {
        // nothing corrupted: the whole flow in this environment
        let mut calm = sc.clone();
        calm.atoms.retain(|a| !matches!(a, Atom::Rule(..)));
        let done = if long::is(sc) { long::go(cx, w, &calm, &c, false, &mut o).is_some() } else { plain_flow(w, &calm, &c, &mut o) };
        if done {
            check_genuine(w, &c, true, &mut o);
        }
        return o;
    }
    if let Err(e) = apply_mutations(cx, w, sc, &c, &mut o) {
        o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
        return o;
    }
    let r = run_cmd(w, sc, 1, Actor::node(&format!("join {}", c.tn())), &mut o);
    if r.hang {
        o.violate("join-hangs", format!("{}: join did not end", c.key()));
        return o;
    }
    o.probe(if r.ok() { "join-accepted-damaged-data" } else { "join-refused-damaged-data" });
    check_genuine(w, &c, r.ok(), &mut o);
    o
}

// ------------------------------------------------------------------ C03
fn gen_c03(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    let dup = i % 2 == 0;
    let c = if dup { cfg(cx, i, rng, ALL, &[Flow::Scripts], Some(false), 400, 3000) } else { cfg(cx, i, rng, ALL, FLOWS, Some(false), 3000, 12000) };
    let mut s = if i % 5 < 2 { beyond(cx, "C03", ALL, rng) } else { base("C03", &c, rng) };
    if dup {
        for _ in 0..rng.range(1, 3) {
            s.atoms.push(Atom::Step(format!("mutate {} {}", rng.pick(&["dup", "dupdir", "swap", "mix", "del", "dupdir", "permdir"]), rng.below(1 << 40))));
        }
    }
    Some(s)
}
fn check_irredundant(w: &World, c: &Cfg, f: &str, t: Type, o: &mut Outcome) {
    let text = list(w, c, f);
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut classes: HashMap<Canon, usize> = HashMap::new();
    for (k, l) in text.lines().enumerate() {
        if let Some(j) = seen.insert(l.to_string(), k) {
            return o.violate("line-twice", format!("{}: lines {} and {} of {f} are both {l}", c.key(), j + 1, k + 1));
        }
        if let Some((q, n)) = decode(l) {
            if n == c.n {
                if let Some(j) = classes.insert(canonical(t, &q, n), k) {
                    return o.violate("equivalent-lines", format!("{}: lines {} and {} of {f} are equivalent ({l})", c.key(), j + 1, k + 1));
                }
            }
        }
    }
    if classes.len() > 1 {
        o.probe("several-classes");
    }
}
fn run_c03(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    if sc.steps().is_empty() && long::is(sc) {
        let b = match long::go(cx, w, sc, &c, false, &mut o) {
            Some(b) => b,
            None => return o,
        };
        let lines = list(w, &c, "result.seq").lines().count();
        check_irredundant(w, &c, "result.seq", c.t, &mut o);
        if o.bad.is_none() && lines > b.expected.len() {
            o.violate("more-lines-than-classes", format!("{}: result.seq has {lines} lines, but the intermediate files hold only {} classes", c.key(), b.expected.len()));
        }
        return o;
    } else if sc.steps().is_empty() {
        if !plain_flow(w, sc, &c, &mut o) {
            return o;
        }
    } else {
        if let Err(e) = apply_mutations(cx, w, sc, &c, &mut o) {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            return o;
        }
        for st in sc.steps() {
            let x: Vec<&str> = st.split(' ').collect();
            if x[1] == "dupdir" || x[1] == "permdir" {
                let mut r = Rng::new(x[2].parse().unwrap_or(0));
                let s = w.snapshot(&c.dir());
                let dirs: Vec<String> = s.iter().filter(|(p, e)| **e == Ent::Dir && p.contains("/rowsum_")).map(|(p, _)| p.clone()).collect();
                if dirs.is_empty() {
                    continue;
                }
                let d = r.pick(&dirs).clone();
                let to = format!("{}/rowsum_9{}_0_0_0", c.dir(), r.below(90));
                for (p, e) in &s {
                    if let (true, Ent::File(b)) = (p.starts_with(&format!("{d}/")), e) {
                        let mut b = b.clone();
                        if x[1] == "permdir" && p.ends_with(".seq") && c.n > 1 {
                            // the same quadruples, all rotated by one place
                            let l: Vec<String> = lines_of(&b).into_iter().map(|s| if c.t == Type::Ws || s.is_empty() { s } else { format!("{}{}", &s[1..], &s[..1]) }).collect();
                            b = unlines(&l);
                        }
                        w.put(&format!("{to}{}", &p[d.len()..]), &b);
                    }
                }
                w.chown_tree();
                *o.fired.entry(format!("mutation:{}", x[1])).or_default() += 1;
            }
        }
        let r = run_cmd(w, sc, 1, Actor::node(&format!("join {}", c.tn())), &mut o);
        if !r.ok() {
            o.probe("join-refused");
            return o;
        }
    }
    check_irredundant(w, &c, "result.seq", c.t, &mut o);
    o
}

// ------------------------------------------------------------------ C04
fn gen_c04(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    if i % 4 == 3 {
        return Some(beyond(cx, "C04", ALL, rng));
    }
    let c = cfg(cx, i, rng, ALL, FLOWS, None, 3000, 20000);
    Some(base("C04", &c, rng))
}
/// The same intermediate data, paired in two ways and in two environments.
fn run_c04_long(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    if long::go(cx, w, sc, &c, false, &mut o).is_none() {
        return o;
    }
    let lines = |w: &World| -> BTreeSet<String> { list(w, &c, "result.seq").lines().map(|l| l.to_string()).collect() };
    let got = lines(w);
    w.reset();
    let other = PAIRINGS[(PAIRINGS.iter().position(|p| *p == c.pairing).unwrap_or(0) + 1 + (sc.num("long") % 2) as usize) % 3];
    let mut calm = sc.clone();
    calm.atoms.clear();
    let c2 = Cfg { pairing: other.into(), ..c.clone() };
    if long::go(cx, w, &calm, &c2, false, &mut o).is_none() {
        return o;
    }
    let want = lines(w);
    if got != want {
        o.violate("answer-differs", format!("{} and {} over the same sequences give {} and {} sequences, {} in common", c.key(), c2.key(), got.len(), want.len(), got.intersection(&want).count()));
    }
    o
}
fn mat_classes(text: &str) -> Result<Vec<String>, String> {
    // a class is named by the hash of its canonical labelling
    use std::hash::{Hash, Hasher};
    let mut v = vec![];
    for l in text.lines() {
        let m = parse_mat(l)?;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        hadamard_class(&m).hash(&mut h);
        v.push(format!("{:016x}", h.finish()));
    }
    v.sort();
    Ok(v)
}
fn with_classes(mut r: Results) -> Result<Results, String> {
    if let Some(Some(m)) = r.files.get_mut("result.mat") {
        *m = mat_classes(&m.join("\n"))?;
    }
    Ok(r)
}
fn run_c04(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    if long::is(sc) {
        return run_c04_long(cx, w, sc);
    }
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let plain = Cfg { pairing: "WZ".into(), corr: false, flow: Flow::Driver, ..c.clone() };
    let want = undisturbed(cx, w, &plain);
    w.reset();
    let mut want = match want.as_ref() {
        Ok(r) => r.clone(),
        Err(e) => {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", plain.key()));
            return o;
        }
    };
    if !plain_flow(w, sc, &c, &mut o) {
        return o;
    }
    let mut got = Results::read(w, &c);
    want.files.remove("result.qhm");
    got.files.remove("result.qhm");
    match (with_classes(got), with_classes(want)) {
        (Ok(g), Ok(x)) => {
            if let Some(d) = g.differs(&x) {
                o.violate("answer-differs", format!("{} gives another answer than {}: {d}", c.key(), plain.key()));
            }
        }
        (Err(e), _) | (_, Err(e)) => o.violate("matrix-unreadable", format!("{}: {e}", c.key())),
    }
    o
}

// ------------------------------------------------------------------ C05
fn gen_c05(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    if i % 3 == 2 {
        return Some(beyond(cx, "C05", &[Type::Wts], rng));
    }
    let c = cfg(cx, i, rng, &[Type::Wts], FLOWS, Some(false), 3000, 20000);
    Some(base("C05", &c, rng))
}
/// Over part of the data, the QT list must cover exactly the QT classes that
/// the Williamson-type classes of the data consist of.
fn run_c05_long(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let n = c.n;
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let b = match long::go(cx, w, sc, &c, false, &mut o) {
        Some(b) => b,
        None => return o,
    };
    let mut want = BTreeSet::new();
    for x in &b.expected {
        let q = representative(x, n);
        for neg in 0..2 {
            for half in 0..if n % 2 == 0 { 2 } else { 1 } {
                let mut y = q;
                if neg == 1 {
                    y[0] = !y[0] & mask(n);
                }
                if half == 1 {
                    y[1] = rot(y[1], n / 2, n);
                }
                want.insert(canonical(Type::Qts, &y, n));
            }
        }
    }
    check_irredundant(w, &c, "result-qts.seq", Type::Qts, &mut o);
    let mut got = BTreeSet::new();
    for (k, x) in decode_seq(&list(w, &c, "result-qts.seq"), n).into_iter().enumerate() {
        match x {
            Err(e) => o.violate("not-a-sequence", format!("{}: line {} of result-qts.seq: {e}", c.key(), k + 1)),
            Ok(x) if !perfect(&x, n) => o.violate("not-perfect", format!("{}: line {} of result-qts.seq, {}, is not perfect", c.key(), k + 1, show(&x, n))),
            Ok(x) => {
                got.insert(canonical(Type::Qts, &x, n));
            }
        }
    }
    if let Some(m) = want.iter().find(|x| !got.contains(*x)) {
        o.violate("class-missing", format!("{}: result-qts.seq lacks {} of {} classes, such as that of {}", c.key(), want.iter().filter(|x| !got.contains(*x)).count(), want.len(), show(&representative(m, n), n)));
    }
    if let Some(m) = got.iter().find(|x| !want.contains(*x)) {
        o.violate("class-invented", format!("{}: result-qts.seq lists {}, which no Williamson-type sequence of the data is", c.key(), show(&representative(m, n), n)));
    }
    o
}
fn run_c05(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    if long::is(sc) {
        return run_c05_long(cx, w, sc);
    }
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let q = Cfg { t: Type::Qts, pairing: "WZ".into(), corr: false, flow: Flow::Driver, hm: false, ..c.clone() };
    let twin = if cost(Type::Qts, c.n, false) < 3000 { Some(undisturbed(cx, w, &q)) } else { None };
    w.reset();
    if !plain_flow(w, sc, &c, &mut o) {
        return o;
    }
    let mut got: BTreeMap<Canon, usize> = BTreeMap::new();
    for (k, x) in decode_seq(&list(w, &c, "result-qts.seq"), c.n).into_iter().enumerate() {
        match x {
            Err(e) => o.violate("not-a-sequence", format!("{}: line {} of result-qts.seq: {e}", c.key(), k + 1)),
            Ok(x) if !perfect(&x, c.n) => o.violate("not-perfect", format!("{}: line {} of result-qts.seq, {}, is not perfect", c.key(), k + 1, show(&x, c.n))),
            Ok(x) => {
                if let Some(j) = got.insert(canonical(Type::Qts, &x, c.n), k) {
                    o.violate("equivalent-lines", format!("{}: lines {} and {} of result-qts.seq are equivalent", c.key(), j + 1, k + 1));
                }
            }
        }
    }
    let got: BTreeSet<Canon> = got.into_keys().collect();
    let want = cx.classes(Type::Qts, c.n);
    if let Some(m) = want.iter().find(|x| !got.contains(*x)) {
        o.violate("class-missing", format!("{}: result-qts.seq lacks {} of {} classes, such as that of {}", c.key(), want.iter().filter(|x| !got.contains(*x)).count(), want.len(), show(&representative(m, c.n), c.n)));
    }
    if let Some(t) = twin {
        match t.as_ref() {
            Err(e) => o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", q.key())),
            Ok(r) => {
                let other: BTreeSet<Canon> = r.files["result.seq"].clone().unwrap_or_default().iter().filter_map(|l| decode(l)).filter(|x| x.1 == c.n).map(|x| canonical(Type::Qts, &x.0, c.n)).collect();
                o.probe("compared-with-qts-run");
                if other != got {
                    o.violate("differs-from-qts-run", format!("{}: result-qts.seq has {} classes, a qts run of this length reports {}", c.key(), got.len(), other.len()));
                }
            }
        }
    }
    o
}

// ------------------------------------------------------------------ C06
fn gen_c06(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = cfg(cx, i, rng, ALL, &[Flow::Driver, Flow::Driver, Flow::Scripts], None, 1200, 9000);
    if i % 4 == 3 {
        return Some(beyond(cx, "C06", ALL, rng));
    }
    let mut s = base("C06", &c, rng);
    // earlier history: old files, then attempts that fail or are interrupted
    for f in RESULT_FILES {
        if rng.chance(1, 3) {
            s.atoms.push(Atom::Step(format!("old {f} {} {}", rng.range(1, 40), rng.below(1 << 30))));
        }
    }
    let attempts = rng.below(3);
    for a in 0..attempts {
        s.atoms.push(Atom::Step(format!("attempt {} {}", rng.pick(&PAIRINGS), rng.pick(&["psd", "correlation"]))));
        if rng.chance(4, 5) {
            let sel = *rng.pick(&["node pairs", "node join", "node join", "node convert qhm", "node convert", "sort", "tee", "rm"]);
            let (k, arg) = match rng.below(4) {
                0 => ("killb", 0),
                1 => ("killa", 0),
                2 => ("torn", rng.below(200) as i64),
                _ => ("err", *rng.pick(&[5i64, 28, 12])),
            };
            s.atoms.push(rule(a as usize * 10, sel, Some(rng.below(3)), rng.chance(1, 2), format!("fault {} {k} {arg}", rng.range(1, 40))));
        }
    }
    s.put("attempts", attempts);
    Some(s)
}
fn run_c06(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    if long::is(sc) {
        if long::go(cx, w, sc, &c, true, &mut o).is_some() {
            check_agree(w, &c, &mut o);
        }
        return o;
    }
    let mut ph = 0;
    let mut attempts = 0;
    for st in sc.steps() {
        let x: Vec<&str> = st.split(' ').collect();
        match x[0] {
            "old" => {
                let mut r = Rng::new(x[3].parse().unwrap_or(0));
                let k = x[2].parse::<u64>().unwrap_or(1);
                let mut b = String::new();
                for _ in 0..k {
                    for _ in 0..r.range(1, 30) {
                        b.push(*r.pick(&['+', '-', 'i', 'J', 'q', 'Z', 'x', '[', ']']));
                    }
                    b.push('\n');
                }
                w.put(&format!("{}/{}", c.dir(), x[1]), b.as_bytes());
                w.chown_tree();
                o.probe("old-file");
            }
            "attempt" => {
                let a = Cfg { pairing: x[1].into(), corr: x[2] == "correlation", flow: Flow::Driver, ..c.clone() };
                let r = run_cmd(w, sc, attempts * 10, Actor::sh(&a.driver(true)), &mut o);
                o.probe(if r.ok() { "attempt-succeeded" } else { "attempt-failed" });
                attempts += 1;
                ph = attempts * 10;
            }
            _ => {}
        }
    }
    ph += 100;
    let calm = {
        let mut s = sc.clone();
        s.atoms.retain(|a| !matches!(a, Atom::Rule(..)));
        s
    };
    if let Err(e) = run_flow(w, &calm, &c, true, ph, &mut o) {
        // whether recovery succeeds is another property; here nothing is claimed
        if attempts == 0 {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
        }
        o.probe("final-run-failed");
        return o;
    }
    check_agree(w, &c, &mut o);
    o
}
fn check_agree(w: &World, c: &Cfg, o: &mut Outcome) {
    let mut sets = vec![("result.seq", "result.qseq")];
    if c.t == Type::Wts {
        sets.push(("result-qts.seq", "result-qts.qseq"));
    }
    let mut main: Vec<String> = vec![];
    for (a, b) in sets {
        let (ta, tb) = match (w.text(&format!("{}/{a}", c.dir())), w.text(&format!("{}/{b}", c.dir()))) {
            (Some(x), Some(y)) => (x, y),
            _ => return o.violate("file-missing", format!("{}: {a} or {b} is missing after a successful run", c.key())),
        };
        if !ta.is_empty() && !ta.ends_with('\n') {
            return o.violate("files-disagree", format!("{}: {a} does not end with a complete line", c.key()));
        }
        let la: Vec<&str> = ta.lines().collect();
        let lb = qseq_blocks(&tb);
        if la.len() != lb.len() {
            return o.violate("counts-differ", format!("{}: {a} has {} entries, {b} has {}", c.key(), la.len(), lb.len()));
        }
        for (k, (x, y)) in la.iter().zip(&lb).enumerate() {
            let qa = decode(x);
            let qb = decode_qseq(y);
            if qa.is_none() || qa != qb {
                return o.violate("files-disagree", format!("{}: entry {} of {b} ({y}) is not line {} of {a} ({x})", c.key(), k + 1, k + 1));
            }
        }
        if a == "result.seq" {
            main = la.iter().map(|s| s.to_string()).collect();
        }
    }
    let t = match w.text(&format!("{}/result.qhm", c.dir())) {
        Some(t) => t,
        None => return o.violate("file-missing", format!("{}: result.qhm is missing after a successful run", c.key())),
    };
    let blocks = parse_qhm(&t);
    if blocks.len() != main.len() {
        return o.violate("counts-differ", format!("{}: result.seq has {} entries, result.qhm has {}", c.key(), main.len(), blocks.len()));
    }
    for (k, (b, l)) in blocks.iter().zip(&main).enumerate() {
        if let Err(e) = check_qhm(b, l) {
            return o.violate("qhm-wrong", format!("{}: block {} of result.qhm is not made from line {} of result.seq ({l}): {e}", c.key(), k + 1, k + 1));
        }
        o.probe("block-verified");
    }
}

// ------------------------------------------------------------------ C17
fn gen_c17(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    // the pairs stage alone; Williamson sequences reach larger lengths
    let mut c = cfg(cx, i, rng, &[Type::Qts, Type::Wts], &[Flow::Jobs], Some(false), 2700, 9000);
    if rng.chance(1, 2) {
        c.t = Type::Ws;
        c.n = rng.range(2, if cx.thorough { 22 } else { 20 }) as usize;
    }
    let mut s = Scenario::new("C17");
    c.put(&mut s);
    s.put("rs", rng.below(1000));
    s.put("a", rng.below(8));
    s.put("b", rng.below(8));
    s.put("whole", (rng.chance(1, 4)) as u8);
    if rng.chance(1, 2) {
        s.atoms.push(Atom::Env(None, format!("hash {}", rng.range(1, 1 << 30))));
    }
    Some(s)
}
fn pair_map(text: &str) -> Option<HashMap<(usize, usize), String>> {
    let mut m = HashMap::new();
    for l in text.lines() {
        let (k, i) = l.split_once(":_")?;
        let (a, b) = i.split_once('_')?;
        m.insert((a.parse().ok()?, b.parse().ok()?), k.to_string());
    }
    Some(m)
}
/// Valid quadruples of the reference classes with the given row sums, as many
/// as there are.
fn quads_with(cx: &Cx, t: Type, n: usize, rs: [i32; 4]) -> Arc<Vec<Quad>> {
    cx.cached(&format!("quads {} {n} {rs:?}", t.name()), || {
        let mut out = vec![];
        for q in cx.refs.get(&(t, n)).cloned().unwrap_or_default() {
            for x in orbit(t, &q, n) {
                if (0..4).all(|i| rowsum(x[i], n) == rs[i]) {
                    out.push(x);
                }
            }
        }
        out
    })
}
fn seq_index(text: &str) -> HashMap<Seq, usize> {
    text.lines().enumerate().map(|(i, l)| (l.chars().enumerate().fold(0, |a, (k, c)| a | ((c == '+') as Seq) << k), i)).collect()
}
fn run_c17(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    w.put(&format!("{}/.x", c.dir()), b"");
    let _ = std::fs::remove_file(w.path(&format!("{}/.x", c.dir())));
    w.chown_tree();
    let go = |w: &mut World, line: String, fft: u64, o: &mut Outcome| -> Result<(), String> {
        let mut s = sc.clone();
        s.atoms.push(Atom::Env(None, format!("fft {fft}")));
        let r = run_cmd(w, &s, 0, Actor::node(&line), o);
        if r.ok() {
            Ok(())
        } else {
            Err(describe(&line, &r))
        }
    };
    macro_rules! tryv {
        ($e:expr) => {
            if let Err(e) = $e {
                o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
                return o;
            }
        };
    }
    tryv!(go(w, format!("rowsums {}", c.tn()), 0, &mut o));
    let all = rowsums(w, &c);
    if all.is_empty() {
        o.violate("fault-free-run-fails", format!("{}: no rowsums were written", c.key()));
        return o;
    }
    let r = all[sc.num("rs") as usize % all.len()].clone();
    let rs: Vec<i32> = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if rs.len() != 4 {
        o.violate("fault-free-run-fails", format!("{}: rowsums.quad has the line `{r}`", c.key()));
        return o;
    }
    let d = format!("{}/rowsum_{}", c.dir(), rs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"));
    let files = match c.pairing.as_str() {
        "WX" => [("WX", 0, 1), ("YZ", 2, 3)],
        "WY" => [("WY", 0, 2), ("XZ", 1, 3)],
        _ => [("WZ", 0, 3), ("XY", 1, 2)],
    };
    let (a, b) = (sc.num("a"), sc.num("b"));
    for k in [a, b] {
        *o.fired.entry(format!("fft-plan:{k}")).or_default() += 1;
    }
    o.digest = crate::rng::mix(&[o.digest, a, b]);
    // reference: both sides with plan 0
    let mut refs = vec![];
    for p in 1..=2 {
        tryv!(go(w, format!("pair_single {} {r} {} {} {p}", c.tn(), c.opt(), c.pairing), 0, &mut o));
        refs.push(w.text(&format!("{d}/pair_{}.pair", files[p - 1].0)).unwrap_or_default());
    }
    // the two sides with their own plans (or both in one process)
    let mut got = vec![];
    if sc.flag("whole") {
        tryv!(go(w, format!("pairs_rowsum {} {r} {} {}", c.tn(), c.opt(), c.pairing), a, &mut o));
    } else {
        for p in 1..=2 {
            tryv!(go(w, format!("pair_single {} {r} {} {} {p}", c.tn(), c.opt(), c.pairing), if p == 1 { a } else { b }, &mut o));
        }
    }
    for f in &files {
        got.push(w.text(&format!("{d}/pair_{}.pair", f.0)).unwrap_or_default());
    }
    for k in 0..2 {
        if refs[k] != got[k] {
            let i = refs[k].lines().zip(got[k].lines()).position(|(x, y)| x != y);
            let (x, y) = i.map_or((refs[k].lines().count().to_string(), got[k].lines().count().to_string()), |i| (refs[k].lines().nth(i).unwrap().into(), got[k].lines().nth(i).unwrap().into()));
            o.violate("plan-dependent", format!("{} rowsums {r}: pair_{}.pair depends on the FFT plan ({x} and {y})", c.key(), files[k].0));
            return o;
        }
    }
    let quads = quads_with(cx, c.t, c.n, [rs[0], rs[1], rs[2], rs[3]]);
    if quads.is_empty() {
        return o;
    }
    o.probe("directory-with-solutions");
    let (l, rr) = match (pair_map(&got[0]), pair_map(&got[1])) {
        (Some(l), Some(r)) => (l, r),
        _ => {
            o.violate("pair-file-unreadable", format!("{} rowsums {r}: unexpected line in a .pair file", c.key()));
            return o;
        }
    };
    let idx: Vec<HashMap<Seq, usize>> = ["W", "X", "Y", "Z"].iter().map(|t| seq_index(&w.text(&format!("{d}/seq_{t}.seq")).unwrap_or_default())).collect();
    for q in quads.iter() {
        let ix: Vec<Option<&usize>> = (0..4).map(|i| idx[i].get(&q[i])).collect();
        if ix.iter().any(|x| x.is_none()) {
            o.violate("sequence-missing", format!("{} rowsums {r}: a sequence of the valid quadruple {} is not listed", c.key(), show(q, c.n)));
            return o;
        }
        let key = |m: &HashMap<(usize, usize), String>, f: (&str, usize, usize)| m.get(&(*ix[f.1].unwrap(), *ix[f.2].unwrap())).cloned();
        match (key(&l, files[0]), key(&rr, files[1])) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                o.violate("keys-differ", format!("{} rowsums {r}: the halves of the valid quadruple {} have the keys {x} and {y}", c.key(), show(q, c.n)));
                return o;
            }
            _ => {
                o.violate("half-discarded", format!("{} rowsums {r}: a half of the valid quadruple {} was not written", c.key(), show(q, c.n)));
                return o;
            }
        }
    }
    *o.probes.entry("quadruples-matched".into()).or_default() += quads.len() as u64;
    o
}

// ------------------------------------------------------------------ C18
fn gen_c18(cx: &Cx, _w: &mut World, i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = cfg(cx, i, rng, ALL, &[Flow::Driver, Flow::Scripts], None, 700, 5000);
    let mut s = base("C18", &c, rng);
    if rng.chance(1, 2) {
        s.atoms.push(Atom::Env(None, format!("jump {} {}", rng.below(40), *rng.pick(&[-3_600_000_000_000i64, 7_200_000_000_000, -5_000_000_000]))));
    }
    // an earlier run (other options), interrupted or not
    if rng.chance(1, 2) {
        s.atoms.push(Atom::Step(format!("earlier {} {}", rng.pick(&PAIRINGS), rng.pick(&["psd", "correlation"]))));
        if rng.chance(2, 3) {
            s.atoms.push(rule(50, *rng.pick(&["node pairs", "node join", "sort", "node convert"]), Some(rng.below(2)), true, format!("fault {} killb 0", rng.range(1, 40))));
        }
    }
    if c.flow == Flow::Scripts {
        // how far the flow gets, and a stage that is interrupted and repeated
        s.put("upto", rng.range(1, 5));
        if rng.chance(1, 2) {
            let k = rng.below(5);
            s.atoms.push(Atom::Step(format!("interrupt {k}")));
            s.atoms.push(rule(60 + k as usize, ["node pairs", "sort", "node join", "node convert", "node convert"][k as usize], Some(0), true, format!("fault {} killb 0", rng.range(1, 30))));
        }
        if rng.chance(1, 3) {
            s.atoms.push(Atom::Step(format!("repeat {}", rng.range(1, 4))));
        }
    } else {
        s.put("upto", 9);
    }
    Some(s)
}
fn num_after(text: &str, before: &str, after: &str) -> Vec<u64> {
    let mut v = vec![];
    for l in text.lines() {
        if let Some(i) = l.find(before) {
            let r = &l[i + before.len()..];
            let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
            if !d.is_empty() && r[d.len()..].starts_with(after) {
                v.push(d.parse().unwrap());
            }
        }
    }
    v
}
fn run_c18(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let _ = cx;
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let mut earlier = false;
    for st in sc.steps() {
        let x: Vec<&str> = st.split(' ').collect();
        if x[0] == "earlier" {
            let a = Cfg { pairing: x[1].into(), corr: x[2] == "correlation", hm: false, flow: Flow::Driver, ..c.clone() };
            run_cmd(w, sc, 50, Actor::sh(&a.driver(true)), &mut o);
            earlier = true;
        }
    }
    // the run itself
    let mut out = String::new();
    let (mut joined, mut mats, mut qhm) = (false, false, false);
    let cmds = if c.flow == Flow::Driver { vec![c.driver(true)] } else { c.scripts(true) };
    let upto = sc.num("upto") as usize;
    if earlier && upto < 3 {
        // files of the earlier run would remain: start from a clean directory
        let _ = std::fs::remove_dir_all(w.path("results"));
    }
    for (k, cmd) in cmds.iter().enumerate() {
        if k >= upto {
            break;
        }
        if sc.steps().iter().any(|s| *s == format!("interrupt {k}")) {
            let r = run_cmd(w, sc, 60 + k, Actor::sh(cmd), &mut o);
            o.probe(if r.ok() { "interruption-missed" } else { "stage-interrupted" });
        }
        let r = run_cmd(w, sc, 100 + k, Actor::sh(cmd), &mut o);
        if !r.ok() {
            if o.fired.is_empty() && !earlier {
                o.violate("fault-free-run-fails", format!("{}: without any fault, {}", c.key(), describe(cmd, &r)));
            }
            o.probe("final-run-failed");
            return o;
        }
        out += &r.ends[0].out;
        joined |= cmd.contains("join") || cmd.contains("driver");
        mats |= cmd.contains("convert_hm") || (cmd.contains("driver") && c.hm);
        qhm |= cmd.contains("convert_qhm") || cmd.contains("driver");
        if k > 0 && sc.steps().iter().any(|s| *s == format!("repeat {k}")) {
            let r = run_cmd(w, sc, 200 + k, Actor::sh(cmd), &mut o);
            if !r.ok() {
                o.probe("repetition-failed");
                return o;
            }
            o.probe("stage-repeated");
        }
    }
    // what is really there
    let there: BTreeMap<&str, u64> = RESULT_FILES.iter().filter_map(|f| w.text(&format!("{}/{f}", c.dir())).map(|t| (*f, entries(f, &t).len() as u64))).collect();
    let count = |f: &str| there.get(f).copied();
    let snap = w.snapshot(&c.dir());
    let lines = |ext: &str| -> u64 {
        snap.iter().map(|(p, e)| match e {
            Ent::File(b) if p.ends_with(ext) => b.iter().filter(|c| **c == b'\n').count() as u64,
            _ => 0,
        }).sum()
    };
    let (sorted, unsorted) = (lines(".pair.sorted"), lines(".pair"));
    let log = list(w, &c, "result.log");
    let claim = |what: &str, said: Option<u64>, real: Option<u64>, o: &mut Outcome| {
        if said != real {
            o.violate("count-untrue", format!("{}: {what}: reported {said:?}, actual {real:?}", c.key()));
        }
    };
    for (name, text) in [("result.log", &log), ("standard output", &out)] {
        if c.flow == Flow::Scripts && name == "standard output" && joined {
            // join_pairs.sh sends its output to the log only
        } else if joined {
            for v in num_after(text, "Found ", &format!(" {} after reducing to equivalence", c.t.name())) {
                claim(&format!("sequences in {name}"), Some(v), count("result.seq"), &mut o);
            }
        }
        if joined && c.t == Type::Wts {
            for v in num_after(text, "Found ", " qts after reducing to equivalence") {
                claim(&format!("qts in {name}"), Some(v), count("result-qts.seq"), &mut o);
            }
        }
        for v in num_after(text, "Generated ", " total pairs") {
            claim(&format!("pairs in {name}"), Some(v), Some(sorted + unsorted), &mut o);
        }
        if mats {
            for v in num_after(text, "Number of matrices up to equivalence : ", "") {
                claim(&format!("matrices in {name}"), Some(v), count("result.mat"), &mut o);
            }
            for l in text.lines().filter(|l| l.contains(" matrices were found after converting")) {
                claim(&format!("matrices in {name}"), l.split_whitespace().next().and_then(|x| x.parse().ok()), count("result.mat"), &mut o);
            }
        }
        if qhm {
            for v in num_after(text, "converted ", " sequences of size") {
                claim(&format!("converted sequences in {name}"), Some(v), count("result.qhm"), &mut o);
                claim(&format!("converted sequences in {name}"), Some(v), count("result.seq"), &mut o);
            }
        }
    }
    // per-pairing counts must add up to the total
    let parts: Vec<u64> = log.lines().filter_map(|l| l.strip_prefix("Generated ").and_then(|r| r.split_once(" pairs for pairing ")).and_then(|x| x.0.parse().ok())).collect();
    if !parts.is_empty() {
        claim("sum of the pairs per pairing in result.log", Some(parts.iter().sum()), Some(sorted + unsorted), &mut o);
    }
    // the summary tools
    let r = run_cmd(w, sc, 300, Actor::sh(&format!("./countpairs.sh {}", c.tn())), &mut o);
    claim("countpairs.sh", r.ends[0].out.trim().parse().ok(), Some(sorted), &mut o);
    let fmt = if sc.num("n") % 2 == 0 { "t" } else { "l" };
    let r = run_cmd(w, sc, 301, Actor::sh(&format!("./collect_results.py {} {} {} {fmt}", c.n, c.n + 1, c.t.name())), &mut o);
    if !r.ok() {
        o.violate("summary-fails", format!("{}: {}", c.key(), describe("collect_results.py", &r)));
        return o;
    }
    let rows: Vec<Vec<String>> = r.ends[0].out.lines().map(|l| l.replace('&', " ").replace("\\\\", " ").split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>()).filter(|v: &Vec<String>| v.first().map_or(false, |x| x.parse::<u64>().is_ok())).collect();
    let find = |n: usize| rows.iter().find(|r| r[0] == n.to_string());
    let wts = (c.t == Type::Wts) as usize;
    let row = match (find(c.n), find(c.n + 1)) {
        (Some(a), Some(b)) => {
            // the next length was never computed
            let vals: Vec<f64> = b[1..].iter().filter_map(|x| x.parse().ok()).collect();
            if vals.iter().any(|v| *v != -1.0) || vals.len() < 5 {
                o.violate("invented-number", format!("{}: collect_results.py reports {b:?} for a length that was not computed", c.key()));
            }
            a.clone()
        }
        _ => {
            o.violate("summary-fails", format!("{}: collect_results.py printed {:?}", c.key(), r.ends[0].out));
            return o;
        }
    };
    let cell = |i: usize| row.get(i).and_then(|x| x.parse::<i64>().ok());
    let expect = |has: bool, f: &str| if has { count(f).map(|x| x as i64) } else { Some(-1) };
    let claim = |what: &str, said: Option<i64>, real: Option<i64>, o: &mut Outcome| {
        if said != real {
            o.violate("count-untrue", format!("{}: collect_results.py, {what}: reported {said:?}, actual {real:?} (row {row:?})", c.key()));
        }
    };
    if wts == 1 {
        claim("Williamson-type sequences", cell(1), expect(joined, "result.seq"), &mut o);
        claim("QT sequences", cell(2), expect(joined, "result-qts.seq"), &mut o);
    } else if c.t == Type::Qts {
        claim("QT sequences", cell(1), expect(joined, "result.seq"), &mut o);
    }
    claim("matrices", cell(2 + wts), expect(mats, "result.mat"), &mut o);
    let pairs_col = if fmt == "t" { 6 + wts } else { 4 + wts };
    claim("pairs", cell(pairs_col), Some((sorted + unsorted) as i64), &mut o);
    o.probe(if joined { "summary-after-join" } else { "summary-of-partial-run" });
    o
}

fn shrink_any(s: &Scenario) -> Vec<Scenario> {
    if long::is(s) {
        long::shrink(s)
    } else {
        shrink_cfg(s)
    }
}
pub const CHECKS: &[Check] = &[
    Check { id: "C01", gen: gen_c01, run: run_c01, shrink: Some(shrink_any), quick: 500, thorough: 12000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one complete run of a flow (driver, scripts or jobs) in a drawn environment; distinct by the digest of its execution", assumptions: &["reference lists up to length 18 (qts, wts) and 22 (ws) come from an independent enumeration in sim/src/refgen.rs whose counts equal the published ones"] },
    Check { id: "C02", gen: gen_c02, run: run_c02, shrink: Some(shrink_any), quick: 4000, thorough: 60000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one joining stage over damaged intermediate files (or one undamaged flow); non-trivial when files were damaged", assumptions: &[] },
    Check { id: "C03", gen: gen_c03, run: run_c03, shrink: Some(shrink_any), quick: 700, thorough: 15000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one complete flow, or one joining stage over duplicated data", assumptions: &[] },
    Check { id: "C04", gen: gen_c04, run: run_c04, shrink: Some(shrink_any), quick: 450, thorough: 8000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one complete flow in a drawn configuration and environment, compared with the default run", assumptions: &["Hadamard classes are compared with an independent graph and the same canonical labelling library (nauty)"] },
    Check { id: "C05", gen: gen_c05, run: run_c05, shrink: Some(shrink_any), quick: 600, thorough: 8000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is one complete wts flow in a drawn environment", assumptions: &["reference lists from the independent enumeration in sim/src/refgen.rs"] },
    Check { id: "C06", gen: gen_c06, run: run_c06, shrink: Some(shrink_any), quick: 320, thorough: 8000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is a history of old files and failed attempts followed by a successful run", assumptions: &[] },
    Check { id: "C17", gen: gen_c17, run: run_c17, shrink: Some(shrink_cfg), quick: 2500, thorough: 60000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation generates both sides of one rowsum directory under two FFT plans and compares them with plan 0 and with the reference quadruples", assumptions: &["the FFT plans are eight algebraically different evaluation orders of the real DFT, all with errors of the order of FFTW's; FFTW itself is replaced"] },
    Check { id: "C18", gen: gen_c18, run: run_c18, shrink: Some(shrink_cfg), quick: 400, thorough: 6000, cap_quick: 150, cap_thorough: 3000,
        rule: "one evaluation is a run, possibly with an earlier run, interrupted and repeated stages and clock jumps, whose reported counts are compared with its files", assumptions: &[] },
];
