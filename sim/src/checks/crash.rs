//! C10 repeat with -d after crashes, C11 repeated stages, C12 no overwriting
//! without -d, C14 what cleanup removes.
use super::faults::*;
use super::flow::*;
use super::Check;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, Ent, Plan, Proc, Snap, World};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Without rules and steps, only the environment.
fn calm(sc: &Scenario) -> Scenario {
    let mut s = sc.clone();
    s.atoms.retain(|a| matches!(a, Atom::Env(..)));
    s
}
/// Work tree after an undisturbed run of this configuration.
pub fn finished(cx: &Cx, w: &mut World, c: &Cfg) -> Arc<Result<Snap, String>> {
    cx.cached(&format!("finished {}", c.key()), || {
        w.reset();
        let mut o = Outcome::default();
        let r = run_flow(w, &quiet(), c, false, 0, &mut o).map(|_| {
            let mut s = w.snapshot("results");
            s.extend(w.snapshot("tmp"));
            s
        });
        w.reset();
        r
    })
}
/// A kill somewhere in the given processes: at a process start or at an
/// operation, sometimes with a torn write.
pub fn pick_kill(rng: &mut Rng, procs: &[Proc], phase: usize, group: bool) -> Option<Atom> {
    if procs.is_empty() {
        return None;
    }
    // the kinds of processes alike, so that short ones are met too
    let mut kinds: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (k, p) in procs.iter().enumerate() {
        let words: Vec<&str> = p.name.split(' ').collect();
        let kind = if words[0] == "node" { words[..2.min(words.len())].join(" ") } else { words[0].to_string() };
        kinds.entry(kind).or_default().push(k);
    }
    let keys: Vec<&String> = kinds.keys().collect();
    let kind = *rng.pick(&keys);
    let mut which = *rng.pick(&kinds[kind]);
    if rng.chance(1, 3) {
        which = rng.below(procs.len() as u64) as usize;
    }
    let p = &procs[which];
    let occ = procs[..which].iter().filter(|q| q.name.starts_with(&p.name)).count() as u64;
    let line = if p.trace.is_empty() || rng.chance(1, 10) {
        "fault 0 killb".to_string()
    } else {
        let (op, cls, _) = pick_op(rng, &p.trace)?;
        match rng.below(4) {
            0 if cls == 'w' || cls == 'W' => format!("fault {op} torn {}", if rng.chance(1, 2) { -1 } else { rng.below(30) as i64 }),
            0 | 1 => format!("fault {op} killa 0"),
            _ => format!("fault {op} killb 0"),
        }
    };
    Some(rule(phase, &p.name, Some(occ), group, line))
}
/// Operations of a command started on a prepared tree, without faults.
fn trace_on(cx: &Cx, w: &mut World, key: &str, snap: Option<&Snap>, line: &str) -> Arc<Vec<Proc>> {
    cx.cached(&format!("trace {key} | {line}"), || {
        w.reset();
        if let Some(s) = snap {
            w.restore(s);
        }
        let plan = Plan { trace: true, ..quiet().plan(0) };
        let a = if let Some(l) = line.strip_prefix("node ") { Actor::node(l) } else { Actor::sh(line) };
        let r = w.run1(a, &plan);
        w.reset();
        r.procs
    })
}
/// Loss of power: whatever changed since the last state that was surely on
/// disk is kept, cut, emptied, lost or still as before, path by path.
pub fn power_loss(w: &World, before: &Snap, seed: u64) -> u64 {
    let after = w.snapshot("results");
    let mut lost = 0;
    let mut paths: BTreeSet<&String> = before.keys().collect();
    paths.extend(after.keys());
    let how = |p: &str| mix(&[seed, hash_str(p)]);
    let bias = seed % 3; // 0: mostly kept, 1: mostly lost, 2: half
    let mut gone: Vec<String> = vec![];
    for p in paths {
        let (b, a) = (before.get(p), after.get(p));
        if a == b {
            continue;
        }
        let h = how(p);
        let keep = match bias {
            0 => h % 8 != 0,
            1 => h % 8 == 0,
            _ => h % 2 == 0,
        };
        if keep || gone.iter().any(|g| p.starts_with(g.as_str())) {
            continue;
        }
        let f = w.path(p);
        lost += 1;
        match (b, a) {
            // new or changed file: cut, zero length, zero-filled tail, or absent / old
            (_, Some(Ent::File(new))) => match (h >> 8) % 4 {
                0 => {
                    let _ = std::fs::write(&f, b"");
                }
                1 => {
                    let k = if new.is_empty() { 0 } else { ((h >> 16) % new.len() as u64) as usize };
                    let _ = std::fs::write(&f, &new[..k]);
                }
                2 => {
                    let mut z = new.clone();
                    let k = if z.is_empty() { 0 } else { ((h >> 16) % z.len() as u64) as usize };
                    for x in &mut z[k..] {
                        *x = 0;
                    }
                    let _ = std::fs::write(&f, z);
                }
                _ => match b {
                    Some(Ent::File(old)) => {
                        let _ = std::fs::write(&f, old);
                    }
                    _ => {
                        let _ = std::fs::remove_file(&f);
                    }
                },
            },
            // new directory whose entry was not on disk: all of it is gone
            (None, Some(Ent::Dir)) => {
                let _ = std::fs::remove_dir_all(&f);
                gone.push(format!("{p}/"));
            }
            // removal not on disk: back again
            (Some(Ent::File(old)), None) => {
                if let Some(d) = f.parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                let _ = std::fs::write(&f, old);
            }
            (Some(Ent::Dir), None) => {
                let _ = std::fs::create_dir_all(&f);
            }
            _ => lost -= 1,
        }
    }
    w.chown_tree();
    lost
}

// ------------------------------------------------------------------ C10
fn attempt_line(x: &[&str], c: &Cfg) -> String {
    // attempt <driver|pairs|scripts> <d|-> <pairing> <psd|correlation> <h|-> 
    let a = Cfg { pairing: x[2].into(), corr: x[3] == "correlation", hm: x[4] == "h", ..c.clone() };
    match x[0] {
        "driver" => a.driver(x[1] == "d"),
        "pairs" => a.pairs(x[1] == "d"),
        "sort" => format!("./sortpairs.sh {}", a.tn()),
        "join" => format!("./join_pairs.sh {}", a.tn()),
        "hm" => format!("./convert_hm.sh {}", a.tn()),
        _ => format!("./convert_qhm.sh {}", a.tn()),
    }
}
fn gen_c10(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = Cfg::pick(rng, if cx.thorough { 1500 } else { 220 }, ALL, &[Flow::Driver, Flow::Driver, Flow::Driver, Flow::Scripts], None);
    let mut s = Scenario::new("C10");
    c.put(&mut s);
    s.atoms = random_env(rng);
    let done = finished(cx, w, &Cfg { flow: Flow::Driver, ..c.clone() });
    let done = done.as_ref().as_ref().ok();
    let k = rng.range(1, 3);
    for a in 0..k {
        let what = *rng.pick(&["driver", "driver", "driver", "driver", "pairs", "pairs", "sort", "join", "qhm"]);
        let d = if rng.chance(2, 3) { "d" } else { "-" };
        let h = if c.hm && rng.chance(1, 2) { "h" } else { "-" };
        let line = format!("{what} {d} {} {} {h}", rng.pick(&PAIRINGS), rng.pick(&["psd", "correlation"]));
        let words: Vec<&str> = line.split(' ').collect();
        let cmd = attempt_line(&words, &c);
        s.atoms.push(Atom::Step(format!("attempt {line}")));
        // where it is interrupted (one of them may also complete)
        let fresh = a == 0;
        if rng.chance(7, 8) {
            let t = if fresh { trace_on(cx, w, "nothing", None, &cmd) } else { trace_on(cx, w, &format!("finished {}", c.key()), done, &cmd) };
            if let Some(at) = {
                let g = rng.chance(4, 5);
                pick_kill(rng, &t, a as usize, g)
            } {
                s.atoms.push(at);
            }
            if rng.chance(1, 8) {
                // a failing step instead of, or before, the crash
                if let Some(p) = t.iter().filter(|p| !p.trace.is_empty()).last() {
                    if let Some((op, cls, _)) = pick_op(rng, &p.trace) {
                        let (kd, arg) = pick_fault(rng, cls);
                        s.atoms.push(rule(a as usize, &p.name, Some(0), false, format!("fault {op} {kd} {arg}")));
                    }
                }
            }
        }
        if rng.chance(2, 5) {
            s.atoms.push(Atom::Step(format!("power {}", rng.below(1 << 40))));
        }
    }
    Some(s)
}
fn run_c10(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome::default();
    let want = undisturbed(cx, w, &c);
    let want = match want.as_ref() {
        Ok(x) => x,
        Err(e) => {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            return o;
        }
    };
    w.reset();
    let mut ph = 0;
    let mut before = w.snapshot("results");
    let mut story = vec![];
    for st in sc.steps() {
        let x: Vec<&str> = st.split(' ').collect();
        match x[0] {
            "attempt" => {
                let line = attempt_line(&x[1..], &c);
                let r = run_cmd(w, sc, ph, Actor::sh(&line), &mut o);
                let killed = r.procs.iter().any(|p| p.killed);
                story.push(format!("`{line}` {}", if killed { "killed" } else if r.ok() { "completed" } else { "failed" }));
                o.nontrivial |= killed;
                o.probe(if killed { "attempt-killed" } else if r.ok() { "attempt-completed" } else { "attempt-refused-or-failed" });
                ph += 1;
            }
            "power" => {
                let n = power_loss(w, &before, x[1].parse().unwrap_or(0));
                if n > 0 {
                    o.probe("power-loss-with-damage");
                    story.push("power lost".into());
                }
                before = w.snapshot("results");
            }
            _ => {}
        }
    }
    let left = w.snapshot(&c.dir());
    if left.keys().any(|p| p.contains("/rowsum_")) {
        o.probe("recovery-over-leftovers");
    }
    if let Err(e) = run_flow(w, &calm(sc), &c, true, 20, &mut o) {
        o.violate("recovery-fails", format!("{}: after {}: {e}", c.key(), story.join(", ")));
        return o;
    }
    if let Some(d) = Results::read(w, &c).differs_mat_count(want) {
        o.violate("recovery-gives-other-results", format!("{}: after {} and a successful run with -d, {d}", c.key(), story.join(", ")));
    }
    o
}

// ------------------------------------------------------------------ C11
fn paired(cx: &Cx, w: &mut World, c: &Cfg) -> Arc<Result<Snap, String>> {
    cx.cached(&format!("paired {}", c.key()), || {
        w.reset();
        let mut o = Outcome::default();
        let r = run_cmd(w, &quiet(), 0, Actor::sh(&c.pairs(false)), &mut o);
        let s = if r.ok() { Ok(w.snapshot("results")) } else { Err(describe("./pairs.sh", &r)) };
        w.reset();
        s
    })
}
fn stages(c: &Cfg) -> Vec<String> {
    c.scripts(false)[1..].to_vec()
}
fn gen_c11(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = Cfg::pick(rng, if cx.thorough { 1500 } else { 180 }, ALL, &[Flow::Scripts], None);
    let mut s = Scenario::new("C11");
    c.put(&mut s);
    s.atoms = random_env(rng);
    let p = paired(cx, w, &c);
    let st = stages(&c);
    // walk through the stages, with interrupted and repeated ones, sometimes
    // going back to an earlier stage
    let mut ph = 0;
    let mut k = 0;
    let mut total = 0;
    while k < st.len() && total < 12 {
        let times = rng.below(3);
        for _ in 0..times {
            s.atoms.push(Atom::Step(format!("disturb {k}")));
            // the operations of this stage on its regular input
            let key = format!("stage {} {k}", c.key());
            let t: Arc<Vec<Proc>> = cx.cached(&key, || {
                let mut v = vec![];
                if let Ok(p) = p.as_ref() {
                    w.reset();
                    w.restore(p);
                    for j in 0..=k {
                        let plan = Plan { trace: j == k, ..quiet().plan(0) };
                        let r = w.run1(Actor::sh(&st[j]), &plan);
                        if j == k {
                            v = r.procs;
                        }
                    }
                    w.reset();
                }
                v
            });
            match rng.below(6) {
                0 => {}
                1 => {
                    let main: Vec<&Proc> = t.iter().filter(|p| !p.trace.is_empty() && (p.name.starts_with("node") || p.name.starts_with("sort"))).collect();
                    if !main.is_empty() {
                        let p = *rng.pick(&main);
                        let line = if rng.chance(1, 3) {
                            format!("cap {}", rng.below(p.stat("wbytes").max(1)))
                        } else {
                            let (op, cls, _) = pick_op(rng, &p.trace)?;
                            let (kd, a) = pick_fault(rng, cls);
                            format!("fault {op} {kd} {a}")
                        };
                        s.atoms.push(rule(ph, &p.name, Some(0), false, line));
                    }
                }
                _ => {
                    if let Some(a) = {
                        let g = rng.chance(3, 4);
                        pick_kill(rng, &t, ph, g)
                    } {
                        s.atoms.push(a);
                    }
                }
            }
            ph += 1;
            total += 1;
        }
        s.atoms.push(Atom::Step(format!("complete {k}")));
        ph += 1;
        total += 1;
        if rng.chance(1, 8) && k > 0 {
            k = rng.below(k as u64) as usize;
        } else {
            k += 1;
        }
    }
    Some(s)
}
fn run_c11(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome::default();
    let want = undisturbed(cx, w, &c);
    let p = paired(cx, w, &c);
    let (want, snap) = match (want.as_ref(), p.as_ref()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            return o;
        }
    };
    w.reset();
    w.restore(snap);
    let st = stages(&c);
    let quiet_sc = calm(sc);
    let mut story: Vec<String> = vec![];
    let mut next = 0; // first stage not yet completed
    let mut ph = 0;
    let complete = |w: &mut World, k: usize, ph: usize, story: &[String], o: &mut Outcome| -> bool {
        let r = run_cmd(w, &quiet_sc, ph, Actor::sh(&st[k]), o);
        if !r.ok() {
            o.violate("repetition-fails", format!("{}: after {}: {}", c.key(), story.join(", "), describe(&st[k], &r)));
            return false;
        }
        true
    };
    for s in sc.steps() {
        let x: Vec<&str> = s.split(' ').collect();
        let k: usize = x.get(1).and_then(|k| k.parse().ok()).unwrap_or(0);
        if k >= st.len() {
            continue;
        }
        if x[0] == "disturb" {
            // a stage is started only when the ones before it are complete
            while next < k {
                if !complete(w, next, 100 + next, &story, &mut o) {
                    return o;
                }
                next += 1;
            }
            let r = run_cmd(w, sc, ph, Actor::sh(&st[k]), &mut o);
            let killed = r.procs.iter().any(|p| p.killed);
            o.nontrivial |= killed || r.fired() > 0;
            o.probe(if killed { "stage-killed" } else if r.ok() { "stage-completed" } else { "stage-failed" });
            story.push(format!("{} {}", st[k], if killed { "killed" } else if r.ok() { "completed" } else { "failed" }));
            next = k;
        } else {
            while next < k {
                if !complete(w, next, 100 + next, &story, &mut o) {
                    return o;
                }
                next += 1;
            }
            if !complete(w, k, 100 + ph, &story, &mut o) {
                return o;
            }
            story.push(format!("{} completed", st[k]));
            next = k + 1;
        }
        ph += 1;
    }
    while next < st.len() {
        if !complete(w, next, 200 + next, &story, &mut o) {
            return o;
        }
        next += 1;
    }
    if let Some(d) = Results::read(w, &c).differs_mat_count(want) {
        o.violate("other-results", format!("{}: after {}, {d}", c.key(), story.join(", ")));
    }
    o
}

// ------------------------------------------------------------------ C12
fn gen_c12(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let c = Cfg::pick(rng, if cx.thorough { 600 } else { 160 }, ALL, &[Flow::Driver], None);
    let mut s = Scenario::new("C12");
    c.put(&mut s);
    s.atoms = random_env(rng);
    s.put("command", rng.pick(&["driver", "driver", "pairs"]));
    s.put("slurm", rng.chance(1, 5) as u8);
    s.put("notation", if rng.chance(1, 8) { rng.range(1, 3) } else { 0 });
    for a in 0..rng.below(3) {
        let what = *rng.pick(&["driver", "driver", "driver", "pairs"]);
        let line = format!("{what} {} {} {} -", if a > 0 && rng.chance(1, 2) { "d" } else { "-" }, rng.pick(&PAIRINGS), rng.pick(&["psd", "correlation"]));
        let words: Vec<&str> = line.split(' ').collect();
        let cmd = attempt_line(&words, &c);
        s.atoms.push(Atom::Step(format!("attempt {line}")));
        if rng.chance(3, 4) {
            let t = trace_on(cx, w, "nothing", None, &cmd);
            if let Some(at) = pick_kill(rng, &t, a as usize, true) {
                s.atoms.push(at);
            }
        }
        if rng.chance(1, 4) {
            s.atoms.push(Atom::Step(format!("power {}", rng.below(1 << 40))));
        }
    }
    // states of the tree made directly
    for _ in 0..rng.below(3) {
        let t = rng.below(8);
        s.atoms.push(Atom::Step(match t {
            0 => "keep-results-only".to_string(),
            1 => "empty-rowsums".to_string(),
            2 => format!("one-rowsum {}", rng.below(1 << 30)),
            3 => format!("add {}", rng.pick(&["rowsum_1_1_1_3", "rowsum_-1_3_5_5", "rowsum_0_0_2_4", "rowsum_10_10_10_10", "rowsum_x", "rowsum_"])),
            4 => "other-lengths".to_string(),
            5 => "results-without-rowsums".to_string(),
            6 => "sorted-only".to_string(),
            _ => format!("cut {}", rng.below(1 << 30)),
        }));
    }
    Some(s)
}
fn data_present(w: &World, c: &Cfg) -> bool {
    std::fs::read_dir(w.path(&c.dir())).map_or(false, |d| d.flatten().any(|e| e.file_name().to_string_lossy().starts_with("rowsum_") && e.path().is_dir()))
}
fn run_c12(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    let _ = cx;
    let mut ph = 0;
    let mut before = w.snapshot("results");
    for st in sc.steps() {
        let x: Vec<&str> = st.split(' ').collect();
        let dir = w.path(&c.dir());
        let rs: Vec<std::path::PathBuf> = {
            let mut v: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.file_name().map_or(false, |f| f.to_string_lossy().starts_with("rowsum_"))).collect()).unwrap_or_default();
            v.sort();
            v
        };
        match x[0] {
            "attempt" => {
                let line = attempt_line(&x[1..], &c);
                run_cmd(w, sc, ph, Actor::sh(&line), &mut o);
                ph += 1;
            }
            "power" => {
                power_loss(w, &before, x[1].parse().unwrap_or(0));
                before = w.snapshot("results");
            }
            "keep-results-only" | "results-without-rowsums" => {
                for r in &rs {
                    let _ = std::fs::remove_dir_all(r);
                }
                if x[0] == "results-without-rowsums" {
                    w.put(&format!("{}/result.seq", c.dir()), b"++\n");
                    w.put(&format!("{}/rowsums.quad", c.dir()), b"1 1 1 1\n");
                }
            }
            "empty-rowsums" => {
                for r in &rs {
                    let _ = std::fs::remove_dir_all(r);
                    let _ = std::fs::create_dir_all(r);
                }
            }
            "one-rowsum" => {
                let keep = if rs.is_empty() { 0 } else { (x[1].parse::<u64>().unwrap_or(0) % rs.len() as u64) as usize };
                for (k, r) in rs.iter().enumerate() {
                    if k != keep {
                        let _ = std::fs::remove_dir_all(r);
                    }
                }
            }
            "add" => {
                let _ = std::fs::create_dir_all(dir.join(x[1]));
            }
            "other-lengths" => {
                for n in [c.n * 10, c.n * 10 + 1, c.n + 1] {
                    w.put(&format!("{}/rowsum_1_1_1_1/seq_W.seq", dir_of(&c, n)), b"+\n");
                }
            }
            "sorted-only" => {
                for r in &rs {
                    for e in std::fs::read_dir(r).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
                        if !e.file_name().to_string_lossy().ends_with(".sorted") {
                            let _ = std::fs::remove_file(e.path());
                        }
                    }
                }
            }
            "cut" => {
                for r in &rs {
                    for e in std::fs::read_dir(r).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
                        if let Ok(b) = std::fs::read(e.path()) {
                            let _ = std::fs::write(e.path(), &b[..b.len() / 2]);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    w.chown_tree();
    let present = data_present(w, &c);
    let old = w.snapshot("results");
    let mut line = if sc.get("command") == "pairs" { c.pairs(false) } else { c.driver(false) };
    // the same length, written in another way
    let other = match sc.num("notation") {
        1 => "0",
        2 => "00",
        3 => "+",
        _ => "",
    };
    line = line.replace(&format!(" {}", c.tn()), &format!(" {} {other}{}", c.t.name(), c.n));
    if sc.flag("slurm") {
        line += " -s";
        let _ = std::fs::create_dir_all(w.path("tmp"));
        w.chown_tree();
    }
    let r = {
        let plan = calm(sc).plan(50);
        let r = w.run1(Actor::sh(&line).env("SLURM_TMPDIR", "tmp"), &plan);
        o.absorb(&r);
        r
    };
    if present {
        o.probe("data-present");
        if r.ends[0].code == 0 {
            o.violate("overwrites", format!("`{line}` ended with status 0 although rowsum data was present"));
        } else if let Some(d) = file_diff(&old, &w.snapshot("results")) {
            o.violate("overwrites", format!("`{line}` refused, but {d}"));
        }
    } else if other.is_empty() {
        o.probe("no-data-present");
        if !r.ok() {
            o.violate("refuses-without-data", describe(&line, &r));
        } else if !data_present(w, &c) {
            o.violate("refuses-without-data", format!("`{line}` ended with status 0 without computing anything"));
        }
    }
    o
}
fn dir_of(c: &Cfg, n: usize) -> String {
    dir(c.t, n)
}

// ------------------------------------------------------------------ C14
fn gen_c14(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let mut s = Scenario::new("C14");
    let t = *rng.pick(&["qts", "wts", "ws"]);
    let a = rng.range(1, 25);
    let how = rng.below(7);
    s.put("type", t);
    s.put("tree", rng.below(1 << 40));
    s.put("n", a);
    let cmd = match how {
        0 | 1 => format!("./pair_file_cleanup.sh {t} {a}"),
        2 | 3 => {
            let b = match rng.below(4) {
                0 => a,
                1 => a + rng.below(4),
                2 => a + rng.below(90),
                _ => a.saturating_sub(rng.below(3)), // empty range when smaller
            };
            format!("./pair_file_cleanup.sh {t} {a} {b}")
        }
        4 => {
            // unusual ways to write the arguments; those that name no length ask for nothing
            let a = if rng.chance(1, 2) { *rng.pick(&[8, 10, 11, 12, 17, 20, 24]) } else { a };
            s.put("n", a);
            let b = a + rng.below(4);
            let form = *rng.pick(&["{t} 0{a}", "{t} 0{a}", "{t} 00{a}", "{t} 0{a} 0{b}", "{t} {a} 0{b}", "{t} 0{a} {b}", "{t} abc", "{t} {a}x", "{t} -{a}", "{t} -1 {a}", "{t} {a} type", "{t} {a}-{b}", "{t} {a} {b} {b}", "{t}", "{a}", "", "--help", "{t} 0", "{t} 0x{a}"]);
            format!("./pair_file_cleanup.sh {}", form.replace("{t}", t).replace("{a}", &a.to_string()).replace("{b}", &b.to_string())).trim().to_string()
        }
        k => {
            let n = rng.range(1, if t == "ws" { 12 } else { 7 });
            s.put("n", n);
            let p = *rng.pick(&PAIRINGS);
            if k == 5 {
                format!("./driver.sh {t} {n} -d -p {p}")
            } else {
                format!("./pairs.sh {t} {n} -p {p} -d")
            }
        }
    };
    s.put("command", &cmd);
    s.atoms = random_env(rng);
    if rng.chance(2, 3) {
        // the operations it does on this very tree
        w.reset();
        build_tree(w, &s);
        let plan = Plan { trace: true, ..s.plan(0) };
        let r = w.run1(Actor::sh(&cmd), &plan);
        let rms: Vec<Proc> = r.procs.iter().filter(|p| p.name.starts_with("rm") || p.name.starts_with("mv")).cloned().collect();
        for _ in 0..rng.range(1, 2) {
            if rng.chance(2, 3) {
                let from = if rms.is_empty() || rng.chance(1, 6) { &r.procs } else { &rms };
                let group = rng.chance(2, 3);
                if let Some(x) = pick_kill(rng, from, 0, group) {
                    s.atoms.push(x);
                }
            } else if !rms.is_empty() {
                let p = rng.pick(&rms);
                if let Some((op, cls, path)) = pick_op(rng, &p.trace) {
                    let e = pick_errno(rng, cls);
                    s.atoms.push(rule(0, &p.name, Some(0), false, if rng.chance(1, 2) { format!("fault {op} err {e}") } else { format!("sticky {op} {cls} {e} {}", if rng.chance(1, 2) || path.contains(' ') { "*".into() } else { path }) }));
                }
            }
        }
        let _ = cx;
    }
    Some(s)
}
/// Decoy-filled tree around the lengths of the scenario.
fn build_tree(w: &World, sc: &Scenario) {
    let mut r = Rng::new(sc.num("tree"));
    let n = sc.num("n");
    let t = sc.get("type");
    let mut lens: Vec<String> = vec![n, n + 1, n * 10, n * 10 + 3, 100 + n, n / 10, n.saturating_sub(1), 1, 2].iter().map(|x| x.to_string()).collect();
    lens.extend([format!("{n}_old"), format!("0{n}"), format!("{n}.bak")]);
    for b in sc.get("command").split(' ').skip(2).filter_map(|x| x.parse::<u64>().ok()) {
        lens.push(b.to_string());
        lens.push((b + 1).to_string());
    }
    // other readings of the numbers
    for a in sc.get("command").split(' ').skip(2).filter(|a| a.starts_with('0')) {
        lens.extend([u64::from_str_radix(a, 8).unwrap_or(0), u64::from_str_radix(a.trim_start_matches("0x"), 16).unwrap_or(0)].map(|x| x.to_string()));
        lens.push(a.to_string());
    }
    lens.sort();
    lens.dedup();
    let rows = ["rowsum_1_1_1_3", "rowsum_-1_1_3_5", "rowsum_0_2_2_4", "rowsum_1_1_1_3_copy"];
    let keep = ["result.seq", "result.qseq", "result.log", "result.mat", "result.qhm", "rowsums.quad", "result-qts.seq", "notes_rowsum_1", "Rowsum_1", "rowsums"];
    for ty in ["qts", "wts", "ws", "qts-old", ""] {
        let base = if ty.is_empty() { "results".to_string() } else { format!("results/pairs/{ty}") };
        let own = ty == t;
        for l in &lens {
            if r.chance(1, 5) && !(own && *l == n.to_string()) {
                continue;
            }
            let d = format!("{base}/find_{l}");
            for x in rows {
                if r.chance(1, 2) {
                    for f in ["pair_WZ.pair", "pair_XY.pair.sorted", "seq_W.seq", ".hidden"] {
                        if r.chance(2, 3) {
                            w.put(&format!("{d}/{x}/{f}"), format!("{d}{x}{f}\n").as_bytes());
                        }
                    }
                    if r.chance(1, 4) {
                        w.put(&format!("{d}/{x}/sub/rowsum_1/result.seq"), b"x\n");
                    }
                }
            }
            for f in keep {
                if r.chance(1, 2) {
                    w.put(&format!("{d}/{f}"), format!("{d}/{f} kept\n").as_bytes());
                }
            }
            if r.chance(1, 4) {
                w.put(&format!("{d}/archive/rowsum_1_1_1_3/seq_W.seq"), b"+\n");
            }
            if r.chance(1, 6) {
                w.put(&format!("{d}/rowsum_list.txt"), b"plain file\n");
            }
        }
        if !ty.is_empty() && r.chance(1, 3) {
            w.put(&format!("{base}/rowsum_1_1_1_1/seq_W.seq"), b"+\n");
        }
    }
    w.put("rowsum_1_1_1_3/seq_W.seq", b"+\n");
    w.put("results/rowsum_1_1_1_3/seq_W.seq", b"+\n");
    w.put("find_1/rowsum_1/seq_W.seq", b"+\n");
    if r.chance(1, 3) {
        // a link out of the directory: the link may go, its target may not
        let d = w.path(&format!("results/pairs/{t}/find_{n}"));
        let _ = std::fs::create_dir_all(&d);
        let _ = std::os::unix::fs::symlink("../../../../rowsum_1_1_1_3", d.join("rowsum_link"));
    }
    w.chown_tree();
}
fn run_c14(_cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    build_tree(w, sc);
    let before = w.snapshot("");
    let cmd = sc.get("command").to_string();
    let x: Vec<&str> = cmd.split(' ').collect();
    let cleanup = x[0].contains("cleanup");
    let args: &[&str] = if x.len() > 2 { &x[2..] } else { &[] };
    let mut nums: Vec<u64> = args.iter().filter(|a| a.bytes().all(|b| b.is_ascii_digit())).filter_map(|a| a.parse().ok()).collect();
    if cleanup && (nums.len() != args.len() || nums.len() > 2) {
        nums.clear(); // no length was asked for
    }
    let (lo, hi) = match nums[..] {
        [a, b] if cleanup => (a, b),
        [a, ..] => (a, a),
        [] => (1, 0),
    };
    // which paths are to go
    let base = format!("results/pairs/{}", x.get(1).unwrap_or(&""));
    let target = |p: &str| -> bool {
        p.strip_prefix(&format!("{base}/find_")).map_or(false, |r| {
            let mut it = r.splitn(2, '/');
            let l = it.next().unwrap_or("");
            let rest = it.next().unwrap_or("");
            l.parse::<u64>().map_or(false, |k| k.to_string() == l && k >= lo && k <= hi) && rest.starts_with("rowsum_")
        })
    };
    let r = run_cmd(w, sc, 0, Actor::sh(&cmd), &mut o);
    let after = w.snapshot("");
    let hurt = r.fired() > 0;
    if r.hang {
        o.violate("no-end", format!("`{cmd}` did not end"));
        return o;
    }
    // a driver run goes on to compute; what it writes in the length's directory is its business
    let own = |p: &str| !cleanup && (p == "tmp" || p.starts_with("tmp/") || (p.starts_with(&format!("{base}/find_{lo}/")) && !p.contains("/archive") && {
        let f = p.rsplit('/').next().unwrap_or("");
        let depth = p[base.len()..].matches('/').count();
        depth == 2 && (f.starts_with("result") || f == "rowsums.quad")
    }));
    for (p, e) in &before {
        if target(p) {
            continue;
        }
        match after.get(p) {
            Some(a) if a == e => {}
            Some(_) if own(p) => {}
            None => {
                o.violate("removes-too-much", format!("`{cmd}` removed {p}"));
                return o;
            }
            Some(_) => {
                o.violate("changes-other-files", format!("`{cmd}` changed {p}"));
                return o;
            }
        }
    }
    if cleanup {
        if let Some(p) = after.keys().find(|p| !before.contains_key(*p)) {
            o.violate("changes-other-files", format!("`{cmd}` created {p}"));
            return o;
        }
        if !hurt {
            if let Some(p) = after.keys().find(|p| target(p)) {
                o.violate("removes-too-little", format!("`{cmd}` left {p}"));
                return o;
            }
        }
        o.probe("cleanup-alone");
    } else if !hurt {
        // nothing of the old rowsum data may be left in the length's directory
        if let Some((p, _)) = before.iter().find(|(p, e)| target(p) && after.get(*p) == Some(*e) && (p.ends_with(".hidden") || p.contains("_copy") || p.contains("/sub/"))) {
            o.violate("removes-too-little", format!("`{cmd}` left {p}"));
            return o;
        }
        o.probe("with-d-flag");
    }
    // what was asked to be removed, whether or not it existed
    for p in &r.procs {
        for a in &p.removals {
            let a = a.trim_start_matches("./").trim_end_matches('/').replace("//", "/");
            let fine = (target(&a)) || (!cleanup && (a.ends_with(".pair") || a.starts_with("tmp"))) || a.ends_with("rowsum_*");
            if !fine {
                o.violate("removes-too-much", format!("`{cmd}` asked to remove {a}"));
                return o;
            }
        }
    }
    o
}

const SHRINK_N: Option<fn(&Scenario) -> Vec<Scenario>> = Some(shrink_cfg);
pub const CHECKS: &[Check] = &[
    Check {
        id: "C10",
        gen: gen_c10,
        run: run_c10,
        shrink: SHRINK_N,
        quick: 1100,
        thorough: 60_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = one to three attempts (changing flags, killed at a drawn operation of a drawn process, sometimes with loss of unsynced data), then a run with -d compared with an undisturbed run; non-trivial: a process was killed",
        assumptions: &["power loss keeps, cuts, zeroes, drops or reverts every change since the last surely durable state, path by path", "unsynced data of the recovering run itself is not lost"],
    },
    Check {
        id: "C11",
        gen: gen_c11,
        run: run_c11,
        shrink: SHRINK_N,
        quick: 1600,
        thorough: 60_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = the stages after pairs.sh with killed, failing and repeated executions of sort, join and conversions in their documented order, compared with an undisturbed run; non-trivial: a process was killed or hit by a fault",
        assumptions: &["a killed process loses nothing it had written (no power loss inside this property)"],
    },
    Check {
        id: "C12",
        gen: gen_c12,
        run: run_c12,
        shrink: SHRINK_N,
        quick: 3500,
        thorough: 60_000,
        cap_quick: 150,
        cap_thorough: 2400,
        rule: "one scenario = a state of the results tree left by killed or complete runs or made directly, then driver.sh or pairs.sh without -d; every one is non-trivial (the state either has rowsum data or not, both are decided)",
        assumptions: &["rowsum data means a directory named rowsum_* in the directory of the type and length"],
    },
    Check {
        id: "C14",
        gen: gen_c14,
        run: run_c14,
        shrink: None,
        quick: 4500,
        thorough: 60_000,
        cap_quick: 150,
        cap_thorough: 2400,
        rule: "one scenario = a tree full of decoys, one cleanup, driver -d or pairs -d command, with kills and removal errors in most of them; snapshots before and after and every requested removal are compared with what was asked for",
        assumptions: &["removals of the simulated rm really happen only inside the scratch directory; a request outside it is recorded and reported"],
    },
];
