//! Several processes at a time under the simulator's scheduler: C13 one job per
//! pair, C16 runs that share a working directory.
use super::crash::{finished, pick_kill};
use super::faults::*;
use super::flow::*;
use super::Check;
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, NodeKind, Plan, Proc, Run, Schedule, World};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Run actors step by step.  A `sched <phase> <seed> <prob>` step draws the
/// schedule; what was drawn is added to `expanded` as explicit switches.
pub fn run_steps(w: &mut World, sc: &Scenario, phase: usize, actors: &[Actor], o: &mut Outcome, expanded: &mut Scenario) -> Run {
    let mut sch = sc.schedule(phase);
    for s in sc.steps() {
        let x: Vec<&str> = s.split(' ').collect();
        if x[0] == "sched" && x[1].parse() == Ok(phase) {
            sch.rng = Some((Rng::new(x[2].parse().unwrap_or(0)), x[3].parse().unwrap_or(4)));
            let t = s.to_string();
            expanded.atoms.retain(|a| *a != Atom::Step(t.clone()));
        }
    }
    let drawn = sch.rng.is_some();
    let r = w.run(actors, &sc.plan(phase), Some(&mut sch));
    if drawn {
        for (d, c) in &r.schedule {
            expanded.atoms.push(Atom::Dev(phase, *d, *c));
        }
    }
    o.absorb(&r);
    r
}
fn sched_atom(rng: &mut Rng, phase: usize) -> Atom {
    Atom::Step(format!("sched {phase} {} {}", rng.below(1 << 40), rng.pick(&[1u64, 2, 2, 4, 10, 40, 150])))
}

// ------------------------------------------------------------------ C13
/// Jobs: `<rowsum index> <0|1|2>`; 0 stands for the whole rowsum.
fn job_line(c: &Cfg, rs: &[String], j: &str) -> Option<(String, Vec<(usize, u64)>)> {
    let x: Vec<&str> = j.split(':').collect();
    let k: usize = x.first()?.parse().ok()?;
    let p: u64 = x.get(1)?.parse().ok()?;
    let r = rs.get(k)?;
    Some(if p == 0 {
        (format!("pairs_rowsum {} {r} {} {}", c.tn(), c.opt(), c.pairing), vec![(k, 1), (k, 2)])
    } else {
        (format!("pair_single {} {r} {} {} {p}", c.tn(), c.opt(), c.pairing), vec![(k, p)])
    })
}
fn gen_c13(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let mut c = Cfg::pick(rng, if cx.thorough { 1000 } else { 170 }, ALL, &[Flow::Jobs], Some(false));
    if !cx.thorough && c.t != Type::Ws && c.n > 7 {
        c.n = 2 + c.n % 6;
    }
    if c.t == Type::Ws && c.n > 13 {
        c.n = 1 + c.n % 13;
    }
    let mut s = Scenario::new("C13");
    c.put(&mut s);
    s.atoms = random_env(rng);
    let rs = rowsum_list(cx, w, &c);
    let rs = match rs.as_ref() {
        Ok(r) => r.clone(),
        Err(_) => return Some(s),
    };
    // preparation: one create job per rowsum, possibly at once, killed or repeated
    s.put("create", rng.pick(&["sequential", "concurrent", "none"]));
    s.atoms.push(sched_atom(rng, 1));
    if rng.chance(1, 4) {
        s.atoms.push(rule(1, "node create", Some(rng.below(rs.len() as u64)), false, format!("fault {} {} 0", rng.below(6), rng.pick(&["killb", "killa"]))));
    }
    // the jobs in a random order, some twice
    let mut jobs: Vec<String> = vec![];
    for k in 0..rs.len() {
        if rng.chance(1, 5) {
            jobs.push(format!("{k}:0"));
        } else {
            jobs.push(format!("{k}:1"));
            jobs.push(format!("{k}:2"));
        }
    }
    for _ in 0..rng.below(4) {
        let j = rng.pick(&jobs).clone();
        jobs.push(if rng.chance(1, 5) { format!("{}:0", j.split(':').next().unwrap()) } else { j });
    }
    for i in (1..jobs.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        jobs.swap(i, j);
    }
    let mut wave = 2;
    let mut i = 0;
    while i < jobs.len() {
        let k = (rng.range(1, 4) as usize).min(jobs.len() - i);
        for j in &jobs[i..i + k] {
            s.atoms.push(Atom::Step(format!("job {wave} {j}")));
        }
        if k > 1 {
            s.atoms.push(sched_atom(rng, wave));
        }
        if rng.chance(1, 3) {
            // one of them is killed or hit by a fault
            let a = rng.below(k as u64) as usize;
            if let Some((line, _)) = job_line(&c, &rs, &jobs[i + a]) {
                let full = format!("node {line}");
                let t = cx.cached(&format!("job {full}"), || {
                    w.reset();
                    std::fs::create_dir_all(w.path(&c.dir())).ok();
                    w.chown_tree();
                    let plan = Plan { trace: true, ..quiet().plan(0) };
                    let r = w.run1(Actor::node(&line), &plan);
                    w.reset();
                    r.procs
                });
                if let Some(p) = t.first() {
                    let mut at = if rng.chance(3, 4) {
                        pick_kill(rng, std::slice::from_ref(p), wave, false)
                    } else {
                        pick_op(rng, &p.trace).map(|(op, cls, _)| {
                            let (kd, arg) = pick_fault(rng, cls);
                            rule(wave, "node", None, false, format!("fault {op} {kd} {arg}"))
                        })
                    };
                    if let Some(Atom::Rule(_, r)) = &mut at {
                        r.actor = Some(a);
                        r.sel = "node".into();
                        r.occ = None;
                    }
                    s.atoms.extend(at);
                }
            }
        }
        i += k;
        wave += 1;
    }
    s.put("waves", wave);
    Some(s)
}
fn run_c13(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome::default();
    let seq = Cfg { flow: Flow::Driver, ..c.clone() };
    let want = undisturbed(cx, w, &seq);
    let rs = rowsum_list(cx, w, &c);
    let (want, rs) = match (want.as_ref(), rs.as_ref()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            return o;
        }
    };
    w.reset();
    let mut exp = sc.clone();
    let mut story: Vec<String> = vec![];
    std::fs::create_dir_all(w.path(&c.dir())).expect("dir");
    w.chown_tree();
    let create = sc.get("create").to_string();
    let lines: Vec<String> = rs.iter().map(|r| format!("create {} {r} {}", c.tn(), c.pairing)).collect();
    if create == "concurrent" {
        let mut again = vec![];
        for (b, chunk) in lines.chunks(4).enumerate() {
            let acts: Vec<Actor> = chunk.iter().map(|l| Actor::node(l)).collect();
            let r = if b == 0 { run_steps(w, sc, 1, &acts, &mut o, &mut exp) } else { run_steps(w, &quiet(), 1, &acts, &mut o, &mut Scenario::default()) };
            for (k, e) in r.ends.iter().enumerate() {
                if e.code != 0 {
                    if r.procs.iter().any(|p| p.actor == k && (p.killed || !p.fired.is_empty())) {
                        o.probe("create-killed");
                        again.push(chunk[k].clone());
                    } else {
                        o.violate("job-fails", format!("{}: `{}` ended with status {} {}", c.key(), chunk[k], e.code, e.err.lines().take(3).collect::<Vec<_>>().join(" / ")));
                        o.expanded = Some(exp);
                        return o;
                    }
                }
            }
        }
        for l in again {
            let r = run_cmd(w, &quiet(), 0, Actor::node(&l), &mut o);
            if !r.ok() {
                o.violate("job-fails", describe(&l, &r));
                return o;
            }
        }
    } else if create == "sequential" {
        for l in &lines {
            let r = run_cmd(w, &quiet(), 0, Actor::node(l), &mut o);
            if !r.ok() {
                o.violate("job-fails", describe(l, &r));
                return o;
            }
        }
    }
    // the waves of jobs
    let mut state: BTreeMap<(usize, u64), bool> = BTreeMap::new();
    let waves = sc.num("waves") as usize;
    for wave in 2..waves.max(2) {
        let jobs: Vec<(String, Vec<(usize, u64)>)> = sc.steps().iter().filter_map(|s| s.strip_prefix(&format!("job {wave} "))).filter_map(|j| job_line(&c, rs, j)).collect();
        if jobs.is_empty() {
            continue;
        }
        let acts: Vec<Actor> = jobs.iter().map(|j| Actor::node(&j.0)).collect();
        let r = run_steps(w, sc, wave, &acts, &mut o, &mut exp);
        if r.hang {
            o.violate("no-end", format!("{}: jobs did not end", c.key()));
            o.expanded = Some(exp);
            return o;
        }
        if jobs.len() > 1 {
            o.nontrivial = true;
            o.probe(&format!("concurrent-{}", jobs.len()));
        }
        for (k, e) in r.ends.iter().enumerate() {
            if e.code == 0 {
                for x in &jobs[k].1 {
                    state.insert(*x, true);
                }
            }
        }
        for (k, e) in r.ends.iter().enumerate() {
            if e.code != 0 {
                if !r.procs.iter().any(|p| p.actor == k && (p.killed || !p.fired.is_empty())) {
                    o.violate("job-fails", format!("{}: `{}` failed among other jobs: status {} {}", c.key(), jobs[k].0, e.code, e.err.lines().take(3).collect::<Vec<_>>().join(" / ")));
                    o.expanded = Some(exp);
                    return o;
                }
                o.probe("job-killed-or-failed");
                o.nontrivial = true;
                for x in &jobs[k].1 {
                    state.insert(*x, false);
                }
            }
        }
        story.push(jobs.iter().map(|j| j.0.split(' ').take(1).chain(j.0.split(' ').skip(3)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" + "));
    }
    // what is missing or was hit is submitted (again), alone
    for k in 0..rs.len() {
        for p in 1..=2 {
            if state.get(&(k, p)) != Some(&true) {
                let (l, _) = job_line(&c, rs, &format!("{k}:{p}")).unwrap();
                let r = run_cmd(w, &quiet(), 0, Actor::node(&l), &mut o);
                o.probe("job-repeated");
                if !r.ok() {
                    o.violate("job-fails", describe(&l, &r));
                    o.expanded = Some(exp);
                    return o;
                }
            }
        }
    }
    for s in &c.scripts(false)[1..] {
        let mut q = sc.clone();
        q.atoms.retain(|a| matches!(a, Atom::Env(..)));
        let r = run_cmd(w, &q, 90, Actor::sh(s), &mut o);
        if !r.ok() {
            o.violate("joining-fails", format!("{}: after all jobs, {}", c.key(), describe(s, &r)));
            o.expanded = Some(exp);
            return o;
        }
    }
    if let Some(d) = Results::read(w, &c).differs_mat_count(want) {
        o.violate("other-results", format!("{}: jobs {}: {d}", c.key(), story.join("; ")));
        o.expanded = Some(exp);
    }
    o
}

// ------------------------------------------------------------------ C16
fn sh(line: &str) -> Actor {
    Actor { argv: vec!["/bin/bash".into(), "-c".into(), line.into()], env: vec![], node: NodeKind::Plain }
}
/// The configuration of actor k.
fn actor_cfg(sc: &Scenario, k: usize) -> Option<(Cfg, bool)> {
    let t = sc.get(&format!("run{k}"));
    let x: Vec<&str> = t.split(' ').collect();
    if x.len() < 6 {
        return None;
    }
    Some((
        Cfg {
            t: Type::parse(x[0])?,
            n: x[1].parse().ok()?,
            pairing: x[2].into(),
            corr: x[3] == "correlation",
            hm: x[4] == "h",
            flow: if x[5].starts_with("driver") { Flow::Driver } else { Flow::Scripts },
        },
        x[5].ends_with("-d"),
    ))
}
fn actor_line(c: &Cfg, d: bool) -> String {
    match c.flow {
        Flow::Driver => c.driver(d),
        _ => c.scripts(d).join(" && "),
    }
}
fn gen_c16(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let mut s = Scenario::new("C16");
    s.atoms = random_env(rng);
    let k = if rng.chance(1, 3) { 3 } else { 2 };
    let mut have: Vec<(Type, usize)> = vec![];
    let mut cs = vec![];
    while cs.len() < k {
        let mut c = Cfg::pick(rng, if cx.thorough { 300 } else { 130 }, ALL, &[Flow::Driver, Flow::Driver, Flow::Scripts], None);
        if !cs.is_empty() && rng.chance(1, 3) {
            // same type and a length with the same prefix, or same length and another type
            let (t, n) = have[0];
            if rng.chance(1, 2) {
                c.n = n;
            } else if t == Type::Ws && n == 1 {
                c.t = t;
                c.n = 10 + rng.below(3) as usize;
            } else {
                c.t = t;
            }
            c.hm &= c.n < 10;
        }
        if have.contains(&(c.t, c.n)) || (c.t != Type::Ws && c.n > if cx.thorough { 8 } else { 6 }) || c.n > 12 {
            continue;
        }
        have.push((c.t, c.n));
        let d = rng.chance(2, 5);
        s.put(&format!("run{}", cs.len()), format!("{} {} {} {} {}{}", c.tn(), c.pairing, c.opt(), if c.hm { "h" } else { "-" }, if c.flow == Flow::Driver { "driver" } else { "scripts" }, if d { "-d" } else { "" }));
        if d && rng.chance(2, 3) {
            s.put(&format!("left{}", cs.len()), 1);
        }
        cs.push((c, d));
    }
    if rng.chance(1, 3) {
        s.put("tmpdir", 1);
    }
    s.atoms.push(sched_atom(rng, 0));
    if rng.chance(1, 2) {
        let a = rng.below(k as u64) as usize;
        let (c, d) = &cs[a];
        let line = actor_line(c, *d);
        let t: Arc<Vec<Proc>> = cx.cached(&format!("actor {line}"), || {
            w.reset();
            let plan = Plan { trace: true, ..quiet().plan(0) };
            let r = w.run1(sh(&line), &plan);
            w.reset();
            r.procs
        });
        let mut at = if rng.chance(2, 3) {
            let g = rng.chance(3, 4);
            pick_kill(rng, &t, 0, g)
        } else {
            let p = rng.pick(&t).clone();
            pick_op(rng, &p.trace).map(|(op, cls, _)| {
                let (kd, arg) = pick_fault(rng, cls);
                rule(0, &p.name, Some(0), false, format!("fault {op} {kd} {arg}"))
            })
        };
        if let Some(Atom::Rule(_, r)) = &mut at {
            r.actor = Some(a);
        }
        s.atoms.extend(at);
    }
    Some(s)
}
fn run_c16(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let mut o = Outcome::default();
    let runs: Vec<(Cfg, bool)> = (0..3).filter_map(|k| actor_cfg(sc, k)).collect();
    let mut wants = vec![];
    for (c, _) in &runs {
        let u = undisturbed(cx, w, c);
        if let Err(e) = u.as_ref() {
            o.violate("fault-free-run-fails", format!("{}: without any fault, {e}", c.key()));
            return o;
        }
        wants.push(u);
    }
    let mut left = vec![];
    for (k, (c, _)) in runs.iter().enumerate() {
        if sc.flag(&format!("left{k}")) {
            let other = Cfg { pairing: if c.pairing == "WX" { "WY".into() } else { "WX".into() }, hm: false, flow: Flow::Driver, ..c.clone() };
            left.push(finished(cx, w, &other));
        }
    }
    w.reset();
    for l in &left {
        if let Ok(s) = l.as_ref() {
            w.restore(s);
        }
    }
    if sc.flag("tmpdir") {
        let _ = std::fs::create_dir_all(w.path("tmp"));
    } else {
        let _ = std::fs::remove_dir_all(w.path("tmp"));
    }
    w.chown_tree();
    let acts: Vec<Actor> = runs.iter().map(|(c, d)| sh(&actor_line(c, *d))).collect();
    let mut exp = sc.clone();
    let r = run_steps(w, sc, 0, &acts, &mut o, &mut exp);
    o.nontrivial = r.schedule.len() > 1;
    if r.hang {
        o.violate("no-end", "the runs did not end".to_string());
        o.expanded = Some(exp);
        return o;
    }
    let hurt: BTreeSet<usize> = r.procs.iter().filter(|p| p.killed || !p.fired.is_empty()).map(|p| p.actor).collect();
    for (k, (c, d)) in runs.iter().enumerate() {
        if hurt.contains(&k) {
            o.probe("one-run-hit");
            continue;
        }
        o.probe(if *d { "run-with-d" } else { "run" });
        if r.ends[k].code != 0 {
            let one = Run { ends: vec![r.ends[k].clone()], ..Default::default() };
            o.violate("disturbed-run-fails", format!("while {} others ran, {}", runs.len() - 1, describe(&actor_line(c, *d), &one)));
            break;
        }
        if let Ok(want) = wants[k].as_ref() {
            if let Some(x) = Results::read(w, c).differs_mat_count(want) {
                o.violate("disturbed-results", format!("`{}` while {} others ran: {x}", actor_line(c, *d), runs.len() - 1));
                break;
            }
        }
    }
    if o.bad.is_some() {
        o.expanded = Some(exp);
    }
    o.note = format!("{} decisions, {} switches", r.decisions, r.schedule.len());
    let _: Option<Schedule> = None;
    o
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C13",
        gen: gen_c13,
        run: run_c13,
        shrink: Some(shrink_cfg),
        quick: 4000,
        thorough: 40_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = the create, pair_single and pairs_rowsum jobs of a length in waves of up to four at a time, interleaved at every I/O operation by the seeded scheduler, some killed, failing, repeated or submitted twice, then sorting, joining and conversion compared with a sequential run; non-trivial: at least two jobs ran at a time or one was hit",
        assumptions: &["a job that was killed or failed is submitted again before the joining stage, as the documentation of SLURM dependencies implies"],
    },
    Check {
        id: "C16",
        gen: gen_c16,
        run: run_c16,
        shrink: None,
        quick: 1300,
        thorough: 40_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = two or three driver or script runs for different types or lengths in one directory, interleaved at every command start and I/O operation by the seeded scheduler, one of them killed or hit by a fault in half of them; non-trivial: at least two switches between runs",
        assumptions: &["the commands inside one run are sequential; a pipeline into tee counts as one step sequence"],
    },
];
