//! C08 I/O errors in the program stages, C09 failing steps in the scripts.
use super::answers::sorted_snap;
use super::flow::*;
use super::Check;
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{rule, Atom, Scenario};
use crate::world::{Actor, Plan, Proc, Run, Snap, World};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const ALL: &[Type] = &[Type::Qts, Type::Wts, Type::Ws];

/// An error a real system can give for an operation of this class.
pub fn pick_errno(rng: &mut Rng, cls: char) -> i64 {
    let errs: &[i64] = match cls {
        'o' => &[24, 13, 5, 2],
        'c' => &[13, 28, 30, 24],
        'r' => &[5],
        'w' => &[28, 5, 122],
        'W' => &[28, 32, 5],
        'd' => &[13, 28, 30],
        'D' => &[13, 24, 5],
        'e' => &[5],
        's' => &[13, 5],
        'm' => &[13, 5, 30],
        _ => &[5, 12],
    };
    *rng.pick(errs)
}
pub fn pick_fault(rng: &mut Rng, cls: char) -> (&'static str, i64) {
    match cls {
        'r' => match rng.below(4) {
            0 => ("eintr", 0),
            1 => ("short", 1 + rng.below(20) as i64),
            _ => ("err", 5),
        },
        'w' | 'W' => match rng.below(5) {
            0 => ("eintr", 0),
            1 => ("short", 1 + rng.below(4) as i64),
            2 => ("short", 0),
            _ => ("err", pick_errno(rng, cls)),
        },
        _ => ("err", pick_errno(rng, cls)),
    }
}
/// Choose an operation of a trace: the class first, so that rare ones are hit.
pub fn pick_op(rng: &mut Rng, trace: &[(u64, char, String)]) -> Option<(u64, char, String)> {
    if trace.is_empty() {
        return None;
    }
    if rng.chance(1, 3) {
        return Some(rng.pick(trace).clone());
    }
    let mut by: BTreeMap<char, Vec<usize>> = BTreeMap::new();
    for (k, t) in trace.iter().enumerate() {
        by.entry(t.1).or_default().push(k);
    }
    let keys: Vec<char> = by.keys().cloned().collect();
    let v = &by[rng.pick(&keys)];
    // boundaries more often than the middle
    let k = match rng.below(4) {
        0 => v[0],
        1 => v[v.len() - 1],
        _ => *rng.pick(v),
    };
    Some(trace[k].clone())
}

// ------------------------------------------------------------------ C08
const STAGES: &[&str] = &["pairs", "pairs", "pairs", "pairs_rowsum", "pair_single", "pair_single", "create", "rowsums", "join", "join", "join", "hm", "hm", "qhm", "qhm", "all", "amicable"];
/// Files a stage starts from.
fn prep(cx: &Cx, w: &mut World, c: &Cfg, stage: &str, rs: &str) -> Arc<Result<Snap, String>> {
    match stage {
        "join" => sorted_snap(cx, w, c),
        "hm" | "qhm" | "all" | "amicable" => {
            let s = sorted_snap(cx, w, c);
            cx.cached(&format!("joined {}", c.key()), || {
                let s = s.as_ref().as_ref().map_err(|e| e.clone())?;
                w.reset();
                w.restore(s);
                let mut o = Outcome::default();
                let line = format!("join {}", c.tn());
                let r = run_cmd(w, &quiet(), 0, Actor::node(&line), &mut o);
                let out = if r.ok() { Ok(w.snapshot("results")) } else { Err(describe(&line, &r)) };
                w.reset();
                out
            })
        }
        _ => cx.cached(&format!("empty {} {stage} {rs}", c.key()), || {
            w.reset();
            std::fs::create_dir_all(w.path(&c.dir())).map_err(|e| e.to_string())?;
            w.chown_tree();
            if stage == "pair_single" {
                let mut o = Outcome::default();
                let line = format!("create {} {rs} {}", c.tn(), c.pairing);
                let r = run_cmd(w, &quiet(), 0, Actor::node(&line), &mut o);
                if !r.ok() {
                    return Err(describe(&line, &r));
                }
            }
            let s = w.snapshot("results");
            w.reset();
            Ok(s)
        }),
    }
}
fn stage_line(c: &Cfg, stage: &str, rs: &str, pair: u64) -> String {
    match stage {
        "pairs" => format!("pairs {} {} {}", c.tn(), c.opt(), c.pairing),
        "pairs_rowsum" => format!("pairs_rowsum {} {rs} {} {}", c.tn(), c.opt(), c.pairing),
        "pair_single" => format!("pair_single {} {rs} {} {} {pair}", c.tn(), c.opt(), c.pairing),
        "create" => format!("create {} {rs} {}", c.tn(), c.pairing),
        "rowsums" => format!("rowsums {}", c.tn()),
        "join" => format!("join {}", c.tn()),
        "hm" => format!("convert hm {}", c.tn()),
        "qhm" => format!("convert qhm {}", c.tn()),
        "all" => format!("qhm-all {}", c.tn()),
        _ => format!("amicable {}", c.n),
    }
}
/// The rowsum decompositions of a type and length, as the program lists them.
pub fn rowsum_list(cx: &Cx, w: &mut World, c: &Cfg) -> Arc<Result<Vec<String>, String>> {
    cx.cached(&format!("rowsums {}", c.tn()), || {
        w.reset();
        std::fs::create_dir_all(w.path(&c.dir())).map_err(|e| e.to_string())?;
        w.chown_tree();
        let mut o = Outcome::default();
        let line = format!("rowsums {}", c.tn());
        let r = run_cmd(w, &quiet(), 0, Actor::node(&line), &mut o);
        let v = rowsums(w, c);
        w.reset();
        if !r.ok() {
            return Err(describe(&line, &r));
        }
        if v.is_empty() {
            return Err("no rowsums".into());
        }
        Ok(v)
    })
}
fn gen_c08(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let stage = *rng.pick(STAGES);
    let hm = stage == "hm";
    let types: &[Type] = if stage == "amicable" { &[Type::Qts] } else { ALL };
    let mut c = Cfg::pick(rng, if cx.thorough { 1500 } else { 180 }, types, &[Flow::Scripts], Some(hm));
    c.hm = false;
    if stage == "all" && c.n > 6 {
        c.n = 1 + c.n % 6;
    }
    let mut s = Scenario::new("C08");
    c.put(&mut s);
    s.put("stage", stage);
    let rs = match rowsum_list(cx, w, &c).as_ref() {
        Ok(v) => rng.pick(v).clone(),
        Err(_) => "1 1 1 1".into(),
    };
    s.put("rs", &rs);
    s.put("pair", rng.range(1, 2));
    s.atoms = random_env(rng);
    s.atoms.retain(|a| if let Atom::Env(_, t) = a { !t.starts_with("threads") } else { true });
    s.atoms.push(Atom::Env(None, "threads 1".into()));
    let p = prep(cx, w, &c, stage, &rs);
    let snap = match p.as_ref() {
        Ok(p) => p,
        Err(_) => return Some(s), // run() reports it
    };
    w.reset();
    w.restore(snap);
    let plan = Plan { trace: true, ..s.plan(0) };
    let r = w.run1(Actor::node(&stage_line(&c, stage, &rs, s.num("pair"))), &plan);
    let tr: Vec<(u64, char, String)> = r.procs.first().map(|p| p.trace.clone()).unwrap_or_default();
    let inputs: Vec<&String> = snap.iter().filter(|(p, e)| matches!(e, crate::world::Ent::File(_)) && !p.ends_with(".log")).map(|(p, _)| p).collect();
    match rng.below(11) {
        10 => {
            // memory runs out, for one allocation, for a while or for good
            let total = r.procs.first().map_or(0, |p| p.stat("mem")).max(1);
            let at = if rng.chance(1, 3) { total - rng.below(total.min(40)) } else { rng.range(1, total) };
            s.atoms.push(rule(1, "node", None, false, format!("nomem {at} {}", rng.pick(&[1, 1, 5, 0]))));
        }
        0 if !inputs.is_empty() && !["pairs", "pairs_rowsum", "pair_single", "create", "rowsums"].contains(&stage) => {
            let f = *rng.pick(&inputs);
            s.atoms.push(Atom::Step(format!("remove {f}")));
        }
        1 => {
            // the disk fills up
            let total = r.procs.first().map_or(0, |p| p.stat("wbytes"));
            s.atoms.push(rule(1, "node", None, false, format!("cap {}", rng.below(total.max(1)))));
        }
        2 | 3 => {
            if let Some((op, cls, path)) = pick_op(rng, &tr) {
                let e = pick_errno(rng, cls);
                let p = if rng.chance(1, 2) || path.is_empty() || path.contains(' ') { "*".to_string() } else { path };
                s.atoms.push(rule(1, "node", None, false, format!("sticky {op} {cls} {e} {p}")));
            }
        }
        _ => {
            for _ in 0..rng.range(1, 2) {
                if let Some((op, cls, _)) = pick_op(rng, &tr) {
                    let (k, a) = pick_fault(rng, cls);
                    s.atoms.push(rule(1, "node", None, false, format!("fault {op} {k} {a}")));
                }
            }
        }
    }
    Some(s)
}
fn run_c08(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome::default();
    let (stage, rs) = (sc.get("stage").to_string(), sc.get("rs").to_string());
    let p = prep(cx, w, &c, &stage, &rs);
    let snap = match p.as_ref() {
        Ok(s) => s,
        Err(e) => {
            o.violate("fault-free-run-fails", format!("{}: {e}", c.key()));
            return o;
        }
    };
    let line = stage_line(&c, &stage, &rs, sc.num("pair").max(1));
    w.reset();
    w.restore(snap);
    let clean = run_cmd(w, sc, 0, Actor::node(&line), &mut o);
    if !clean.ok() {
        if stage != "amicable" {
            o.violate("fault-free-run-fails", format!("without any fault, {}", describe(&line, &clean)));
        }
        return o;
    }
    let want = w.snapshot("results");
    let ops = clean.procs.first().map_or(0, |p| p.stat("ops"));
    w.reset();
    w.restore(snap);
    let mut removed = vec![];
    for st in sc.steps() {
        if let Some(f) = st.strip_prefix("remove ") {
            if std::fs::remove_file(w.path(f)).is_ok() {
                removed.push(f.to_string());
                o.probe("input-removed");
            }
        }
    }
    let plan = Plan { oplimit: ops * 2 + 2000, ..sc.plan(1) };
    let r = w.run1(Actor::node(&line), &plan);
    o.absorb(&r);
    o.nontrivial = r.fired() > 0 || !removed.is_empty();
    o.probe(&format!("stage-{stage}"));
    if r.hang || r.procs.iter().any(|p| p.code == Some(96) || p.flags.iter().any(|f| f.starts_with('L'))) {
        o.violate("no-end", format!("`{line}` went on after the fault without ending ({} operations without fault)", ops));
        return o;
    }
    if r.ends[0].code == 0 {
        o.probe("succeeded-despite-fault");
        let mut want = want;
        let mut got = w.snapshot("results");
        for f in &removed {
            want.remove(f);
            got.remove(f);
        }
        // without one of the inputs the directory order differs: compare sets then
        let d = if removed.is_empty() { file_diff(&want, &got) } else { file_diff(&sorted_lines(&want), &sorted_lines(&got)) };
        if let Some(d) = d {
            o.violate("success-with-lost-data", format!("`{line}` ended with status 0 although {}, but {d}", what_happened(&r, &removed)));
        } else if stage == "amicable" && r.ends[0].out != clean.ends[0].out {
            o.violate("success-with-lost-data", format!("`{line}` ended with status 0 although {}, but its verdict is about other sequences", what_happened(&r, &removed)));
        }
    } else {
        o.probe("failed");
    }
    o
}
fn sorted_lines(s: &Snap) -> Snap {
    s.iter().map(|(p, e)| {
        let e = match e {
            crate::world::Ent::File(b) => {
                let mut v = entries(p, &String::from_utf8_lossy(b));
                v.sort();
                crate::world::Ent::File(v.join("\n").into_bytes())
            }
            x => x.clone(),
        };
        (p.clone(), e)
    }).collect()
}
fn what_happened(r: &Run, removed: &[String]) -> String {
    let mut v: Vec<String> = removed.iter().map(|f| format!("{f} was missing")).collect();
    for p in &r.procs {
        for f in &p.fired {
            v.push(format!("{} hit operation {} ({})", f.1, f.0, f.2));
        }
    }
    v.join(", ")
}

// ------------------------------------------------------------------ C09
/// Processes of an undisturbed command with their operations.
fn stage_rank(p: &Proc) -> Option<u32> {
    let n = &p.name;
    Some(if n.starts_with("cargo") {
        0
    } else if n.starts_with("node pairs") {
        1
    } else if n.starts_with("sort") {
        2
    } else if n.starts_with("node join") {
        3
    } else if n.starts_with("node convert hm") {
        4
    } else if n.starts_with("node convert qhm") {
        5
    } else {
        return None;
    })
}
const C09: &[&str] = &["driver", "driver", "driver", "pairs", "sortpairs", "join", "hm", "qhm"];
fn script_line(c: &Cfg, which: &str, extra: &str) -> String {
    let x = match which {
        "driver" => c.driver(false),
        "pairs" => c.pairs(false),
        "sortpairs" => format!("./sortpairs.sh {}", c.tn()),
        "join" => format!("./join_pairs.sh {}", c.tn()),
        "hm" => format!("./convert_hm.sh {}", c.tn()),
        _ => format!("./convert_qhm.sh {}", c.tn()),
    };
    if extra.is_empty() {
        x
    } else {
        format!("{x} {extra}")
    }
}
fn script_prep(cx: &Cx, w: &mut World, c: &Cfg, which: &str) -> Arc<Result<Snap, String>> {
    match which {
        "driver" | "pairs" => cx.cached("nothing", || Ok(Snap::new())),
        "sortpairs" => cx.cached(&format!("paired {}", c.key()), || {
            w.reset();
            let mut o = Outcome::default();
            let r = run_cmd(w, &quiet(), 0, Actor::sh(&c.pairs(false)), &mut o);
            let s = if r.ok() { Ok(w.snapshot("results")) } else { Err(describe("./pairs.sh", &r)) };
            w.reset();
            s
        }),
        "join" => prep(cx, w, c, "join", ""),
        _ => prep(cx, w, c, "hm", ""),
    }
}
fn gen_c09(cx: &Cx, w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let which = *rng.pick(C09);
    let mut c = Cfg::pick(rng, if cx.thorough { 1500 } else { 200 }, ALL, &[Flow::Driver], None);
    if which == "hm" {
        c.hm = true;
    }
    if which == "pairs" || which == "sortpairs" || which == "join" || which == "qhm" {
        c.hm = false;
    }
    let mut s = Scenario::new("C09");
    c.put(&mut s);
    s.put("script", which);
    s.atoms = random_env(rng);
    let slurm = ["driver", "pairs", "sortpairs"].contains(&which) && rng.chance(1, 5);
    s.put("slurm", slurm as u8);
    let p = script_prep(cx, w, &c, which);
    let snap = match p.as_ref() {
        Ok(s) => s.clone(),
        Err(_) => return Some(s),
    };
    let extra = if slurm { "-s" } else { "" };
    let line = script_line(&c, which, extra);
    let procs = cx.cached(&format!("trace {line}"), || {
        w.reset();
        w.restore(&snap);
        let plan = Plan { trace: true, ..quiet().plan(0) };
        let r = w.run1(Actor::sh(&line).env("SLURM_TMPDIR", "tmp"), &plan);
        w.reset();
        r.procs
    });
    if which != "sortpairs" && rng.chance(1, 25) {
        s.atoms.push(Atom::Step("nobinary".into()));
        return Some(s);
    }
    // a step: program, sort, compile; sometimes one of the helpers
    let main: Vec<&Proc> = procs.iter().filter(|p| stage_rank(p).is_some()).collect();
    let help: Vec<&Proc> = procs.iter().filter(|p| stage_rank(p).is_none()).collect();
    let faults = if rng.chance(1, 4) { 2 } else { 1 };
    for k in 0..faults {
        let v = if (rng.chance(1, 6) || k > 0) && !help.is_empty() { &help } else { &main };
        if v.is_empty() {
            continue;
        }
        // each kind of step alike
        let mut kinds: Vec<u32> = v.iter().map(|p| stage_rank(p).unwrap_or(9)).collect();
        kinds.sort();
        kinds.dedup();
        let kd = *rng.pick(&kinds);
        let of: Vec<&&Proc> = v.iter().filter(|p| stage_rank(p).unwrap_or(9) == kd).collect();
        let p = **rng.pick(&of);
        let occ = procs.iter().take_while(|q| !std::ptr::eq(*q, p)).filter(|q| q.name.starts_with(&p.name)).count() as u64;
        let line = if p.name.starts_with("cargo") {
            match rng.below(3) {
                0 => "fault 0 killb".to_string(),
                _ => format!("fail {}", rng.pick(&[101, 1, 2])),
            }
        } else if p.name.starts_with("date") {
            "fail 1".into()
        } else {
            match rng.below(8) {
                0 => "fault 0 killb".into(),
                1 | 2 => match pick_op(rng, &p.trace) {
                    Some((op, _, _)) => format!("fault {op} {} 0", rng.pick(&["killb", "killa", "torn"])),
                    None => "fault 0 killb".into(),
                },
                3 => format!("cap {}", rng.below(p.stat("wbytes").max(1))),
                4 => match pick_op(rng, &p.trace) {
                    Some((op, cls, _)) => format!("sticky {op} {cls} {} *", pick_errno(rng, cls)),
                    None => "fault 0 killb".into(),
                },
                _ => match pick_op(rng, &p.trace) {
                    Some((op, cls, _)) => {
                        let (k, a) = pick_fault(rng, cls);
                        format!("fault {op} {k} {a}")
                    }
                    None => "fault 0 killb".into(),
                },
            }
        };
        s.atoms.push(rule(0, &p.name, Some(occ), false, line));
    }
    Some(s)
}
fn run_c09(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome::default();
    let which = sc.get("script").to_string();
    let p = script_prep(cx, w, &c, &which);
    let snap = match p.as_ref() {
        Ok(s) => s,
        Err(e) => {
            o.violate("fault-free-run-fails", format!("{}: {e}", c.key()));
            return o;
        }
    };
    let line = script_line(&c, &which, if sc.flag("slurm") { "-s" } else { "" });
    let calm = {
        let mut s = sc.clone();
        s.atoms.retain(|a| matches!(a, Atom::Env(..)));
        s
    };
    w.reset();
    w.restore(snap);
    let act = || Actor::sh(&line).env("SLURM_TMPDIR", "tmp");
    if sc.flag("slurm") {
        let _ = std::fs::create_dir_all(w.path("tmp"));
        w.chown_tree();
    }
    let clean = run_cmd(w, &calm, 0, act(), &mut o);
    if !clean.ok() {
        o.violate("fault-free-run-fails", format!("without any fault, {}", describe(&line, &clean)));
        return o;
    }
    let want = state(w, &c, &which);
    w.reset();
    w.restore(snap);
    if sc.flag("slurm") {
        let _ = std::fs::create_dir_all(w.path("tmp"));
    }
    w.chown_tree();
    let mut broken = false;
    let mut nobin = false;
    for st in sc.steps() {
        if st == "nobinary" {
            nobin = true;
            o.probe("binary-missing");
        }
    }
    let r = if nobin {
        w.run_without_program(&[act()], &sc.plan(0))
    } else {
        w.run1(act(), &sc.plan(0))
    };
    o.absorb(&r);
    o.nontrivial = r.fired() > 0 || nobin;
    if r.hang {
        o.violate("no-end", format!("`{line}` did not end"));
        return o;
    }
    let mut first: Option<(u32, String)> = None;
    for p in &r.procs {
        let k = match stage_rank(p) {
            Some(k) => k,
            None => continue,
        };
        if let Some((f, name)) = &first {
            if k > *f {
                o.violate("later-stage-started", format!("`{line}` started `{}` after `{name}` had failed", p.name));
                return o;
            }
        }
        let bad = p.killed || p.code != Some(0);
        if bad {
            broken = true;
            o.probe("step-failed");
            if first.is_none() {
                first = Some((k, p.name.clone()));
            }
        }
    }
    if r.ends[0].code == 0 {
        if broken {
            o.violate("failure-not-reported", format!("`{line}` ended with status 0 although `{}` failed", first.unwrap().1));
        } else if nobin {
            o.violate("failure-not-reported", format!("`{line}` ended with status 0 although the program is missing"));
        } else if let Some(d) = want.differs(&state(w, &c, &which)) {
            o.violate("success-with-incomplete-results", format!("`{line}` ended with status 0 although {}, but {d}", what_happened(&r, &[])));
        }
    }
    o
}
/// The files a script is responsible for, compared as sets of lines.
struct State(BTreeMap<String, Vec<String>>);
fn state(w: &World, c: &Cfg, which: &str) -> State {
    let mut m = BTreeMap::new();
    for (p, e) in w.snapshot(&c.dir()) {
        if let crate::world::Ent::File(b) = e {
            let f = p.rsplit('/').next().unwrap_or("").to_string();
            let t = String::from_utf8_lossy(&b).into_owned();
            let keep = match which {
                "pairs" => f.ends_with(".pair") || f.starts_with("seq_"),
                "sortpairs" => f.ends_with(".sorted") || f.starts_with("seq_"),
                _ => f.starts_with("result") && f != "result.log",
            };
            if keep {
                let mut v = if f == "result.mat" { t.lines().map(|l| format!("matrix of {}", l.len())).collect() } else { entries(&f, &t) };
                if !f.ends_with(".sorted") {
                    v.sort();
                }
                m.insert(p, v);
            }
        }
    }
    State(m)
}
impl State {
    fn differs(&self, b: &State) -> Option<String> {
        for (p, v) in &self.0 {
            match b.0.get(p) {
                None => return Some(format!("{p} is missing")),
                Some(x) if x == v => {}
                Some(x) => return Some(format!("{p} has {} entries instead of {}", x.len(), v.len())),
            }
        }
        None
    }
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C08",
        gen: gen_c08,
        run: run_c08,
        shrink: Some(shrink_cfg),
        quick: 5000,
        thorough: 200_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = one program stage on prepared inputs, executed without and with injected I/O faults (error, interruption, short transfer, persistent error, full disk, missing input) at an operation drawn from its trace; non-trivial: a fault was injected",
        assumptions: &["faults are injected at the libc boundary of the program", "a file that disappeared together with its whole rowsum directory cannot be noticed and is not used"],
    },
    Check {
        id: "C09",
        gen: gen_c09,
        run: run_c09,
        shrink: Some(shrink_cfg),
        quick: 2200,
        thorough: 100_000,
        cap_quick: 150,
        cap_thorough: 3000,
        rule: "one scenario = one script run without and with a failing, killed or faulty step drawn from its trace; non-trivial: a fault was injected or the binary removed",
        assumptions: &["a step counts as failed when its process was killed or returned a non-zero status"],
    },
];
