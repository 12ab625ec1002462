//! Seeded search: generates scenarios, runs them on parallel simulated machines,
//! confirms and minimises violations, writes the evidence.
use crate::checks::Check;
use crate::math::*;
use crate::rng::{hash_str, mix, Rng};
use crate::scenario::Scenario;
use crate::world::{Run, World, SCRIPTS, TOOLS};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Cx {
    pub root: PathBuf,
    pub refs: BTreeMap<(Type, usize), Vec<Quad>>,
    /// Valid quadruples of lengths beyond the complete tables.
    pub long: BTreeMap<(Type, usize), Vec<Quad>>,
    pub thorough: bool,
    pub seed: u64,
    pub cache: Mutex<HashMap<String, Arc<dyn Any + Send + Sync>>>,
}
impl Cx {
    /// Value computed once per key (a pure function of the key and the tree).
    pub fn cached<T: Any + Send + Sync>(&self, key: &str, f: impl FnOnce() -> T) -> Arc<T> {
        if let Some(v) = self.cache.lock().unwrap().get(key) {
            return v.clone().downcast::<T>().expect("cache type");
        }
        let v = Arc::new(f());
        self.cache.lock().unwrap().entry(key.into()).or_insert(v).clone().downcast::<T>().expect("cache type")
    }
    pub fn classes(&self, t: Type, n: usize) -> BTreeSet<Canon> {
        self.refs.get(&(t, n)).map(|v| v.iter().map(|q| canonical(t, q, n)).collect()).unwrap_or_default()
    }
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub bad: Option<(String, String)>, // class of violation, explanation
    pub err: Option<String>,           // harness error
    pub digest: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_ns: i64,
    pub procs: u64,
    pub switches: u64,
    pub nontrivial: bool,
    pub note: String,
    /// The scenario with drawn choices written out, on a violation.
    pub expanded: Option<Scenario>,
}
impl Outcome {
    pub fn absorb(&mut self, r: &Run) {
        self.digest = mix(&[self.digest, r.digest]);
        self.sim_ns += r.sim_ns;
        self.procs += r.procs.len() as u64;
        self.switches += r.schedule.len() as u64;
        for p in &r.procs {
            self.switches += p.stat("sw");
            for f in &p.fired {
                *self.fired.entry(format!("{}:{}", f.1, class_name(f.2))).or_default() += 1;
            }
            if p.preempts > 0 {
                *self.fired.entry("preemption:thread".into()).or_default() += p.preempts;
            }
        }
        if let Some(e) = r.harness_error() {
            self.err = Some(e);
        }
        if self.bad.is_none() {
            for p in &r.procs {
                if let Some(f) = p.flags.iter().find(|f| f.starts_with('V')) {
                    self.violate("escape", f.clone());
                }
            }
        }
    }
    pub fn violate(&mut self, key: &str, msg: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some((key.into(), msg.into()));
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1;
    }
}
fn class_name(c: char) -> &'static str {
    match c {
        'o' => "open-read",
        'c' => "create",
        'r' => "read",
        'w' => "write",
        'W' => "stdout",
        'd' => "mkdir",
        'D' => "opendir",
        'e' => "readdir",
        's' => "stat",
        'm' => "rename-remove",
        'f' => "sync",
        'a' => "allocation",
        'T' => "thread-start",
        't' => "command",
        '0' => "start",
        _ => "other",
    }
}
pub fn load_refs(dir: &Path) -> BTreeMap<(Type, usize), Vec<Quad>> {
    let mut m: BTreeMap<(Type, usize), Vec<Quad>> = BTreeMap::new();
    for t in [Type::Qts, Type::Wts, Type::Ws] {
        let s = fs::read_to_string(dir.join(format!("{}.txt", t.name()))).expect("reference table");
        for l in s.lines() {
            let (n, q) = l.split_once(' ').unwrap();
            let n: usize = n.parse().unwrap();
            m.entry((t, n)).or_default().push(decode(q).unwrap().0);
        }
    }
    m
}
pub fn load_long(dir: &Path) -> BTreeMap<(Type, usize), Vec<Quad>> {
    let mut m: BTreeMap<(Type, usize), Vec<Quad>> = BTreeMap::new();
    for l in fs::read_to_string(dir.join("long.txt")).expect("long table").lines() {
        let x: Vec<&str> = l.split(' ').collect();
        let (t, n, q) = (Type::parse(x[0]).unwrap(), x[1].parse().unwrap(), decode(x[2]).unwrap().0);
        m.entry((t, n)).or_default().push(q);
    }
    m
}
pub fn make_root(base: &str, repo: &Path, node: &Path, inst: Option<&Path>) -> PathBuf {
    let root = PathBuf::from(format!("{base}/vsim-{}", std::process::id()));
    let _ = fs::remove_dir_all(&root);
    fs::create_dir_all(root.join("bin")).expect("scratch root");
    fs::create_dir_all(root.join("scripts")).unwrap();
    let me = std::env::current_exe().unwrap();
    fs::copy(&me, root.join("bin/vsim-tool")).unwrap();
    for t in TOOLS {
        std::os::unix::fs::symlink(root.join("bin/vsim-tool"), root.join("bin").join(t)).unwrap();
    }
    fs::copy(node, root.join("bin/node")).expect("node binary");
    if let Some(i) = inst {
        fs::copy(i, root.join("bin/inst")).expect("instrumented node binary");
    }
    for s in SCRIPTS {
        let f = repo.join("rust").join(s);
        if f.exists() {
            fs::copy(&f, root.join("scripts").join(s)).unwrap();
        }
    }
    root
}
pub struct RootGuard(pub PathBuf);
impl Drop for RootGuard {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    digests: HashSet<u64>,
    nontrivial: HashSet<u64>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sim_ns: i128,
    procs: u64,
    switches: u64,
    samples: Vec<(u64, String)>,
    repeats: u64,
    repeats_same: u64,
    errors: Vec<String>,
    skipped: u64,
    unconfirmed: Vec<String>,
}

pub fn execute(ck: &Check, cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    w.reset();
    let mut o = (ck.run)(cx, w, sc);
    o.digest = mix(&[o.digest, o.bad.as_ref().map_or(0, |b| hash_str(&b.0))]);
    o
}
fn same(o: &Outcome, key: &str) -> bool {
    o.err.is_none() && o.bad.as_ref().map_or(false, |b| b.0 == key)
}
fn minimise(ck: &Check, cx: &Cx, w: &mut World, sc: &Scenario, key: &str, budget: Duration) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut tries = 0;
    // smaller instances first
    if let Some(sh) = ck.shrink {
        let mut progress = true;
        while progress && t0.elapsed() < budget / 2 {
            progress = false;
            for c in sh(&best) {
                tries += 1;
                if same(&execute(ck, cx, w, &c), key) {
                    best = c;
                    progress = true;
                    break;
                }
                if t0.elapsed() > budget / 2 {
                    break;
                }
            }
        }
    }
    let mut size = best.atoms.len().max(1);
    loop {
        let mut progress = false;
        let mut i = 0;
        while i < best.atoms.len() {
            if t0.elapsed() > budget {
                return (best, tries);
            }
            let mut c = best.clone();
            let end = (i + size).min(c.atoms.len());
            c.atoms.drain(i..end);
            tries += 1;
            if same(&execute(ck, cx, w, &c), key) {
                best = c;
                progress = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !progress {
            break;
        }
        if !progress || size > best.atoms.len() {
            size = (size / 2).max(1);
        }
        if best.atoms.is_empty() {
            break;
        }
    }
    (best, tries)
}
pub fn known_findings(path: &Path, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
            if p == prop {
                v.push((k.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}
pub struct Opts {
    pub prop: String,
    pub verif: PathBuf,
    pub workers: usize,
    pub limit: Option<u64>,
    pub only: Option<u64>,
    pub verbose: bool,
}
/// Exit code of the check.
pub fn check(cx: Arc<Cx>, op: &Opts, build_s: f64) -> i32 {
    let ck = match crate::checks::find(&op.prop) {
        Some(c) => c,
        None => {
            eprintln!("no such check");
            return 2;
        }
    };
    let t0 = Instant::now();
    let total = op.limit.unwrap_or(if cx.thorough { ck.thorough } else { ck.quick });
    let cap = Duration::from_secs(if cx.thorough { ck.cap_thorough } else { ck.cap_quick });
    println!("check {} tier={} seed={} scenarios={total}", ck.id, if cx.thorough { "thorough" } else { "quick" }, cx.seed);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let found: Mutex<Vec<(u64, Scenario, String, String)>> = Mutex::new(vec![]);
    let known = known_findings(&op.verif.join("known-findings.txt"), ck.id);
    let hit_known: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    std::thread::scope(|s| {
        for k in 0..op.workers {
            let (next, stop, totals, found, cx, known, hit_known) = (&next, &stop, &totals, &found, &cx, &known, &hit_known);
            let builder = std::thread::Builder::new().name(format!("w{k}"));
            builder
                .spawn_scoped(s, move || {
                    let mut w = World::new(&cx.root, k);
                    loop {
                        let i = match op.only {
                            Some(i) => {
                                if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                    break;
                                }
                                i
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if (op.only.is_none() && i >= total) || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            totals.lock().unwrap().skipped += 1;
                            continue;
                        }
                        let mut rng = Rng::new(mix(&[cx.seed, hash_str(ck.id), i]));
                        w.reset();
                        let sc = match (ck.gen)(cx, &mut w, i, &mut rng) {
                            Some(s) => s,
                            None => continue,
                        };
                        let tr = Instant::now();
                        let mut o = execute(ck, cx, &mut w, &sc);
                        if op.verbose {
                            println!("#{i} {:.2}s {:?} {:?} {:?} {} | {}", tr.elapsed().as_secs_f64(), o.bad, o.err, o.fired, o.note, sc.text().lines().skip(2).collect::<Vec<_>>().join("; "));
                        }
                        if o.err.is_some() {
                            // once more; a persistent one is an error of the harness
                            let o2 = execute(ck, cx, &mut w, &sc);
                            if o2.err.is_some() {
                                let mut t = totals.lock().unwrap();
                                t.errors.push(format!("#{i}: {}", o2.err.clone().unwrap()));
                                if t.errors.len() > 20 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                                continue;
                            }
                            o = o2;
                        }
                        let repeat = mix(&[cx.seed, i, 77]) % 40 == 0 && o.bad.is_none();
                        let rep = if repeat { Some(execute(ck, cx, &mut w, &sc).digest == o.digest) } else { None };
                        {
                            let mut t = totals.lock().unwrap();
                            t.runs += 1;
                            t.digests.insert(o.digest);
                            if o.nontrivial {
                                t.nontrivial.insert(o.digest);
                            }
                            for (k, v) in &o.fired {
                                *t.fired.entry(k.clone()).or_default() += v;
                            }
                            for (k, v) in &o.probes {
                                *t.probes.entry(k.clone()).or_default() += v;
                            }
                            t.sim_ns += o.sim_ns as i128;
                            t.procs += o.procs;
                            t.switches += o.switches;
                            if let Some(r) = rep {
                                t.repeats += 1;
                                t.repeats_same += r as u64;
                                if !r {
                                    t.unconfirmed.push(format!("#{i}: repetition differed"));
                                }
                            }
                            if t.samples.len() < 4 || (i % 97 == 0 && t.samples.len() < 8) {
                                t.samples.push((i, format!("{} => {}{}", sc.text().lines().skip(2).collect::<Vec<_>>().join("; "), o.note, if o.bad.is_some() { " VIOLATION" } else { " ok" })));
                            }
                        }
                        if let Some((key, msg)) = o.bad.clone() {
                            if known.iter().any(|k| k.0 == key) {
                                hit_known.lock().unwrap().insert(key);
                                continue;
                            }
                            let sc = match o.expanded {
                                Some(e) if same(&execute(ck, cx, &mut w, &e), &key) => e,
                                _ => sc,
                            };
                            let again = (0..3).any(|_| same(&execute(ck, cx, &mut w, &sc), &key));
                            if again {
                                found.lock().unwrap().push((i, sc, key, msg));
                                stop.store(true, Ordering::SeqCst);
                            } else {
                                totals.lock().unwrap().unconfirmed.push(format!("#{i}: {key}: {msg} (not confirmed by a second execution)"));
                            }
                        }
                    }
                })
                .expect("thread");
        }
    });
    let t = totals.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let search_s = t0.elapsed().as_secs_f64();
    for (k, d) in &known {
        // listed findings are announced on every run
        let _ = k;
        println!("KNOWN-FINDING: property={} {}", ck.id, d);
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, sc, key, msg)) = found.into_iter().next() {
        nviol = 1;
        let mut w = World::new(&cx.root, 90);
        // an execution that does not end takes minutes to tell
        let budget = if msg.contains("did not end") { 0 } else if cx.thorough { 240 } else { 60 };
        let (mut min, tries) = minimise(ck, &cx, &mut w, &sc, &key, Duration::from_secs(budget));
        let last = execute(ck, &cx, &mut w, &min);
        let msg = if same(&last, &key) { last.bad.unwrap().1 } else { min = sc.clone(); msg };
        let dir = op.verif.join("evidence/replays");
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.replay", ck.id, cx.seed));
        let text = format!("{}# found by scenario {i} of seed {}, {} atoms before minimisation, {} after ({tries} executions)\n# violation {key}: {}\n", min.text(), cx.seed, sc.atoms.len(), min.atoms.len(), msg.replace('\n', " | "));
        fs::write(&p, text).expect("replay file");
        println!("{key}: {msg}");
        println!("VIOLATION property={} replay={}", ck.id, p.display());
        code = 1;
    } else if !t.errors.is_empty() {
        eprintln!("harness errors: {:?}", &t.errors[..t.errors.len().min(5)]);
        code = 2;
    } else if t.runs == 0 {
        eprintln!("nothing was executed");
        code = 2;
    }
    for u in t.unconfirmed.iter().take(5) {
        println!("note: {u}");
    }
    let hours = search_s.max(0.001) / 3600.0;
    let js = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let mut samples = t.samples.clone();
    samples.sort();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"wall_s\": {:.2},\n \"violations\": {nviol},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"distinct_executions\": {},\n  \"planned_scenarios\": {total},\n  \"scenarios_left_out_by_time_cap\": {},\n  \"simulated_runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3},\n  \"processes_simulated\": {},\n  \"context_switches\": {},\n  \"faults_injected\": {},\n  \"reach_probes\": {},\n  \"determinism\": {{\"executions_repeated\": {}, \"identical\": {}}},\n  \"distinctness_measure\": \"hash over every process's operation sequence, faults, exit status and thread schedule\",\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"build_s\": {build_s:.1},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}]\n}}\n",
        js(ck.id),
        js(if cx.thorough { "thorough" } else { "quick" }),
        cx.seed,
        t0.elapsed().as_secs_f64() + build_s,
        t.runs,
        t.nontrivial.len(),
        js(ck.rule),
        t.digests.len(),
        t.skipped,
        t.runs as f64 / hours,
        t.runs as f64 / hours,
        t.sim_ns as f64 / 1e9,
        t.procs,
        t.switches,
        map(&t.fired),
        map(&t.probes),
        t.repeats,
        t.repeats_same,
        js("the whole Rust program of the working tree (all of rust/src, std, rayon, nauty), the shell scripts of the working tree under bash"),
        js("FFTW (replaced by an exact-plan family of real DFTs), sort, tee, rm, mkdir, mv, date, cargo (simulated tools), clock, randomness, directory order, disk faults"),
        samples.iter().map(|s| js(&format!("#{} {}", s.0, s.1))).collect::<Vec<_>>().join(", "),
        ck.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    );
    fs::create_dir_all(op.verif.join("evidence")).ok();
    fs::write(op.verif.join("evidence").join(format!("{}.json", ck.id)), ev).expect("evidence");
    println!("{} scenarios executed, {} distinct executions, {} faults, {:.1} s", t.runs, t.digests.len(), t.fired.values().sum::<u64>(), search_s);
    code
}
pub fn replay(cx: Arc<Cx>, path: &Path) -> i32 {
    let t = fs::read_to_string(path).expect("replay file");
    let sc = Scenario::parse(&t).expect("replay file format");
    let ck = crate::checks::find(&sc.prop).expect("property");
    let mut w = World::new(&cx.root, 0);
    let o = execute(ck, &cx, &mut w, &sc);
    println!("digest {:016x} {}", o.digest, o.note);
    if let Some(e) = o.err {
        println!("harness error: {e}");
        return 2;
    }
    match o.bad {
        Some((k, m)) => {
            println!("{k}: {m}");
            println!("VIOLATION property={} replay={}", sc.prop, path.display());
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
