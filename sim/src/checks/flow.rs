//! Ways of running the system: configurations, execution flows, environments,
//! and reading the result files.
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::{Atom, Scenario};
use crate::world::{Actor, Ent, Run, Snap, World};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Flow {
    Driver,
    Scripts,
    Jobs,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cfg {
    pub t: Type,
    pub n: usize,
    pub pairing: String,
    pub corr: bool,
    pub hm: bool,
    pub flow: Flow,
}
pub const PAIRINGS: [&str; 3] = ["WX", "WY", "WZ"];
/// Measured cost of a complete run in milliseconds (order of magnitude).
pub fn cost(t: Type, n: usize, hm: bool) -> u64 {
    let base = match t {
        Type::Qts => [100, 100, 100, 100, 100, 110, 120, 160, 300, 2600, 1000, 8000, 12000, 60000],
        Type::Wts => [100, 100, 100, 100, 100, 110, 120, 150, 260, 5200, 800, 5300, 8600, 60000],
        Type::Ws => [90, 90, 90, 90, 90, 90, 90, 90, 90, 90, 90, 120, 120, 3700],
    };
    let h = match (t, n) {
        (_, 0..=9) => 30,
        (Type::Ws, 10..=11) => 100,
        (Type::Ws, 12..=13) => 1700,
        (Type::Ws, 14) => 25000,
        (Type::Wts, 10) => 3600,
        (_, 10..=11) => 1000,
        (_, 12..=13) => 4000,
        _ => 100000,
    };
    let b = match (t, n) {
        (_, 0..=14) => base[n - 1],
        // many sequences, all of them reduced symbolically
        (Type::Ws, 18) => 28_000,
        (Type::Ws, _) => 100 + (1 << (n - 13)) * 12,
        _ => 600_000,
    };
    b + if hm { h } else { 0 }
}
impl Cfg {
    pub fn pick(rng: &mut Rng, budget: u64, types: &[Type], flows: &[Flow], hm: Option<bool>) -> Cfg {
        loop {
            let t = *rng.pick(types);
            let hm = hm.unwrap_or_else(|| rng.chance(1, 3));
            let n = rng.range(1, if t == Type::Ws { 18 } else { 14 }) as usize;
            let flow = *rng.pick(flows);
            let c = Cfg { t, n, pairing: rng.pick(&PAIRINGS).to_string(), corr: rng.chance(2, 5), hm, flow };
            // dear instances are drawn more rarely
            let k = cost(t, n, hm);
            if k <= budget && rng.below(budget.max(400)) > k / 4 {
                return c;
            }
        }
    }
    pub fn put(&self, s: &mut Scenario) {
        s.put("type", self.t.name());
        s.put("n", self.n);
        s.put("pairing", &self.pairing);
        s.put("corr", self.corr as u8);
        s.put("hm", self.hm as u8);
        s.put("flow", match self.flow {
            Flow::Driver => "driver",
            Flow::Scripts => "scripts",
            Flow::Jobs => "jobs",
        });
    }
    pub fn of(s: &Scenario) -> Cfg {
        Cfg {
            t: Type::parse(s.get("type")).unwrap_or(Type::Qts),
            n: s.num("n") as usize,
            pairing: s.get("pairing").into(),
            corr: s.flag("corr"),
            hm: s.flag("hm"),
            flow: match s.get("flow") {
                "scripts" => Flow::Scripts,
                "jobs" => Flow::Jobs,
                _ => Flow::Driver,
            },
        }
    }
    pub fn key(&self) -> String {
        format!("{} {} {} {} {} {:?}", self.t.name(), self.n, self.pairing, self.corr, self.hm, self.flow)
    }
    pub fn dir(&self) -> String {
        dir(self.t, self.n)
    }
    pub fn opt(&self) -> &'static str {
        if self.corr {
            "correlation"
        } else {
            "psd"
        }
    }
    pub fn tn(&self) -> String {
        format!("{} {}", self.t.name(), self.n)
    }
    pub fn flags(&self) -> String {
        format!("-p {}{}", self.pairing, if self.corr { " -c" } else { "" })
    }
    pub fn driver(&self, delete: bool) -> String {
        format!("./driver.sh {} {}{}{}", self.tn(), self.flags(), if self.hm { " -h" } else { "" }, if delete { " -d" } else { "" })
    }
    pub fn pairs(&self, delete: bool) -> String {
        format!("./pairs.sh {} {}{}", self.tn(), self.flags(), if delete { " -d" } else { "" })
    }
    /// The commands of the script flow.
    pub fn scripts(&self, delete: bool) -> Vec<String> {
        let mut v = vec![self.pairs(delete), format!("./sortpairs.sh {}", self.tn()), format!("./join_pairs.sh {}", self.tn())];
        if self.hm {
            v.push(format!("./convert_hm.sh {}", self.tn()));
        }
        v.push(format!("./convert_qhm.sh {}", self.tn()));
        v
    }
    /// Smaller or plainer configurations, for minimisation.
    pub fn smaller(&self) -> Vec<Cfg> {
        let mut v = vec![];
        for n in 1..self.n {
            v.push(Cfg { n, ..self.clone() });
        }
        if self.corr {
            v.push(Cfg { corr: false, ..self.clone() });
        }
        if self.hm {
            v.push(Cfg { hm: false, ..self.clone() });
        }
        if self.pairing != "WZ" {
            v.push(Cfg { pairing: "WZ".into(), ..self.clone() });
        }
        if self.flow != Flow::Driver {
            v.push(Cfg { flow: Flow::Driver, ..self.clone() });
        }
        v
    }
}
pub fn shrink_cfg(s: &Scenario) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = Cfg::of(s).smaller().into_iter().map(|c| {
        let mut x = s.clone();
        c.put(&mut x);
        x
    }).collect();
    if s.flag("batch") {
        let mut x = s.clone();
        x.put("batch", 0);
        v.push(x);
    }
    v
}
pub fn dir(t: Type, n: usize) -> String {
    format!("results/pairs/{}/find_{n}", t.name())
}

/// Environment choices that apply to every process of a scenario.
pub fn random_env(rng: &mut Rng) -> Vec<Atom> {
    let mut v = vec![];
    let mut add = |t: String| v.push(Atom::Env(None, t));
    if rng.chance(4, 5) {
        add(format!("hash {}", rng.range(1, 1 << 30)));
    }
    if rng.chance(4, 5) {
        add(format!("dir {}", rng.range(1, 1 << 30)));
    }
    if rng.chance(1, 6) {
        add("dtype unknown".into());
    }
    match rng.below(4) {
        0 => {}
        1 => add(format!("fft {}", rng.below(8))),
        _ => add(format!("fftmix {}", rng.range(1, 1 << 30))),
    }
    if rng.chance(1, 4) {
        add(format!("clockstep {}", *rng.pick(&[1_000u64, 5_000_000, 900_000_000, 70_000_000_000])));
    }
    if rng.chance(1, 4) {
        let big = [3_600_000_000_000i64, -3_600_000_000_000, -1_000_000_000, 86_400_000_000_000_000, -1_699_999_990_000_000_000];
        add(format!("jump {} {}", rng.below(30), *rng.pick(&big)));
    }
    if rng.chance(2, 3) {
        add(format!("threads {}", if rng.chance(1, 10) { rng.range(9, 32) } else { rng.range(1, 8) }));
    }
    if rng.chance(1, 3) {
        add(format!("locale {}", rng.pick(&["en_US.UTF-8", "de_DE.UTF-8", "POSIX"])));
    }
    v
}

pub fn run_cmd(w: &mut World, sc: &Scenario, phase: usize, a: Actor, o: &mut Outcome) -> Run {
    let r = w.run1(a, &sc.plan(phase));
    o.absorb(&r);
    r
}
pub fn describe(cmd: &str, r: &Run) -> String {
    let e = &r.ends[0];
    let tail = |s: &str| s.lines().rev().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
    if r.hang {
        return format!("`{cmd}` did not end");
    }
    format!("`{cmd}` ended with status {}: {} {}", e.code, tail(&e.out), tail(&e.err))
}
/// Run a whole flow with the scenario's plan (phases base, base+1, ...), one
/// command after the other; the error names the command that failed.
pub fn run_flow(w: &mut World, sc: &Scenario, c: &Cfg, delete: bool, base: usize, o: &mut Outcome) -> Result<usize, String> {
    let mut ph = base;
    let mut go = |w: &mut World, line: &str, o: &mut Outcome| -> Result<(), String> {
        // the steps that know of SLURM jobs, told that they are part of one
        let takes_s = ["./driver.sh ", "./pairs.sh ", "./sortpairs.sh "].iter().any(|x| line.starts_with(x));
        let a = if let Some(l) = line.strip_prefix("node ") {
            Actor::node(l)
        } else if takes_s && sc.flag("batch") {
            let _ = std::fs::create_dir_all(w.path("jobtmp"));
            w.chown_tree();
            Actor::sh(&format!("{line} -s")).env("SLURM_TMPDIR", "jobtmp")
        } else {
            Actor::sh(line)
        };
        let r = run_cmd(w, sc, ph, a, o);
        ph += 1;
        if r.ok() {
            Ok(())
        } else {
            Err(describe(line, &r))
        }
    };
    match c.flow {
        Flow::Driver => go(w, &c.driver(delete), o)?,
        Flow::Scripts => {
            for s in c.scripts(delete) {
                go(w, &s, o)?;
            }
        }
        Flow::Jobs => {
            go(w, &format!("mkdir -p {}", c.dir()), o)?;
            go(w, &format!("node rowsums {}", c.tn()), o)?;
            let rs = rowsums(w, c);
            for r in &rs {
                go(w, &format!("node create {} {r} {}", c.tn(), c.pairing), o)?;
            }
            for (k, r) in rs.iter().enumerate() {
                for p in [1 + (k + c.n) % 2, 2 - (k + c.n) % 2] {
                    go(w, &format!("node pair_single {} {r} {} {} {p}", c.tn(), c.opt(), c.pairing), o)?;
                }
            }
            for s in &c.scripts(false)[1..] {
                go(w, s, o)?;
            }
        }
    }
    Ok(ph)
}
/// Rowsum decompositions as written by the `rowsums` stage.
pub fn rowsums(w: &World, c: &Cfg) -> Vec<String> {
    w.text(&format!("{}/rowsums.quad", c.dir())).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}
/// A quiet scenario (default environment, no faults).
pub fn quiet() -> Scenario {
    Scenario::new("-")
}
/// The result files of an undisturbed default run of this configuration's type
/// and length, or the reason why it failed.  Computed once.
pub fn undisturbed(cx: &Cx, w: &mut World, c: &Cfg) -> Arc<Result<Results, String>> {
    let key = format!("undisturbed {}", c.key());
    cx.cached(&key, || {
        w.reset();
        let mut o = Outcome::default();
        let r = run_flow(w, &quiet(), c, false, 0, &mut o);
        let out = match (r, o.err) {
            (_, Some(e)) => Err(e),
            (Err(e), _) => Err(e),
            (Ok(_), None) => Ok(Results::read(w, c)),
        };
        w.reset();
        out
    })
}
/// Result files as sets of entries, independent of their order.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Results {
    pub files: BTreeMap<String, Option<Vec<String>>>,
}
pub const RESULT_FILES: [&str; 6] = ["result.seq", "result.qseq", "result-qts.seq", "result-qts.qseq", "result.qhm", "result.mat"];
/// Entries of a result file: lines, or blocks for the multi-line formats.
pub fn entries(file: &str, text: &str) -> Vec<String> {
    if file.ends_with(".qhm") {
        let mut v: Vec<String> = vec![];
        let mut cur = String::new();
        for l in text.lines() {
            if l.trim().is_empty() {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            } else {
                cur += l;
                cur += "\n";
            }
        }
        if !cur.is_empty() {
            v.push(cur);
        }
        return v;
    }
    if file.ends_with(".qseq") {
        return qseq_blocks(text);
    }
    text.lines().map(|l| l.to_string()).collect()
}
/// The quadruples of a .qseq file, each as four +- strings joined with spaces.
pub fn qseq_blocks(text: &str) -> Vec<String> {
    let rows: Vec<String> = text.split(|c: char| c == '[' || c == ']').map(|p| p.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>()).filter(|p| !p.is_empty()).collect();
    rows.chunks(4).map(|c| c.join(" ")).collect()
}
impl Results {
    pub fn read(w: &World, c: &Cfg) -> Results {
        let mut files = BTreeMap::new();
        for f in RESULT_FILES {
            if f == "result.mat" && !c.hm {
                continue;
            }
            if f.starts_with("result-qts") && c.t != Type::Wts {
                continue;
            }
            files.insert(f.to_string(), w.text(&format!("{}/{f}", c.dir())).map(|t| {
                let mut v = entries(f, &t);
                v.sort();
                v
            }));
        }
        Results { files }
    }
    /// Why `self` differs from the expected results.
    pub fn differs(&self, want: &Results) -> Option<String> {
        for (f, a) in &want.files {
            let b = self.files.get(f).cloned().flatten();
            match (a, b) {
                (Some(a), Some(b)) if *a == b => {}
                (None, None) => {}
                (Some(a), Some(b)) => {
                    let sa: BTreeSet<_> = a.iter().collect();
                    let sb: BTreeSet<_> = b.iter().collect();
                    let miss = sa.difference(&sb).count();
                    let extra = sb.difference(&sa).count();
                    return Some(format!("{f} has {} entries instead of {} ({miss} missing, {extra} others)", b.len(), a.len()));
                }
                (Some(_), None) => return Some(format!("{f} is missing")),
                (None, Some(_)) => return Some(format!("{f} should not be there")),
            }
        }
        None
    }
    /// Same, except that matrices are compared by number only (a class may be
    /// represented by different matrices).
    pub fn differs_mat_count(&self, want: &Results) -> Option<String> {
        let strip = |r: &Results| {
            let mut x = r.clone();
            if let Some(Some(m)) = x.files.get_mut("result.mat") {
                for l in m.iter_mut() {
                    *l = "matrix".into();
                }
            }
            x
        };
        strip(self).differs(&strip(want))
    }
}
/// Decoded entries of a sequence list; Err for a line that is not one.
pub fn decode_seq(text: &str, n: usize) -> Vec<Result<Quad, String>> {
    text.lines().map(|l| match decode(l) {
        Some((q, m)) if m == n => Ok(q),
        Some((_, m)) => Err(format!("`{l}` has length {m} instead of {n}")),
        None => Err(format!("`{l}` is not a quaternion sequence")),
    }).collect()
}
pub fn show(q: &Quad, n: usize) -> String {
    encode(q, n)
}
pub fn file_diff(a: &Snap, b: &Snap) -> Option<String> {
    for (p, e) in a {
        match b.get(p) {
            None => return Some(format!("{p} is missing")),
            Some(x) if x == e => {}
            Some(Ent::File(y)) => {
                if let Ent::File(x) = e {
                    return Some(format!("{p} has {} bytes instead of {}{}", y.len(), x.len(), if x.len() == y.len() { " of other content" } else { "" }));
                }
                return Some(format!("{p} changed its kind"));
            }
            Some(_) => return Some(format!("{p} changed its kind")),
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{p} appeared"))
}
