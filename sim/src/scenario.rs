//! A scenario is everything that decides a simulated execution: settings and a
//! list of atoms (faults, environment choices, schedule deviations, mutations).
//! Minimisation removes atoms; the text form is the replay file.
use crate::world::{Env, Plan, Rule, Schedule};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Atom {
    Rule(usize, Rule),
    Env(Option<usize>, String),
    Dev(usize, u64, usize),
    Step(String),
}
#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub prop: String,
    pub set: BTreeMap<String, String>,
    pub atoms: Vec<Atom>,
}
fn esc(s: &str) -> String {
    if s.is_empty() {
        "%".into()
    } else {
        s.replace('%', "%25").replace(' ', "%20")
    }
}
fn unesc(s: &str) -> String {
    if s == "%" {
        "".into()
    } else {
        s.replace("%20", " ").replace("%25", "%")
    }
}
impl Atom {
    pub fn text(&self) -> String {
        match self {
            Atom::Rule(ph, r) => format!("rule {ph} {} {} {} {} {}", r.actor.map_or("-".into(), |a| a.to_string()), esc(&r.sel), r.occ.map_or("*".into(), |o| o.to_string()), if r.group { "group" } else { "process" }, r.line),
            Atom::Env(ph, t) => format!("env {} {t}", ph.map_or("*".into(), |p| p.to_string())),
            Atom::Dev(ph, d, c) => format!("switch {ph} {d} {c}"),
            Atom::Step(t) => format!("step {t}"),
        }
    }
    pub fn parse(l: &str) -> Option<Atom> {
        let w: Vec<&str> = l.split(' ').collect();
        Some(match w[0] {
            "rule" => Atom::Rule(
                w[1].parse().ok()?,
                Rule { actor: w[2].parse().ok(), sel: unesc(w[3]), occ: w[4].parse().ok(), group: w[5] == "group", line: w[6..].join(" ") },
            ),
            "env" => Atom::Env(w[1].parse().ok(), w[2..].join(" ")),
            "switch" => Atom::Dev(w[1].parse().ok()?, w[2].parse().ok()?, w[3].parse().ok()?),
            "step" => Atom::Step(w[1..].join(" ")),
            _ => return None,
        })
    }
}
pub fn rule(phase: usize, sel: &str, occ: Option<u64>, group: bool, line: String) -> Atom {
    Atom::Rule(phase, Rule { actor: None, sel: sel.into(), occ, group, line })
}
impl Scenario {
    pub fn new(prop: &str) -> Scenario {
        Scenario { prop: prop.into(), ..Default::default() }
    }
    pub fn put(&mut self, k: &str, v: impl ToString) {
        self.set.insert(k.into(), v.to_string());
    }
    pub fn get(&self, k: &str) -> &str {
        self.set.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn flag(&self, k: &str) -> bool {
        self.get(k) == "1"
    }
    pub fn steps(&self) -> Vec<&str> {
        self.atoms.iter().filter_map(|a| if let Atom::Step(t) = a { Some(t.as_str()) } else { None }).collect()
    }
    pub fn env(&self, phase: usize) -> Env {
        let mut e = Env { threads: 2, clock_step: 20_000, fft: Some(0), locale: "C".into(), ..Default::default() };
        for a in &self.atoms {
            if let Atom::Env(p, t) = a {
                if p.map_or(false, |p| p != phase) {
                    continue;
                }
                let w: Vec<&str> = t.split(' ').collect();
                let n = |i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
                match w[0] {
                    "hash" => e.hash = n(1) as u64,
                    "dir" => e.dir = n(1) as u64,
                    "dtype" => e.dtype_unknown = true,
                    "fft" => e.fft = Some(n(1)),
                    "fftmix" => {
                        e.fft = None;
                        e.fftmix = n(1) as u64
                    }
                    "clockstep" => e.clock_step = n(1) as u64,
                    "jump" => e.jumps.push((n(1) as u64, n(2))),
                    "threads" => e.threads = n(1) as usize,
                    "locale" => e.locale = w[1].into(),
                    _ => {}
                }
            }
        }
        e
    }
    pub fn plan(&self, phase: usize) -> Plan {
        Plan {
            env: self.env(phase),
            rules: self.atoms.iter().filter_map(|a| match a {
                Atom::Rule(p, r) if *p == phase => Some(r.clone()),
                _ => None,
            }).collect(),
            trace: false,
            oplimit: 0,
        }
    }
    pub fn schedule(&self, phase: usize) -> Schedule {
        Schedule::fixed(self.atoms.iter().filter_map(|a| match a {
            Atom::Dev(p, d, c) if *p == phase => Some((*d, *c)),
            _ => None,
        }).collect())
    }
    pub fn text(&self) -> String {
        let mut t = format!("vsim-replay 1\nproperty {}\n", self.prop);
        for (k, v) in &self.set {
            t += &format!("set {k} {v}\n");
        }
        for a in &self.atoms {
            t += &format!("atom {}\n", a.text());
        }
        t
    }
    pub fn parse(t: &str) -> Option<Scenario> {
        let mut s = Scenario::default();
        let mut it = t.lines();
        if it.next()? != "vsim-replay 1" {
            return None;
        }
        for l in it {
            if let Some(p) = l.strip_prefix("property ") {
                s.prop = p.into();
            } else if let Some(r) = l.strip_prefix("set ") {
                let (k, v) = r.split_once(' ').unwrap_or((r, ""));
                s.set.insert(k.into(), v.into());
            } else if let Some(a) = l.strip_prefix("atom ") {
                s.atoms.push(Atom::parse(a)?);
            }
        }
        Some(s)
    }
}
