//! C22 flags of the scripts: each takes the documented effect in every
//! combination, order and grouping.
use super::answers::sorted_snap;
use super::flow::*;
use super::Check;
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::Scenario;
use crate::world::{Actor, Ent, Snap, World};
use std::collections::BTreeMap;
use std::sync::Arc;

const ALL: &[Type] = &[Type::Qts, Type::Wts, Type::Ws];

fn gen_c22(cx: &Cx, _w: &mut World, _i: u64, rng: &mut Rng) -> Option<Scenario> {
    let mut c = Cfg::pick(rng, if cx.thorough { 400 } else { 160 }, ALL, &[Flow::Driver], None);
    let driver = rng.chance(2, 3);
    c.hm &= driver;
    let named = rng.chance(3, 4);
    if !named {
        c.pairing = "WZ".into();
    }
    let batch = rng.chance(1, 3);
    let prior = rng.chance(1, 3);
    let mut s = Scenario::new("C22");
    c.put(&mut s);
    // the flags in a drawn order, some of them written as one word
    let mut l: Vec<char> = vec![];
    for (on, ch) in [(c.corr, 'c'), (c.hm, 'h'), (batch, 's'), (prior || rng.chance(1, 5), 'd'), (named, 'p')] {
        if on {
            l.insert(rng.below(l.len() as u64 + 1) as usize, ch);
        }
    }
    if !l.is_empty() && rng.chance(1, 6) {
        // said twice
        let again = *rng.pick(&l);
        l.push(again);
    }
    let mut words: Vec<String> = vec![];
    let mut open = false; // the last word can take another flag
    let last_p = l.iter().rposition(|x| *x == 'p');
    for (k, ch) in l.iter().enumerate() {
        if open && rng.chance(1, 2) {
            words.last_mut().unwrap().push(*ch);
        } else {
            words.push(format!("-{ch}"));
        }
        open = *ch != 'p';
        if *ch == 'p' {
            // of several pairings the last one counts
            let v = if Some(k) == last_p { c.pairing.clone() } else { rng.pick(&["WX", "WY", "WZ"]).to_string() };
            if rng.chance(1, 4) {
                words.last_mut().unwrap().push_str(&v);
            } else {
                words.push(v);
            }
        }
    }
    s.put("command", format!("./{} {} {}", if driver { "driver.sh" } else { "pairs.sh" }, c.tn(), words.join(" ")).trim());
    s.put("batch", batch as u8);
    s.put("driver", driver as u8);
    if prior {
        s.put("prior", rng.pick(&["WX", "WY", "WZ"]));
        s.put("priorcorr", rng.chance(1, 2) as u8);
    }
    s.atoms = random_env(rng);
    Some(s)
}
/// The rowsum data below `dir`: sorted and unsorted pair files alike, as sets of lines.
fn data(snap: &Snap, dir: &str) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (p, e) in snap {
        if let (Ent::File(b), Some(rest)) = (e, p.strip_prefix(&format!("{dir}/"))) {
            if rest.starts_with("rowsum_") {
                let v = m.entry(rest.trim_end_matches(".sorted").to_string()).or_default();
                v.extend(String::from_utf8_lossy(b).lines().map(|l| l.to_string()));
                if rest.contains(".pair") {
                    v.sort();
                }
            }
        }
    }
    m
}
fn run_c22(cx: &Cx, w: &mut World, sc: &Scenario) -> Outcome {
    let c = Cfg::of(sc);
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    // what the pair stage of the program writes when it is told the options directly
    let line = format!("pairs {} {} {}", c.tn(), c.opt(), c.pairing);
    let want: Arc<Result<_, String>> = cx.cached(&format!("c22 {line}"), || {
        w.reset();
        let mut o = Outcome::default();
        let _ = std::fs::create_dir_all(w.path(&c.dir()));
        w.chown_tree();
        let r = run_cmd(w, &quiet(), 0, Actor::node(&line), &mut o);
        let res = if r.ok() { Ok(data(&w.snapshot("results"), &c.dir())) } else { Err(describe(&line, &r)) };
        w.reset();
        res
    });
    let want = match want.as_ref() {
        Ok(x) => x,
        Err(e) => {
            o.violate("fault-free-run-fails", e.clone());
            return o;
        }
    };
    if !sc.get("prior").is_empty() {
        let old = Cfg { pairing: sc.get("prior").into(), corr: sc.flag("priorcorr"), ..c.clone() };
        match sorted_snap(cx, w, &old).as_ref() {
            Ok(s) => w.restore(s),
            Err(e) => {
                o.violate("fault-free-run-fails", e.clone());
                return o;
            }
        }
    }
    let _ = std::fs::create_dir_all(w.path("jobtmp"));
    w.chown_tree();
    let cmd = sc.get("command").to_string();
    let mut a = Actor::sh(&cmd);
    if sc.flag("batch") {
        a = a.env("SLURM_TMPDIR", "jobtmp");
    }
    let r = run_cmd(w, sc, 0, a, &mut o);
    if !r.ok() {
        o.violate("fault-free-run-fails", format!("without any fault, {}", describe(&cmd, &r)));
        return o;
    }
    let after = w.snapshot("results");
    let got = data(&after, &c.dir());
    if let Some(f) = got.keys().find(|f| !want.contains_key(*f)) {
        o.violate("other-data", format!("`{cmd}` wrote or left {f}, which belongs to other options than pairing {} with {}", c.pairing, c.opt()));
        return o;
    }
    if let Some(f) = want.keys().find(|f| got.get(*f) != want.get(*f)) {
        o.violate("other-data", format!("`{cmd}`: {f} is {} that of pairing {} with {}", if got.contains_key(f) { "not" } else { "missing, unlike" }, c.pairing, c.opt()));
        return o;
    }
    if sc.flag("driver") && after.contains_key(&format!("{}/result.mat", c.dir())) != c.hm {
        o.violate("conversion", format!("`{cmd}`: result.mat is {}", if c.hm { "missing" } else { "there without -h" }));
        return o;
    }
    if sc.flag("batch") {
        for p in r.find("sort") {
            for f in &p.flags {
                if let Some(t) = f.strip_prefix("D ") {
                    if !t.split('/').any(|x| x == "jobtmp") {
                        o.violate("temporary-files", format!("`{cmd}` sorts with temporary files in {t}, not in $SLURM_TMPDIR"));
                        return o;
                    }
                    o.probe("sorted-in-job-directory");
                }
            }
        }
    }
    o.probe(if sc.get("prior").is_empty() { "fresh" } else { "replaced" });
    if want.values().any(|v| v.len() > 1) {
        o.probe("has-pairs");
    }
    o
}

pub const CHECKS: &[Check] = &[Check {
    id: "C22",
    gen: gen_c22,
    run: run_c22,
    shrink: None,
    quick: 1200,
    thorough: 15_000,
    cap_quick: 100,
    cap_thorough: 1800,
    rule: "one scenario = one run of driver.sh or pairs.sh with a drawn set, order and grouping of flags, over nothing or over earlier data of other options, in a drawn environment; its rowsum data are compared with those the program writes when called directly; every one is non-trivial",
    assumptions: &["intermediate files are compared by name and by their sets of lines", "only sort has temporary files"],
}];
