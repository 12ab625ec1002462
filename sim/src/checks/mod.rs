//! One module per group of properties; `CHECKS` is the table the runner uses.
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::Scenario;
use crate::world::World;

pub mod answers;
pub mod conc;
pub mod crash;
pub mod extra;
pub mod faults;
pub mod flags;
pub mod flow;
pub mod long;
pub mod threads;

pub struct Check {
    pub id: &'static str,
    /// Scenario number `i` of a seed (a pure function of the generator and the tree).
    pub gen: fn(&Cx, &mut World, u64, &mut Rng) -> Option<Scenario>,
    pub run: fn(&Cx, &mut World, &Scenario) -> Outcome,
    /// Simpler instances to try when minimising.
    pub shrink: Option<fn(&Scenario) -> Vec<Scenario>>,
    pub quick: u64,
    pub thorough: u64,
    pub cap_quick: u64,
    pub cap_thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}
pub const CHECKS: &[&[Check]] = &[answers::CHECKS, conc::CHECKS, crash::CHECKS, faults::CHECKS, threads::CHECKS, extra::CHECKS, flags::CHECKS];
pub fn find(id: &str) -> Option<&'static Check> {
    CHECKS.iter().flat_map(|c| c.iter()).find(|c| c.id == id)
}
/// Executes a few scenarios of every check twice, in different worlds and next to
/// different neighbours, and compares the digests.  Reports only; the checks
/// themselves confirm every violation by a second execution.
pub fn selftest(cx: &Cx) -> i32 {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let per = 4u64;
    let jobs: Vec<(&Check, u64)> = (0..per).flat_map(|i| CHECKS.iter().flat_map(|c| c.iter()).map(move |c| (c, i))).collect();
    let mut rounds = vec![];
    for round in 0..2usize {
        let next = AtomicUsize::new(0);
        let res: std::sync::Mutex<std::collections::BTreeMap<usize, (u64, Option<String>)>> = Default::default();
        std::thread::scope(|s| {
            for k in 0..(if round == 0 { 8 } else { 5 }) {
                let (next, res, jobs) = (&next, &res, &jobs);
                s.spawn(move || {
                    let mut w = World::new(&cx.root, 20 * (round + 1) + k);
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let j = if round == 0 { j } else { jobs.len() - 1 - j };
                        let (ck, i) = jobs[j];
                        let mut rng = Rng::new(crate::rng::mix(&[cx.seed, crate::rng::hash_str(ck.id), i]));
                        w.reset();
                        if let Some(sc) = (ck.gen)(cx, &mut w, i, &mut rng) {
                            let text = crate::rng::hash_str(&sc.text());
                            let o = crate::runner::execute(ck, cx, &mut w, &sc);
                            res.lock().unwrap().insert(j, (crate::rng::mix(&[o.digest, text]), o.err));
                        }
                    }
                });
            }
        });
        rounds.push(res.into_inner().unwrap());
    }
    let mut same = 0;
    for (j, a) in &rounds[0] {
        if rounds[1].get(j) == Some(a) {
            same += 1;
        } else {
            println!("selftest: {} #{} differs: {:?} / {:?}", jobs[*j].0.id, jobs[*j].1, a, rounds[1].get(j));
        }
    }
    println!("selftest: {} scenarios executed twice, {} identical", rounds[0].len(), same);
    0
}
