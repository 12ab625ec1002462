//! Lengths beyond those a whole search reaches: intermediate files as the pair
//! stage would have left them had it met only these sequences, made from known
//! valid quadruples, equivalent and damaged copies of them, and random ones.
//! Sorting, joining and converting then run for real.  The expected classes are
//! found by going through all combinations of the listed sequences.
use super::flow::*;
use crate::math::*;
use crate::rng::Rng;
use crate::runner::{Cx, Outcome};
use crate::scenario::Scenario;
use crate::world::{Actor, World};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Known valid quadruples of this type and length.
pub fn base(cx: &Cx, t: Type, n: usize) -> Vec<Quad> {
    let get = |m: &BTreeMap<(Type, usize), Vec<Quad>>, t| m.get(&(t, n)).cloned().unwrap_or_default();
    let mut v = get(&cx.refs, t);
    if v.is_empty() {
        // Williamson sequences are of Williamson type, and these are QT sequences
        v = get(&cx.long, Type::Ws);
        if v.is_empty() {
            v = get(&cx.refs, Type::Ws);
        }
        if t != Type::Ws {
            v.extend(get(&cx.long, Type::Wts));
        }
    }
    v
}
/// Rough cost in milliseconds of sorting, joining and converting.
fn price(t: Type, n: usize) -> u64 {
    let n = n as u64;
    match t {
        Type::Ws => 60 + n * n * n / 80,
        Type::Qts => 60 + n * n * n / 16,
        Type::Wts => 60 + n * n * n,
    }
}
pub fn pick(rng: &mut Rng, types: &[Type], thorough: bool) -> (Type, usize) {
    let budget = if thorough { 60000 } else { 2600 };
    loop {
        let t = *rng.pick(types);
        let n = rng.range(8, 42) as usize;
        let have = match n {
            34 | 38 | 42 => true,
            n => n <= 33,
        };
        let p = price(t, n);
        if have && p <= budget && rng.below(budget) > p / 2 {
            return (t, n);
        }
    }
}
/// Turn a scenario into one of this kind.
pub fn put(s: &mut Scenario, c: &Cfg, rng: &mut Rng) {
    c.put(s);
    s.put("long", rng.range(1, 1 << 40));
    s.put("lq", rng.range(1, 5));
    s.put("lx", rng.below(10));
}
pub fn is(sc: &Scenario) -> bool {
    sc.num("long") > 0
}
pub fn shrink(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    for (k, least) in [("lq", 1), ("lx", 0)] {
        let x = sc.num(k);
        for y in [least, x / 2, x.saturating_sub(1)] {
            if y >= least && y < x {
                let mut s = sc.clone();
                s.put(k, y);
                v.push(s);
            }
        }
    }
    v.extend(shrink_cfg(sc));
    v
}
/// An equivalent quadruple with the row sums that the search looks for.
pub fn member(t: Type, q: &Quad, n: usize, r: &mut Rng) -> Quad {
    let u = *r.pick(&units(n));
    let k = if t == Type::Ws { 0 } else { r.below(n as u64) as usize };
    let mut x = q.map(|s| rot(decimate(s, u, n), k, n));
    if n % 2 == 0 {
        if r.chance(1, 2) {
            x = x.map(|s| altneg(s, n));
        }
        let mut h = r.below(16);
        if t == Type::Qts && h.count_ones() % 2 == 1 {
            h ^= 1;
        }
        for i in 0..4 {
            if (h >> i) & 1 == 1 {
                x[i] = rot(x[i], n / 2, n);
            }
        }
    }
    // shuffle first so that equal row sums end up in any order
    let mut parity = 0;
    for i in (1..4).rev() {
        let j = r.below(i as u64 + 1) as usize;
        if i != j {
            x.swap(i, j);
            parity ^= 1;
        }
    }
    for i in 0..4 {
        if rowsum(x[i], n) < 0 || (rowsum(x[i], n) == 0 && r.chance(1, 2)) {
            x[i] = !x[i] & mask(n);
            parity ^= 1;
        }
    }
    for i in 0..4 {
        for j in 0..3 - i {
            if rowsum(x[j], n) > rowsum(x[j + 1], n) {
                x.swap(j, j + 1);
                parity ^= 1;
            }
        }
    }
    if t == Type::Qts && parity == 1 {
        let rs = x.map(|s| rowsum(s, n));
        if let Some(i) = (0..4).find(|i| rs[*i] == 0) {
            x[i] = !x[i] & mask(n);
        } else if let Some(i) = (0..3).find(|i| rs[*i] == rs[*i + 1]) {
            x.swap(i, i + 1);
        } else {
            x[3] = !x[3] & mask(n);
        }
    }
    x
}
fn text(s: Seq, n: usize) -> String {
    (0..n).map(|i| if (s >> i) & 1 == 1 { '+' } else { '-' }).collect()
}
/// Correlations of a pair as the matching compares them; `None` if the pair
/// stage leaves the pair out.
fn key(t: Type, a: Seq, b: Seq, tags: (usize, usize), n: usize) -> Option<Vec<i32>> {
    let mut v: Vec<i32> = (1..=n / 2).map(|k| cross(a, a, k, n) + cross(b, b, k, n)).collect();
    let c: Vec<i32> = (1..=n / 2).map(|k| cross(a, b, k, n) - cross(b, a, k, n)).collect();
    match t {
        Type::Qts => {
            // sign of the pair's product in the quaternion algebra
            let sign = match tags {
                (0, _) => 1,
                (1, 2) | (2, 3) => 1,
                _ => -1,
            };
            v.extend(c.iter().map(|x| sign * x));
        }
        Type::Wts => {
            if c.iter().any(|x| *x != 0) {
                return None;
            }
        }
        Type::Ws => {}
    }
    Some(v)
}
pub struct Built {
    pub expected: BTreeSet<Canon>,
    pub dirs: usize,
}
/// Write the intermediate files (sorted ones if asked for).
pub fn build(cx: &Cx, w: &mut World, sc: &Scenario, c: &Cfg, sorted: bool) -> Option<Built> {
    let (t, n) = (c.t, c.n);
    let known = base(cx, t, n);
    if known.is_empty() {
        return None;
    }
    let mut r = Rng::new(sc.num("long"));
    let mut dirs: BTreeMap<[i32; 4], [Vec<Seq>; 4]> = BTreeMap::new();
    let add = |v: &mut Vec<Seq>, s: Seq| {
        if !v.contains(&s) {
            v.push(s);
        }
    };
    for _ in 0..sc.num("lq") {
        let q = *r.pick(&known);
        for _ in 0..r.range(1, 3) {
            let x = member(t, &q, n, &mut r);
            let d = dirs.entry(x.map(|s| rowsum(s, n))).or_default();
            for i in 0..4 {
                add(&mut d[i], x[i]);
            }
        }
    }
    let noise = sc.num("lx");
    for (rs, d) in dirs.iter_mut() {
        for i in 0..4 {
            for _ in 0..noise {
                // a copy with two places exchanged, or a random sequence
                let mut s = if r.chance(1, 2) { *r.pick(&d[i]) } else { r.below(u64::MAX) & mask(n) };
                let flip = |s: Seq, k: usize| if t == Type::Ws { s ^ (1 << k) ^ if k != 0 && 2 * k != n { 1 << (n - k) } else { 0 } } else { s ^ (1 << k) };
                if t == Type::Ws {
                    s = (0..n).fold(0, |a, i| a | ((s >> i.min(n - i)) & 1) << i);
                }
                for _ in 0..3 {
                    s = flip(s, r.below(n as u64) as usize);
                }
                for _ in 0..4 * n {
                    if rowsum(s, n) == rs[i] {
                        break;
                    }
                    let k = r.below(n as u64) as usize;
                    let y = flip(s, k);
                    if (rowsum(y, n) - rs[i]).abs() < (rowsum(s, n) - rs[i]).abs() || r.chance(1, 8) {
                        s = y;
                    }
                }
                if rowsum(s, n) == rs[i] {
                    add(&mut d[i], s);
                }
            }
            for k in (1..d[i].len()).rev() {
                d[i].swap(k, r.below(k as u64 + 1) as usize);
            }
        }
    }
    let sides = match c.pairing.as_str() {
        "WX" => [("WX", 0, 1), ("YZ", 2, 3)],
        "WY" => [("WY", 0, 2), ("XZ", 1, 3)],
        _ => [("WZ", 0, 3), ("XY", 1, 2)],
    };
    let mut expected = BTreeSet::new();
    let mut quad_text = String::new();
    for (rs, d) in &dirs {
        let name = format!("{}/rowsum_{}_{}_{}_{}", c.dir(), rs[0], rs[1], rs[2], rs[3]);
        quad_text += &format!("{} {} {} {}\n", rs[0], rs[1], rs[2], rs[3]);
        for (i, tag) in ["W", "X", "Y", "Z"].iter().enumerate() {
            w.put(&format!("{name}/seq_{tag}.seq"), d[i].iter().map(|s| text(*s, n) + "\n").collect::<String>().as_bytes());
        }
        let mut by: [HashMap<Vec<i32>, Vec<(Seq, Seq)>>; 2] = Default::default();
        for (side, (tags, a, b)) in sides.iter().enumerate() {
            let mut lines = vec![];
            for (i, x) in d[*a].iter().enumerate() {
                for (j, y) in d[*b].iter().enumerate() {
                    if let Some(k) = key(t, *x, *y, (*a, *b), n) {
                        let k: Vec<i32> = if side == 1 { k.iter().map(|x| -x).collect() } else { k };
                        let mut l: String = k.iter().map(|x| format!("{x}_")).collect();
                        if l.is_empty() {
                            l.push('_');
                        }
                        lines.push(format!("{l}:_{i}_{j}\n"));
                        by[side].entry(k).or_default().push((*x, *y));
                    }
                }
            }
            if sorted {
                lines.sort();
            }
            w.put(&format!("{name}/pair_{tags}.pair{}", if sorted { ".sorted" } else { "" }), lines.concat().as_bytes());
        }
        for (k, v) in &by[0] {
            for (a, b) in v {
                for (x, y) in by[1].get(k).into_iter().flatten() {
                    let mut q = [0; 4];
                    q[sides[0].1] = *a;
                    q[sides[0].2] = *b;
                    q[sides[1].1] = *x;
                    q[sides[1].2] = *y;
                    if valid(t, &q, n) {
                        expected.insert(canonical(t, &q, n));
                    }
                }
            }
        }
    }
    w.put(&format!("{}/rowsums.quad", c.dir()), quad_text.as_bytes());
    w.chown_tree();
    Some(Built { expected, dirs: dirs.len() })
}
/// Build and run the later stages; a failure is a violation.
pub fn go(cx: &Cx, w: &mut World, sc: &Scenario, c: &Cfg, convert: bool, o: &mut Outcome) -> Option<Built> {
    let b = match build(cx, w, sc, c, false) {
        Some(b) => b,
        None => {
            o.nontrivial = false;
            return None;
        }
    };
    o.probe("beyond-search-length");
    let all = c.scripts(false);
    let stages = if convert { &all[1..] } else { &all[1..3] };
    for (k, s) in stages.iter().enumerate() {
        let r = run_cmd(w, sc, k, Actor::sh(s), o);
        if !r.ok() {
            o.violate("fault-free-run-fails", format!("{} over intermediate files of {} known sequences: without any fault, {}", c.key(), sc.num("lq"), describe(s, &r)));
            return None;
        }
    }
    Some(b)
}
/// Every condition of the definition by itself: is it violated?
fn broken(t: Type, q: &Quad, n: usize) -> Vec<bool> {
    let half = n / 2;
    let d = |a: usize, b: usize, k: usize| cross(q[a], q[b], k, n) - cross(q[b], q[a], k, n);
    let mut v: Vec<bool> = (1..=half).map(|k| q.iter().map(|s| cross(*s, *s, k, n)).sum::<i32>() != 0).collect();
    match t {
        Type::Qts => {
            for (a, b, e, f) in [(0, 1, 2, 3), (0, 2, 3, 1), (0, 3, 1, 2)] {
                v.extend((1..=half).map(|k| d(a, b, k) + d(e, f, k) != 0));
            }
        }
        Type::Wts => {
            for a in 0..4 {
                for b in 0..a {
                    v.extend((1..=half).map(|k| d(a, b, k) != 0));
                }
            }
        }
        Type::Ws => {
            for s in q {
                v.extend((1..=half).map(|k| (s >> k) & 1 != (s >> (n - k)) & 1));
            }
        }
    }
    v
}
/// A quadruple that violates as few conditions as possible, a drawn one among them.
pub fn near(t: Type, n: usize, known: &[Quad], r: &mut Rng) -> Option<Quad> {
    if n < 3 {
        return None;
    }
    let count = broken(t, &[0; 4], n).len() as u64;
    let mut best: Option<(usize, Quad)> = None;
    for _ in 0..4 {
        let focus = r.below(count) as usize;
        let cost = |q: &Quad| {
            let b = broken(t, q, n);
            b.iter().filter(|x| **x).count() + if b[focus] { 0 } else { 4 }
        };
        let mut q: Quad = if !known.is_empty() && r.chance(2, 3) { member(t, r.pick(known), n, r) } else { [0; 4].map(|_| r.next() & mask(n)) };
        let mut c = cost(&q);
        for step in 0..500 {
            let mut x = q;
            let i = r.below(4) as usize;
            match r.below(8) {
                0 => x[i] = rot(x[i], r.below(n as u64) as usize, n),
                1 => x[i] = decimate(x[i], n - 1, n),
                2 => x.swap(i, r.below(4) as usize),
                3 | 4 => x[i] ^= 1 << r.below(n as u64) | 1 << r.below(n as u64),
                5 => {
                    let k = r.range(1, n as u64 - 1) as usize;
                    x[i] ^= 1 << k | 1 << (n - k);
                }
                _ => x[i] ^= 1 << r.below(n as u64),
            }
            let y = cost(&x);
            if y <= c || r.chance(1, 30 + step) {
                q = x;
                c = y;
            }
            let b = broken(t, &q, n);
            if b[focus] && best.as_ref().map_or(true, |z| c < z.0) {
                best = Some((c, q));
            }
        }
        if best.as_ref().map_or(false, |b| b.0 <= 2) {
            break;
        }
    }
    best.filter(|(_, q)| !valid(t, q, n)).map(|b| b.1)
}
/// Hide a quadruple in the sorted files of a directory, as a matching pair.
pub fn hide(w: &World, c: &Cfg, dir: &str, q: &Quad, r: &mut Rng) -> bool {
    let mut at = [0; 4];
    for (i, tag) in ["W", "X", "Y", "Z"].iter().enumerate() {
        let p = format!("{dir}/seq_{tag}.seq");
        let mut s = match w.text(&p) {
            Some(s) => s,
            None => return false,
        };
        at[i] = s.lines().count();
        s += &(text(q[i], c.n) + "\n");
        w.put(&p, s.as_bytes());
    }
    let sides = match c.pairing.as_str() {
        "WX" => [("WX", 0, 1), ("YZ", 2, 3)],
        "WY" => [("WY", 0, 2), ("XZ", 1, 3)],
        _ => [("WZ", 0, 3), ("XY", 1, 2)],
    };
    let mut k = String::new();
    for (tags, a, b) in sides {
        let p = format!("{dir}/pair_{tags}.pair.sorted");
        let s = match w.text(&p) {
            Some(s) => s,
            None => return false,
        };
        let mut l: Vec<String> = s.lines().map(|x| x.to_string()).collect();
        if k.is_empty() {
            k = if l.is_empty() { "0".into() } else { r.pick(&l).split("_:_").next().unwrap_or("0").to_string() };
        }
        l.push(format!("{k}_:_{}_{}", at[a], at[b]));
        l.sort();
        w.put(&p, (l.join("\n") + "\n").as_bytes());
    }
    true
}
