//! Independent exhaustive enumeration (exact integers, meet in the middle).
use crate::math::*;
use std::collections::{BTreeSet, HashMap};

/// Canonical forms of all QT sequences of length n up to QT equivalence.
pub fn enumerate_qts(n: usize, threads: usize) -> BTreeSet<Canon> {
    let all: u64 = 1 << n;
    let h = n / 2;
    // power spectra only prune (with a generous margin); acceptance is exact
    let psd: Vec<Vec<f32>> = (0..all)
        .map(|s| {
            (1..=h)
                .map(|k| {
                    let mut p = n as f64;
                    for t in 1..n {
                        p += cross(s as Seq, s as Seq, t, n) as f64 * (2.0 * std::f64::consts::PI * (k * t) as f64 / n as f64).cos();
                    }
                    p as f32
                })
                .collect()
        })
        .collect();
    let lim = 4.0 * n as f32 + 0.01;
    let mut rs = 0x1234_5678_9ABC_DEF1u64;
    let mut rnd = || {
        rs ^= rs << 13;
        rs ^= rs >> 7;
        rs ^= rs << 17;
        rs.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let cp: Vec<u64> = (0..=h).map(|_| rnd()).collect();
    let cd: Vec<u64> = (0..=h).map(|_| rnd()).collect();
    let hp: Vec<u64> = (0..all).map(|s| (1..=h).fold(0u64, |a, k| a.wrapping_add(cp[k].wrapping_mul(cross(s as Seq, s as Seq, k, n) as i64 as u64)))).collect();
    let dh = |a: Seq, b: Seq| (1..=h).fold(0u64, |x, k| x.wrapping_add(cd[k].wrapping_mul((cross(a, b, k, n) - cross(b, a, k, n)) as i64 as u64)));
    let fits = |a: u64, b: u64| psd[a as usize].iter().zip(&psd[b as usize]).all(|(x, y)| x + y <= lim);
    let four = 4 * n as i32;
    let rs2: Vec<i32> = (0..all).map(|s| rowsum(s as Seq, n).pow(2)).collect();
    // first sequence: one per class under shift, decimation, sign, alternation
    let mut reps = vec![];
    for s in 0..all {
        let q = [s as Seq; 4];
        let mut least = true;
        'o: for u in units(n) {
            for k in 0..n {
                let x = rot(decimate(q[0], u, n), k, n);
                for y in [x, altneg(x, n)] {
                    if y != x && n % 2 == 1 {
                        continue;
                    }
                    for z in [y, !y & mask(n)] {
                        if (z as u64) < s {
                            least = false;
                            break 'o;
                        }
                    }
                }
            }
        }
        if least {
            reps.push(s);
        }
    }
    let mut map: HashMap<u64, Vec<(Seq, Seq)>> = HashMap::new();
    for &a in &reps {
        for b in 0..all {
            if rs2[a as usize] + rs2[b as usize] <= four && fits(a, b) {
                let key = hp[a as usize].wrapping_add(hp[b as usize]).wrapping_add(dh(a as Seq, b as Seq));
                map.entry(key).or_default().push((a as Seq, b as Seq));
            }
        }
    }
    let map = &map;
    let mut out = BTreeSet::new();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (fits, hp, rs2, dh) = (&fits, &hp, &rs2, &dh);
            hs.push(sc.spawn(move || {
                let mut found: BTreeSet<Canon> = BTreeSet::new();
                let mut seen: std::collections::HashSet<Quad> = Default::default();
                for c in (0..all / 2).skip(t).step_by(threads) {
                    for d in 0..all {
                        if rs2[c as usize] + rs2[d as usize] > four || !fits(c, d) {
                            continue;
                        }
                        let key = hp[c as usize].wrapping_add(hp[d as usize]).wrapping_add(dh(c as Seq, d as Seq)).wrapping_neg();
                        if let Some(v) = map.get(&key) {
                            for (a, b) in v {
                                let q = [*a, *b, c as Seq, d as Seq];
                                if perfect(&q, n) && seen.insert(q) {
                                    found.insert(canonical(Type::Qts, &q, n));
                                }
                            }
                        }
                    }
                }
                found
            }));
        }
        for h in hs {
            out.extend(h.join().unwrap());
        }
    });
    if n == 1 {
        // the hash needs no correlation here: every quadruple qualifies
        out = (0..16u64).map(|b| canonical(Type::Qts, &[b & 1, (b >> 1) & 1, (b >> 2) & 1, b >> 3], 1)).collect();
    }
    out
}
/// Williamson-type sequences are QT sequences that are pairwise amicable.
pub fn wts_from_qts(qts: &BTreeSet<Canon>, n: usize) -> Result<BTreeSet<Canon>, String> {
    let mut out = BTreeSet::new();
    for c in qts {
        let q = representative(c, n);
        if valid(Type::Wts, &q, n) {
            out.insert(canonical(Type::Wts, &q, n));
        }
    }
    Ok(out)
}
pub fn enumerate_ws(n: usize) -> BTreeSet<Canon> {
    let sym: Vec<Seq> = {
        let free = n / 2 + 1;
        (0..1u64 << free)
            .map(|b| (0..n).fold(0 as Seq, |a, i| a | ((((b >> i.min(n - i)) & 1) as Seq) << i)))
            .filter(|s| s & 1 == 0) // sign is free
            .collect()
    };
    let mut sym = sym;
    sym.sort();
    sym.dedup();
    let h = n / 2;
    let paf: Vec<Vec<i32>> = sym.iter().map(|s| (1..=h).map(|k| cross(*s, *s, k, n)).collect()).collect();
    let mut map: HashMap<Vec<i32>, Vec<(usize, usize)>> = HashMap::new();
    for a in 0..sym.len() {
        for b in a..sym.len() {
            map.entry(paf[a].iter().zip(&paf[b]).map(|(x, y)| x + y).collect()).or_default().push((a, b));
        }
    }
    let mut out = BTreeSet::new();
    let mut seen: BTreeSet<Quad> = BTreeSet::new();
    for (k, v) in &map {
        let m: Vec<i32> = k.iter().map(|x| -x).collect();
        if let Some(w) = map.get(&m) {
            for (a, b) in v {
                for (c, d) in w {
                    if b > c {
                        continue;
                    }
                    let q = [sym[*a], sym[*b], sym[*c], sym[*d]];
                    if seen.contains(&q) {
                        continue;
                    }
                    assert!(valid(Type::Ws, &q, n));
                    let c = canonical(Type::Ws, &q, n);
                    if out.insert(c) {
                        seen.extend(orbit_sorted(&q, n));
                    }
                }
            }
        }
    }
    out
}
/// Complementary symmetric quadruples of larger lengths: spectra prune, hashed
/// correlations match, acceptance is exact.
pub fn enumerate_ws_large(n: usize) -> BTreeSet<Canon> {
    let free = n / 2 + 1;
    let sym: Vec<Seq> = (0..1u64 << free)
        .map(|b| (0..n).fold(0 as Seq, |a, i| a | ((((b >> i.min(n - i)) & 1) as Seq) << i)))
        .filter(|s| s & 1 == 0)
        .collect();
    let h = n / 2;
    let lim = 4.0 * n as f32 + 0.01;
    let psd: Vec<Vec<f32>> = sym
        .iter()
        .map(|s| (0..=h).map(|k| (0..n).map(|i| (if (s >> i) & 1 == 1 { 1.0 } else { -1.0 }) * (2.0 * std::f64::consts::PI * (k * i) as f64 / n as f64).cos()).sum::<f64>().powi(2) as f32).collect())
        .collect();
    let mut rs = 0x1234_5678_9ABC_DEF1u64;
    let mut rnd = || {
        rs ^= rs << 13;
        rs ^= rs >> 7;
        rs ^= rs << 17;
        rs.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let cp: Vec<u64> = (0..=h).map(|_| rnd()).collect();
    let hp: Vec<u64> = sym.iter().map(|s| (1..=h).fold(0u64, |a, k| a.wrapping_add(cp[k].wrapping_mul(cross(*s, *s, k, n) as i64 as u64)))).collect();
    let ok: Vec<usize> = (0..sym.len()).filter(|a| psd[*a].iter().all(|p| *p <= lim)).collect();
    let mut pairs: Vec<(u64, u32, u32)> = vec![];
    for (i, a) in ok.iter().enumerate() {
        for b in &ok[i..] {
            if psd[*a].iter().zip(&psd[*b]).all(|(x, y)| x + y <= lim) {
                pairs.push((hp[*a].wrapping_add(hp[*b]), *a as u32, *b as u32));
            }
        }
    }
    pairs.sort();
    let mut out = BTreeSet::new();
    let mut seen: std::collections::HashSet<Quad> = Default::default();
    let mut i = 0;
    while i < pairs.len() {
        let mut e = i;
        while e < pairs.len() && pairs[e].0 == pairs[i].0 {
            e += 1;
        }
        let want = pairs[i].0.wrapping_neg();
        let from = pairs.partition_point(|p| p.0 < want);
        for p in &pairs[i..e] {
            for q in pairs[from..].iter().take_while(|q| q.0 == want) {
                if p.2 > q.1 {
                    continue;
                }
                let x = [sym[p.1 as usize], sym[p.2 as usize], sym[q.1 as usize], sym[q.2 as usize]];
                if !seen.contains(&x) && valid(Type::Ws, &x, n) {
                    out.insert(canonical(Type::Ws, &x, n));
                    seen.insert(x);
                }
            }
        }
        i = e;
    }
    out
}
/// Interleaving turns symmetric sequences of odd length into ones of twice
/// the length: (A/B, -A/B, C/D, -C/D).
fn interleave(a: Seq, b: Seq, n: usize) -> Seq {
    let b = rot(b, (n + 1) / 2, n);
    (0..n).fold(0, |s, i| s | ((a >> i) & 1) << (2 * i) | ((b >> i) & 1) << (2 * i + 1))
}
/// Valid quadruples of lengths beyond the tables (not necessarily all of them).
pub fn long_main(args: &[String]) {
    let upto: usize = args[2].parse().unwrap();
    let refs = crate::runner::load_refs(std::path::Path::new(&args[0]));
    let mut out = String::new();
    let mut ws: Vec<(usize, Quad)> = refs.iter().filter(|(k, _)| k.0 == Type::Ws).flat_map(|(k, v)| v.iter().map(move |q| (k.1, *q))).collect();
    for n in 23..=upto {
        let w = enumerate_ws_large(n);
        println!("n={n} ws={}", w.len());
        for c in &w {
            ws.push((n, representative(c, n)));
            out += &format!("ws {n} {}\n", encode(&representative(c, n), n));
        }
    }
    for n in (13..=21).step_by(2) {
        let mut have = BTreeSet::new();
        for (_, q) in ws.iter().filter(|x| x.0 == n) {
            for p in [[0, 1, 2, 3], [0, 2, 1, 3], [0, 3, 1, 2]] {
                let (a, b, c, d) = (q[p[0]], q[p[1]], q[p[2]], q[p[3]]);
                let m = 2 * n;
                let x = [interleave(a, b, n), interleave(!a & mask(n), b, n), interleave(c, d, n), interleave(!c & mask(n), d, n)];
                if valid(Type::Ws, &x, m) && have.insert(canonical(Type::Ws, &x, m)) && m > upto {
                    out += &format!("ws {m} {}\n", encode(&x, m));
                }
            }
        }
        println!("n={} interleaved {}", 2 * n, have.len());
    }
    // Williamson-type sequences published with the repository, where valid
    for n in 19..=21 {
        let t = std::fs::read_to_string(format!("{}/find_{n}/result.seq", args[1])).unwrap_or_default();
        let v: BTreeSet<Canon> = t.lines().filter_map(decode).filter(|x| x.1 == n && valid(Type::Wts, &x.0, n)).map(|x| canonical(Type::Wts, &x.0, n)).collect();
        println!("n={n} wts={} of {} lines", v.len(), t.lines().count());
        for c in &v {
            out += &format!("wts {n} {}\n", encode(&representative(c, n), n));
        }
    }
    std::fs::write(format!("{}/long.txt", args[0]), out).unwrap();
}
fn orbit_sorted(q: &Quad, n: usize) -> BTreeSet<Quad> {
    orbit(Type::Ws, q, n)
}
pub fn main(args: &[String]) {
    let dir = &args[0];
    let upto: usize = args[1].parse().unwrap();
    let wsupto: usize = args[2].parse().unwrap();
    let mut qt = String::new();
    let mut wt = String::new();
    for n in 1..=upto {
        let q = enumerate_qts(n, 8);
        let w = wts_from_qts(&q, n).unwrap();
        let amic = q.iter().filter(|c| valid(Type::Wts, &representative(c, n), n)).count();
        println!("n={n} qts={} (amicable representatives {amic}) wts={}", q.len(), w.len());
        for c in &q {
            qt += &format!("{n} {}\n", encode(&representative(c, n), n));
        }
        for c in &w {
            wt += &format!("{n} {}\n", encode(&representative(c, n), n));
        }
    }
    let mut ws = String::new();
    for n in 1..=wsupto {
        let w = enumerate_ws(n);
        println!("n={n} ws={}", w.len());
        for c in &w {
            ws += &format!("{n} {}\n", encode(&representative(c, n), n));
        }
    }
    std::fs::write(format!("{dir}/qts.txt"), qt).unwrap();
    std::fs::write(format!("{dir}/wts.txt"), wt).unwrap();
    std::fs::write(format!("{dir}/ws.txt"), ws).unwrap();
}
