//! Exact integer mathematics of the sequences, written independently of the
//! code under test (bit masks instead of vectors, no floating point).
use std::collections::BTreeSet;

/// One binary sequence: bit i set means entry i is +1.
pub type Seq = u64;
pub type Quad = [Seq; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Type {
    Qts,
    Wts,
    Ws,
}
impl Type {
    pub fn name(self) -> &'static str {
        match self {
            Type::Qts => "qts",
            Type::Wts => "wts",
            Type::Ws => "ws",
        }
    }
    pub fn parse(s: &str) -> Option<Type> {
        match s {
            "qts" => Some(Type::Qts),
            "wts" => Some(Type::Wts),
            "ws" => Some(Type::Ws),
            _ => None,
        }
    }
}

pub fn mask(n: usize) -> Seq {
    ((1u128 << n) - 1) as Seq
}
/// entry i of the result is entry i+k of s
pub fn rot(s: Seq, k: usize, n: usize) -> Seq {
    let k = k % n;
    if k == 0 {
        s
    } else {
        ((s >> k) | (s << (n - k))) & mask(n)
    }
}
/// sum over i of a[i] * b[i+k]
pub fn cross(a: Seq, b: Seq, k: usize, n: usize) -> i32 {
    n as i32 - 2 * ((a ^ rot(b, k, n)) & mask(n)).count_ones() as i32
}
pub fn rowsum(s: Seq, n: usize) -> i32 {
    2 * (s & mask(n)).count_ones() as i32 - n as i32
}
pub fn symmetric(s: Seq, n: usize) -> bool {
    (1..n).all(|i| (s >> i) & 1 == (s >> (n - i)) & 1)
}
pub fn complementary(q: &Quad, n: usize) -> bool {
    (1..n).all(|k| q.iter().map(|s| cross(*s, *s, k, n)).sum::<i32>() == 0)
}
pub fn amicable(q: &Quad, n: usize) -> bool {
    for i in 0..4 {
        for j in 0..i {
            for k in 1..n {
                if cross(q[i], q[j], k, n) != cross(q[j], q[i], k, n) {
                    return false;
                }
            }
        }
    }
    true
}
/// The quaternions w+xi+yj+zk have vanishing periodic autocorrelation
/// sum_i q_i conj(q_{i+k}) for all k (computed as quaternion products).
pub fn perfect(q: &Quad, n: usize) -> bool {
    let v: Vec<[i32; 4]> = (0..n).map(|i| [0, 1, 2, 3].map(|t| if (q[t] >> i) & 1 == 1 { 1 } else { -1 })).collect();
    for k in 1..n {
        let mut s = [0i32; 4];
        for i in 0..n {
            let a = v[i];
            let b = v[(i + k) % n];
            let b = [b[0], -b[1], -b[2], -b[3]];
            let p = qmul(a, b);
            for t in 0..4 {
                s[t] += p[t];
            }
        }
        if s != [0; 4] {
            return false;
        }
    }
    true
}
pub fn qmul(a: [i32; 4], b: [i32; 4]) -> [i32; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn valid(t: Type, q: &Quad, n: usize) -> bool {
    match t {
        Type::Qts => perfect(q, n),
        Type::Wts => complementary(q, n) && amicable(q, n),
        Type::Ws => complementary(q, n) && q.iter().all(|s| symmetric(*s, n)),
    }
}

pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
pub fn units(n: usize) -> Vec<usize> {
    if n == 1 {
        return vec![1];
    }
    (1..n).filter(|u| gcd(*u, n) == 1).collect()
}
pub fn decimate(s: Seq, u: usize, n: usize) -> Seq {
    let mut r = 0;
    for i in 0..n {
        if (s >> ((i * u) % n)) & 1 == 1 {
            r |= 1 << i;
        }
    }
    r
}
pub fn altneg(s: Seq, n: usize) -> Seq {
    (s ^ 0xAAAA_AAAA_AAAA_AAAA) & mask(n)
}
fn neg(s: Seq, n: usize) -> Seq {
    !s & mask(n)
}

/// Members of the orbit under the operations that act on positions; the sign
/// and order operations are left out (they are normalised separately).
fn position_images(t: Type, q: &Quad, n: usize, mut f: impl FnMut(Quad)) {
    let shifts = if t == Type::Ws { 1 } else { n };
    let alts = if n % 2 == 0 { 2 } else { 1 };
    for u in units(n) {
        let qd = q.map(|s| decimate(s, u, n));
        for k in 0..shifts {
            let qk = qd.map(|s| rot(s, k, n));
            for al in 0..alts {
                let qa = if al == 1 { qk.map(|s| altneg(s, n)) } else { qk };
                if n % 2 == 1 {
                    f(qa);
                    continue;
                }
                for h in 0..16u32 {
                    if t == Type::Qts && h.count_ones() % 2 == 1 {
                        continue;
                    }
                    let mut x = qa;
                    for (i, s) in x.iter_mut().enumerate() {
                        if (h >> i) & 1 == 1 {
                            *s = rot(*s, n / 2, n);
                        }
                    }
                    f(x);
                }
            }
        }
    }
}
/// Normal form under sign and order operations: all signed permutations for wts
/// and ws; for qts those generated by "negate one and swap two".
fn sign_order_normal(t: Type, q: &Quad, n: usize) -> (Quad, u8) {
    let mut r = *q;
    let mut parity = 0u8;
    for s in r.iter_mut() {
        let m = neg(*s, n);
        if m < *s {
            *s = m;
            parity ^= 1;
        }
    }
    for i in 0..4 {
        for j in 0..3 - i {
            if r[j] > r[j + 1] {
                r.swap(j, j + 1);
                parity ^= 1;
            }
        }
    }
    if t != Type::Qts || (0..3).any(|i| r[i] == r[i + 1]) {
        parity = 0;
    }
    (r, parity)
}
pub type Canon = (Quad, u8);
pub fn canonical(t: Type, q: &Quad, n: usize) -> Canon {
    let mut best: Option<Canon> = None;
    position_images(t, q, n, |x| {
        let c = sign_order_normal(t, &x, n);
        if best.map_or(true, |b| c < b) {
            best = Some(c);
        }
    });
    best.unwrap()
}
/// A quadruple with the given canonical form.
pub fn representative(c: &Canon, n: usize) -> Quad {
    let mut q = c.0;
    if c.1 == 1 {
        q[3] = neg(q[3], n);
    }
    q
}
fn permutations() -> Vec<([usize; 4], u8)> {
    let mut v = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    let p = [a, b, c, d];
                    if (0..4).all(|i| (0..i).all(|j| p[i] != p[j])) {
                        let inv = (0..4).map(|i| (0..i).filter(|j| p[*j] > p[i]).count()).sum::<usize>();
                        v.push((p, (inv % 2) as u8));
                    }
                }
            }
        }
    }
    v
}
/// The whole equivalence class.
pub fn orbit(t: Type, q: &Quad, n: usize) -> BTreeSet<Quad> {
    let mut out = BTreeSet::new();
    let perms = permutations();
    let mut base: BTreeSet<Quad> = BTreeSet::new();
    position_images(t, q, n, |x| {
        base.insert(x);
    });
    for x in base {
        for (p, par) in &perms {
            for s in 0..16u32 {
                if t == Type::Qts && (s.count_ones() as u8 + par) % 2 == 1 {
                    continue;
                }
                let mut y = [0; 4];
                for i in 0..4 {
                    y[i] = x[p[i]];
                    if (s >> i) & 1 == 1 {
                        y[i] = neg(y[i], n);
                    }
                }
                out.insert(y);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ encoding
/// Documented letters of the 16 quaternions, by (w,x,y,z) with bit 3 = w.
const LETTER: [(u8, char); 16] = [
    (0b1111, '-'), (0b1110, 'y'), (0b1101, 'x'), (0b1100, 'j'), (0b1011, 'z'), (0b1010, 'k'), (0b1001, 'i'), (0b1000, 'q'),
    (0b0111, 'Q'), (0b0110, 'I'), (0b0101, 'K'), (0b0100, 'Z'), (0b0011, 'J'), (0b0010, 'X'), (0b0001, 'Y'), (0b0000, '+'),
];
pub fn encode(q: &Quad, n: usize) -> String {
    (0..n)
        .map(|i| {
            let b = (0..4).fold(0u8, |a, t| a << 1 | ((q[t] >> i) & 1) as u8);
            LETTER.iter().find(|l| l.0 == b).unwrap().1
        })
        .collect()
}
pub fn decode(s: &str) -> Option<(Quad, usize)> {
    let mut q = [0; 4];
    let mut n = 0;
    if s.len() > 64 || s.is_empty() {
        return None;
    }
    for c in s.chars() {
        let b = LETTER.iter().find(|l| l.1 == c)?.0;
        for t in 0..4 {
            q[t] |= (((b >> (3 - t)) & 1) as Seq) << n;
        }
        n += 1;
    }
    Some((q, n))
}
/// Quaternions of the letters, doubled (so q = (1+i+j+k)/2 is [1,1,1,1]).
pub fn letter_quaternion(c: char) -> Option<[i32; 4]> {
    let unit = |v: [i32; 4]| v;
    let q = [1, 1, 1, 1];
    let half = |a: [i32; 4]| [a[0] / 2, a[1] / 2, a[2] / 2, a[3] / 2];
    let s = [1, -1, -1, -1]; // 's' is the conjugate of 'q'
    let base = match c.to_ascii_lowercase() {
        '+' | '-' => unit([2, 0, 0, 0]),
        'i' => unit([0, 2, 0, 0]),
        'j' => unit([0, 0, 2, 0]),
        'k' => unit([0, 0, 0, 2]),
        'q' => q,
        'x' => half(qmul(q, [0, 2, 0, 0])),
        'y' => half(qmul(q, [0, 0, 2, 0])),
        'z' => half(qmul(q, [0, 0, 0, 2])),
        's' => s,
        'u' => half(qmul(s, [0, 2, 0, 0])),
        'v' => half(qmul(s, [0, 0, 2, 0])),
        'w' => half(qmul(s, [0, 0, 0, 2])),
        _ => return None,
    };
    let negative = c == '-' || c.is_ascii_uppercase();
    Some(if negative { base.map(|x| -x) } else { base })
}
/// A text block of result.qseq is "[[+,-],[..],[..],[..]]" in some layout; all
/// that matters here are its + and - characters in order.
pub fn decode_qseq(line: &str) -> Option<(Quad, usize)> {
    let e: Vec<bool> = line.chars().filter(|c| *c == '+' || *c == '-').map(|c| c == '+').collect();
    if e.is_empty() || e.len() % 4 != 0 {
        return None;
    }
    let n = e.len() / 4;
    if n > 64 {
        return None;
    }
    let mut q = [0; 4];
    for t in 0..4 {
        for i in 0..n {
            if e[t * n + i] {
                q[t] |= 1 << i;
            }
        }
    }
    Some((q, n))
}

pub fn conj(a: [i32; 4]) -> [i32; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qmul2(a: [i32; 4], b: [i32; 4]) -> [i32; 4] {
    qmul(a, b).map(|x| x / 2) // doubled representation
}
pub const UNIT_LETTERS: &str = "+-iIjJkKqQxXyYzZsSuUvVwW";
/// Normal form of the circulant matrix of a quaternion sequence, unique up to
/// conjugation by a unit.
pub fn normal_form(line: &str) -> Vec<Vec<[i32; 4]>> {
    let s: Vec<[i32; 4]> = line.chars().filter_map(letter_quaternion).collect();
    let n = s.len();
    let e = |r: usize, c: usize| s[(c + n - r) % n];
    let mut nf = vec![vec![[0; 4]; n]; n];
    for r in 0..n {
        let first = qmul2(e(r, 0), conj(e(0, 0)));
        for c in 0..n {
            nf[r][c] = qmul2(conj(first), qmul2(e(r, c), conj(e(0, c))));
        }
    }
    nf
}
/// Is `rows` (letters) a normalised quaternionic Hadamard matrix that comes from
/// the circulant matrix of the quaternion sequence `line`?
pub fn check_qhm(rows: &[Vec<char>], line: &str) -> Result<(), String> {
    let s: Vec<[i32; 4]> = line.chars().map(|c| letter_quaternion(c).ok_or("letter")).collect::<Result<_, _>>()?;
    let n = s.len();
    if rows.len() != n || rows.iter().any(|r| r.len() != n) {
        return Err(format!("matrix is not {n} by {n}"));
    }
    let mut m = vec![vec![[0; 4]; n]; n];
    for r in 0..n {
        for c in 0..n {
            m[r][c] = letter_quaternion(rows[r][c]).ok_or(format!("unknown letter {}", rows[r][c]))?;
            if (r == 0 || c == 0) && m[r][c] != [2, 0, 0, 0] {
                return Err("first row and column are not all 1".into());
            }
        }
    }
    for r in 0..n {
        for t in 0..r {
            let mut sum = [0; 4];
            for c in 0..n {
                let p = qmul2(m[r][c], conj(m[t][c]));
                for k in 0..4 {
                    sum[k] += p[k];
                }
            }
            if sum != [0; 4] {
                return Err(format!("rows {t} and {r} are not orthogonal"));
            }
        }
    }
    let nf = normal_form(line);
    for u in UNIT_LETTERS.chars() {
        let u = letter_quaternion(u).unwrap();
        if (0..n).all(|r| (0..n).all(|c| qmul2(qmul2(conj(u), nf[r][c]), u) == m[r][c])) {
            return Ok(());
        }
    }
    Err("matrix does not come from this sequence".into())
}
/// Blocks of a result.qhm file.
pub fn parse_qhm(text: &str) -> Vec<Vec<Vec<char>>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<char>> = vec![];
    for l in text.lines() {
        let row: Vec<char> = l.chars().filter(|c| !c.is_whitespace() && *c != '|').collect();
        if row.is_empty() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(row);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
/// A line of result.mat as a square matrix of +-1.
pub fn parse_mat(line: &str) -> Result<Vec<Vec<i8>>, String> {
    let inner = line.find('(').and_then(|a| line.rfind(')').map(|b| &line[a + 1..b])).ok_or("no matrix in line")?;
    let mut v: Vec<i8> = vec![];
    for t in inner.split(|c: char| c == '[' || c == ']' || c == ',' || c.is_whitespace()) {
        match t {
            "" => {}
            "1" => v.push(1),
            "-1" => v.push(-1),
            x => return Err(format!("entry {x}")),
        }
    }
    let n = (v.len() as f64).sqrt().round() as usize;
    if n == 0 || n * n != v.len() {
        return Err(format!("{} entries", v.len()));
    }
    Ok(v.chunks(n).map(|c| c.to_vec()).collect())
}
pub fn is_hadamard(m: &[Vec<i8>]) -> bool {
    (0..m.len()).all(|a| (0..a).all(|b| m[a].iter().zip(&m[b]).map(|(x, y)| (x * y) as i32).sum::<i32>() == 0))
}
/// The Hadamard matrix of a quadruple: [W X Y Z] over the quaternion group, with
/// circulant blocks.  Written from the definition of "quaternion type": block
/// (a,b) is the coefficient of the unit u with  u * e_a = +-e_b (the convention
/// of the program; the other one gives the transposed matrix).
pub fn hadamard_of(q: &Quad, n: usize) -> Vec<Vec<i8>> {
    let e = |i: usize| {
        let mut v = [0; 4];
        v[i] = 1;
        v
    };
    let mut m = vec![vec![0i8; 4 * n]; 4 * n];
    for a in 0..4 {
        for u in 0..4 {
            let p = qmul(e(u), e(a));
            let b = p.iter().position(|x| *x != 0).unwrap();
            for r in 0..n {
                for c in 0..n {
                    let v = if (q[u] >> ((c + n - r) % n)) & 1 == 1 { 1 } else { -1 };
                    m[a * n + r][b * n + c] = v * p[b] as i8;
                }
            }
        }
    }
    m
}
/// Complete invariant of Hadamard equivalence (canonical labelling of the usual
/// graph on signed rows and columns, rows marked by an extra vertex).
pub type HClass = graph_canon::CanonLabeling;
pub fn hadamard_class(m: &[Vec<i8>]) -> HClass {
    let n = m.len();
    let mut g = petgraph::Graph::<i32, i32, petgraph::Undirected>::new_undirected();
    let v: Vec<_> = (0..4 * n + 1).map(|_| g.add_node(0)).collect();
    for r in 0..2 * n {
        g.add_edge(v[4 * n], v[r], 0);
    }
    for r in 0..n {
        g.add_edge(v[r], v[n + r], 0);
        g.add_edge(v[2 * n + r], v[3 * n + r], 0);
        for c in 0..n {
            if m[r][c] == 1 {
                g.add_edge(v[r], v[2 * n + c], 0);
                g.add_edge(v[n + r], v[3 * n + c], 0);
            } else {
                g.add_edge(v[r], v[3 * n + c], 0);
                g.add_edge(v[n + r], v[2 * n + c], 0);
            }
        }
    }
    graph_canon::CanonLabeling::new(&g)
}
