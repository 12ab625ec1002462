//! Simulated command-line tools the scripts call.  They are small programs with
//! the documented behaviour of the real ones, whose every file operation is a
//! numbered step of the simulation (fault, kill point, scheduling point).
use std::ffi::CString;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::UnixStream;
use std::path::{Component, Path, PathBuf};

struct Fault {
    op: u64,
    kind: String,
    arg: i64,
}
struct Sticky {
    from: u64,
    cls: char,
    errno: i32,
    path: String,
    fired: bool,
}
pub struct Sim {
    s: Option<UnixStream>,
    buf: Vec<u8>,
    ops: u64,
    wbytes: u64,
    faults: Vec<Fault>,
    sticky: Vec<Sticky>,
    cap: i64,
    step: bool,
    trace: bool,
    dir: u64,
    dirs: u64,
    clock: i64,
    hash: u64,
    fail: i32,
    digest: u64,
}
type R<T> = Result<T, i32>; // error number
pub const CHUNK: usize = 8192;

impl Sim {
    fn say(&mut self, l: &str) {
        if let Some(s) = &mut self.s {
            if s.write_all(format!("{l}\n").as_bytes()).is_err() {
                std::process::exit(98);
            }
        }
    }
    fn hear(&mut self) -> String {
        loop {
            if let Some(p) = self.buf.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.buf.drain(..=p).collect();
                return String::from_utf8_lossy(&l[..l.len() - 1]).into_owned();
            }
            let mut b = [0u8; 4096];
            match self.s.as_mut().unwrap().read(&mut b) {
                Ok(n) if n > 0 => self.buf.extend_from_slice(&b[..n]),
                _ => std::process::exit(98),
            }
        }
    }
    fn start(name: &str, args: &[String]) -> Sim {
        let mut m = Sim { s: None, buf: vec![], ops: 0, wbytes: 0, faults: vec![], sticky: vec![], cap: -1, step: false, trace: false, dir: 0, dirs: 0, clock: 1_700_000_000_000_000_000, hash: 0, fail: 0, digest: 0xcbf29ce484222325 };
        let p = match std::env::var("VSIM_SOCK") {
            Ok(p) => p,
            Err(_) => return m,
        };
        match UnixStream::connect(p) {
            Ok(s) => m.s = Some(s),
            Err(_) => std::process::exit(98),
        }
        let tag = std::env::var("VSIM_TAG").unwrap_or("-".into());
        let mut a = args.join(" ").replace('\n', " ");
        a.truncate(600);
        m.say(&format!("H {} {} {} {}", std::process::id(), name, tag, a));
        loop {
            let l = m.hear();
            if l == "END" {
                break;
            }
            let w: Vec<&str> = l.split(' ').collect();
            let num = |i: usize| w.get(i).and_then(|x| x.parse::<i128>().ok()).unwrap_or(0) as i64;
            match w[0] {
                "hash" => m.hash = num(1) as u64,
                "dir" => m.dir = num(1) as u64,
                "clock" => m.clock = num(1),
                "fault" => m.faults.push(Fault { op: num(1) as u64, kind: w[2].into(), arg: num(3) }),
                "sticky" => m.sticky.push(Sticky { from: num(1) as u64, cls: w[2].chars().next().unwrap(), errno: num(3) as i32, path: if w[4] == "*" { "".into() } else { w[4].into() }, fired: false }),
                "cap" => m.cap = num(1),
                "step" => m.step = true,
                "trace" => m.trace = true,
                "fail" => m.fail = num(1) as i32,
                _ => {}
            }
        }
        m
    }
    fn die(&mut self, how: &str) -> ! {
        let l = format!("K {} {how}", self.ops);
        self.say(&l);
        self.hear();
        unsafe {
            libc::kill(libc::getpid(), libc::SIGKILL);
            loop {
                libc::pause();
            }
        }
    }
    /// Begin an operation: returns (transfer limit, kill afterwards) or the error.
    fn op(&mut self, cls: char, path: &str) -> R<(Option<usize>, Option<&'static str>)> {
        self.ops += 1;
        for b in [cls as u8].iter().chain(path.as_bytes()) {
            self.digest = (self.digest ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        if self.s.is_none() {
            return Ok((None, None));
        }
        let n = self.ops;
        if self.step {
            self.say(&format!("S {n} {cls} {path}"));
            if self.hear().starts_with('K') {
                self.die("step");
            }
        } else if self.trace {
            self.say(&format!("T {n} {cls} {path}"));
        }
        if let Some(f) = self.faults.iter().find(|f| f.op == n) {
            let (k, arg) = (f.kind.clone(), f.arg);
            match k.as_str() {
                "killb" => {
                    self.say(&format!("F {n} killb {cls}"));
                    self.die("before")
                }
                "killa" => return Ok((None, Some("killa"))),
                "torn" => return Ok((Some(if arg < 0 { usize::MAX - 1 } else { arg as usize }), Some("torn"))),
                "short" => {
                    if "rwW".contains(cls) {
                        self.say(&format!("F {n} short {cls}"));
                        return Ok((Some(if arg <= 0 { usize::MAX - 1 } else { arg as usize }), None));
                    }
                }
                "eintr" => {
                    self.say(&format!("F {n} eintr {cls}"));
                    return Err(libc::EINTR);
                }
                "err" => {
                    self.say(&format!("F {n} err {cls}"));
                    return Err(arg as i32);
                }
                _ => {}
            }
        }
        let mut hit = None;
        for s in self.sticky.iter_mut() {
            if n >= s.from && s.cls == cls && (s.path.is_empty() || path.contains(&s.path)) {
                hit = Some((s.errno, !s.fired));
                s.fired = true;
                break;
            }
        }
        if let Some((e, first)) = hit {
            if first {
                self.say(&format!("F {n} sticky{e} {cls}"));
            }
            return Err(e);
        }
        Ok((None, None))
    }
    fn after(&mut self, k: Option<&'static str>, cls: char) {
        if let Some(k) = k {
            let n = self.ops;
            self.say(&format!("F {n} {k} {cls}"));
            self.die(if k == "torn" { "torn" } else { "after" });
        }
    }
    fn open(&mut self, p: &str) -> R<fs::File> {
        let (_, k) = self.op('o', p)?;
        let r = fs::File::open(p).map_err(eno);
        self.after(k, 'o');
        r
    }
    fn create(&mut self, p: &str, append: bool) -> R<fs::File> {
        let (_, k) = self.op('c', p)?;
        if self.cap == 0 && !Path::new(p).exists() {
            let n = self.ops;
            self.say(&format!("F {n} nospace c"));
            return Err(libc::ENOSPC);
        }
        let mut o = fs::OpenOptions::new();
        o.create(true);
        if append {
            o.append(true);
        } else {
            o.write(true).truncate(true);
        }
        let r = o.open(p).map_err(eno);
        self.after(k, 'c');
        r
    }
    /// One write call; writes what it can and returns how much.
    fn write1(&mut self, f: &mut dyn Write, b: &[u8], cls: char, p: &str) -> R<usize> {
        let (lim, k) = self.op(cls, p)?;
        let mut len = b.len();
        if let Some(l) = lim {
            len = len.min(if l == usize::MAX - 1 { (len + 1) / 2 } else { l });
        }
        if cls == 'w' && self.cap >= 0 && k != Some("torn") {
            let n = self.ops;
            if self.cap == 0 {
                self.say(&format!("F {n} nospace w"));
                return Err(libc::ENOSPC);
            }
            if len as i64 > self.cap {
                len = self.cap as usize;
                self.say(&format!("F {n} shortspace w"));
            }
        }
        f.write_all(&b[..len]).map_err(eno)?;
        f.flush().map_err(eno)?;
        if cls == 'w' {
            self.wbytes += len as u64;
            if self.cap >= 0 {
                self.cap -= len as i64;
            }
        }
        self.after(k, cls);
        Ok(len)
    }
    fn write_all(&mut self, f: &mut dyn Write, b: &[u8], cls: char, p: &str) -> R<()> {
        let mut off = 0;
        while off < b.len() {
            let end = (off + CHUNK).min(b.len());
            match self.write1(f, &b[off..end], cls, p) {
                Ok(n) => off += n,
                Err(libc::EINTR) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn read_all(&mut self, f: &mut fs::File, p: &str) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let (lim, k) = match self.op('r', p) {
                Ok(x) => x,
                Err(libc::EINTR) => continue,
                Err(e) => return Err(e),
            };
            let max = match lim {
                Some(l) => l.clamp(1, CHUNK / 2),
                None => CHUNK,
            };
            let mut b = vec![0u8; max];
            let n = f.read(&mut b).map_err(eno)?;
            self.after(k, 'r');
            if n == 0 {
                return Ok(out);
            }
            out.extend_from_slice(&b[..n]);
        }
    }
    fn simple<T>(&mut self, cls: char, p: &str, f: impl FnOnce() -> std::io::Result<T>) -> R<T> {
        let (_, k) = self.op(cls, p)?;
        let r = f().map_err(eno);
        self.after(k, cls);
        r
    }
    fn list(&mut self, p: &Path) -> R<Vec<PathBuf>> {
        let (_, k) = self.op('D', &p.to_string_lossy())?;
        let mut v: Vec<PathBuf> = fs::read_dir(p).map_err(eno)?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        v.sort();
        self.dirs += 1;
        if self.dir != 0 {
            let mut st = self.dir.wrapping_add(self.dirs.wrapping_mul(0x51ED27));
            for i in (1..v.len()).rev() {
                let j = (crate::rng::splitmix(&mut st) % (i as u64 + 1)) as usize;
                v.swap(i, j);
            }
        }
        self.after(k, 'D');
        Ok(v)
    }
    fn finish(&mut self, code: i32) -> ! {
        let l = format!("B code={code} ops={} wbytes={} th={:x}", self.ops, self.wbytes, self.digest);
        self.say(&l);
        std::process::exit(code)
    }
}
fn eno(e: std::io::Error) -> i32 {
    e.raw_os_error().unwrap_or(libc::EIO)
}
fn estr(e: i32) -> String {
    std::io::Error::from_raw_os_error(e).to_string()
}

pub fn main(name: &str, args: Vec<String>) -> ! {
    match name {
        "sort" => sort(args),
        "tee" => tee(args),
        "rm" => rm(args),
        "rmdir" => rm_dir(args),
        "mkdir" => mkdir(args),
        "mv" => mv(args),
        "date" => date(args),
        "cargo" => cargo(args),
        "sleep" => {
            let mut s = Sim::start("sleep", &args);
            let _ = s.op('t', "sleep");
            s.finish(0)
        }
        _ => std::process::exit(127),
    }
}

/// Order of bytes under a locale that ignores punctuation at first sight, like
/// the usual UTF-8 locales do; strcoll falls back to the bytes on a tie.
fn locale_cmp(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    let k = |x: &[u8]| x.iter().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect::<Vec<u8>>();
    k(a).cmp(&k(b)).then(a.cmp(b))
}
fn byte_locale() -> bool {
    for v in ["LC_ALL", "LC_COLLATE", "LANG"] {
        if let Ok(x) = std::env::var(v) {
            if !x.is_empty() {
                return x == "C" || x == "POSIX" || x.starts_with("C.");
            }
        }
    }
    true
}
fn sort(args: Vec<String>) -> ! {
    // a sort of a few lines in a pipeline is a filter, not a step of its own
    let valued = |a: &String| ["-T", "-o", "-S", "-k", "-t"].contains(&a.as_str());
    let filter = !args.iter().any(|a| a.starts_with("-T") || a.starts_with("-o") || a.starts_with("--t") || a.starts_with("--o"))
        && args.iter().enumerate().all(|(i, a)| a.starts_with('-') || (i > 0 && valued(&args[i - 1])));
    if filter {
        std::env::remove_var("VSIM_SOCK");
    }
    let mut s = Sim::start("sort", &args);
    let mut files = vec![];
    let mut tdir = std::env::var("TMPDIR").unwrap_or("/tmp".into());
    let (mut unique, mut out, mut other) = (false, None, vec![]);
    let mut i = 0;
    while i < args.len() {
        let a = args[i].clone();
        let val = |i: &mut usize, n: usize| {
            if a.len() > n {
                a[n..].to_string()
            } else {
                *i += 1;
                args.get(*i).cloned().unwrap_or_default()
            }
        };
        if a == "-T" || (a.starts_with("-T") && a.len() > 2) {
            tdir = val(&mut i, 2)
        } else if let Some(v) = a.strip_prefix("--temporary-directory=") {
            tdir = v.into()
        } else if a == "-S" || a.starts_with("-S") {
            val(&mut i, 2);
        } else if a.starts_with("--parallel") || a.starts_with("--buffer-size") || a == "-s" || a == "--stable" {
        } else if a == "-u" || a == "--unique" {
            unique = true
        } else if a == "-o" || a.starts_with("-o") {
            out = Some(val(&mut i, 2))
        } else if let Some(v) = a.strip_prefix("--output=") {
            out = Some(v.to_string())
        } else if a == "--" {
            files.extend_from_slice(&args[i + 1..]);
            break;
        } else if a == "-k" || a == "-t" || a == "--key" || a == "--field-separator" {
            i += 1;
            other.push(a);
            other.extend(args.get(i).cloned());
        } else if a.starts_with('-') && a.len() > 1 {
            other.push(a);
        } else {
            files.push(a);
        }
        i += 1;
    }
    let fail = |s: &mut Sim, what: &str, p: &str, e: i32| -> ! {
        eprintln!("sort: {what}: {p}: {}", estr(e));
        s.finish(2)
    };
    let mut data = vec![];
    if files.is_empty() {
        let _ = std::io::stdin().read_to_end(&mut data);
    }
    for p in &files {
        let mut f = match s.open(p) {
            Ok(f) => f,
            Err(e) => fail(&mut s, "cannot read", p, e),
        };
        match s.read_all(&mut f, p) {
            Ok(mut d) => {
                if !d.is_empty() && *d.last().unwrap() != b'\n' {
                    d.push(b'\n');
                }
                data.extend(d)
            }
            Err(e) => fail(&mut s, "read failed", p, e),
        }
    }
    // spill to a temporary file in the given directory, as large inputs do
    let tmp = format!("{}/sort{:x}", tdir.trim_end_matches('/'), if filter { std::process::id() as u64 } else { s.hash & 0xffffffffff });
    s.say(&format!("D {tdir}"));
    let mut tf = match s.create(&tmp, false) {
        Ok(f) => f,
        Err(e) => fail(&mut s, "cannot create temporary file in", &tdir, e),
    };
    let r = s.write_all(&mut tf, &data, 'w', &tmp);
    drop(tf);
    let fail_tmp = |s: &mut Sim, what: &str, p: &str, e: i32| -> ! {
        let _ = fs::remove_file(&tmp);
        eprintln!("sort: {what}: {p}: {}", estr(e));
        s.finish(2)
    };
    if let Err(e) = r {
        fail_tmp(&mut s, "write failed", &tmp, e)
    }
    let data = match s.open(&tmp).and_then(|mut f| s.read_all(&mut f, &tmp)) {
        Ok(d) => d,
        Err(e) => fail_tmp(&mut s, "read failed", &tmp, e),
    };
    let mut res: Vec<u8>;
    if !other.is_empty() {
        // options this stand-in does not know: let the real program do the ordering
        let mut c = std::process::Command::new("/usr/bin/sort");
        c.args(&other).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped());
        if unique {
            c.arg("-u");
        }
        let mut ch = c.spawn().expect("sort");
        let mut inp = ch.stdin.take().unwrap();
        let d2 = data.clone();
        let t = std::thread::spawn(move || {
            let _ = inp.write_all(&d2);
        });
        let o = ch.wait_with_output().expect("sort");
        let _ = t.join();
        if !o.status.success() {
            let _ = fs::remove_file(&tmp);
            s.finish(2);
        }
        res = o.stdout;
    } else {
        let mut lines: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
        if lines.last().map_or(false, |l| l.is_empty()) {
            lines.pop();
        }
        if byte_locale() {
            lines.sort();
        } else {
            lines.sort_by(|a, b| locale_cmp(a, b));
        }
        if unique {
            lines.dedup();
        }
        res = Vec::with_capacity(data.len());
        for l in lines {
            res.extend_from_slice(l);
            res.push(b'\n');
        }
    }
    let r = match &out {
        Some(p) => match s.create(p, false) {
            Ok(mut f) => s.write_all(&mut f, &res, 'w', p),
            Err(e) => fail_tmp(&mut s, "open failed", p, e),
        },
        None => s.write_all(&mut Fd1, &res, 'W', "<stdout>"),
    };
    if let Err(e) = r {
        fail_tmp(&mut s, "write failed", out.as_deref().unwrap_or("'standard output'"), e)
    }
    let _ = s.simple('m', &tmp, || fs::remove_file(&tmp));
    s.finish(0)
}
struct Fd1;
impl Write for Fd1 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let r = unsafe { libc::write(1, b.as_ptr() as *const _, b.len()) };
        if r < 0 {
            Err(std::io::Error::last_os_error())
        } else {
            Ok(r as usize)
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn tee(args: Vec<String>) -> ! {
    // All input is taken before the first step, so that a pipeline has one
    // active process at a time (a legal schedule of the two processes).
    let mut data = vec![];
    let _ = std::io::stdin().read_to_end(&mut data);
    let mut s = Sim::start("tee", &args);
    let append = args.iter().any(|a| a == "-a" || a == "--append");
    let mut code = 0;
    let mut outs = vec![];
    for p in args.iter().filter(|a| !a.starts_with('-')) {
        match s.create(p, append) {
            Ok(f) => outs.push((p.clone(), f)),
            Err(e) => {
                eprintln!("tee: {p}: {}", estr(e));
                code = 1
            }
        }
    }
    if s.write_all(&mut Fd1, &data, 'W', "<stdout>").is_err() {
        code = 1;
    }
    for (p, mut f) in outs {
        if let Err(e) = s.write_all(&mut f, &data, 'w', &p) {
            eprintln!("tee: {p}: {}", estr(e));
            code = 1;
        }
    }
    s.finish(code)
}
/// The path as seen from the root of the simulated world, whatever the working directory.
fn from_root(p: &str) -> String {
    let root = std::env::var("VSIM_ROOT").unwrap_or_default();
    let abs = std::env::current_dir().unwrap_or_default().join(p);
    let mut out = PathBuf::new();
    for c in abs.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    match out.strip_prefix(&root) {
        Ok(r) if !root.is_empty() => r.display().to_string(),
        _ => p.to_string(),
    }
}
/// Removal happens for real only inside the simulated working directory.
fn contained(p: &Path) -> bool {
    let root = match std::env::var("VSIM_ROOT") {
        Ok(r) => r,
        Err(_) => return false,
    };
    let abs = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir().unwrap_or_default().join(p) };
    let name = match abs.file_name() {
        Some(n) => n.to_owned(),
        None => return false, // "..", "/" and the like
    };
    let parent = match abs.parent().map(fs::canonicalize) {
        Some(Ok(x)) => x,
        _ => return true, // nothing there to remove
    };
    parent.join(name).starts_with(&root) && parent.starts_with(&root)
}
fn rm(args: Vec<String>) -> ! {
    let mut s = Sim::start("rm", &args);
    let (mut rec, mut force, mut code) = (false, false, 0);
    let mut paths = vec![];
    let mut end = false;
    for a in &args {
        if end || !a.starts_with('-') || a == "-" {
            paths.push(a.clone());
        } else if a == "--" {
            end = true;
        } else if a.starts_with("--") {
            rec |= a == "--recursive";
            force |= a == "--force";
        } else {
            rec |= a.contains('r') || a.contains('R');
            force |= a.contains('f');
        }
    }
    for p in paths {
        s.say(&format!("R {}", from_root(&p)));
        if !contained(Path::new(&p)) {
            s.say(&format!("V rm outside the working directory: {p}"));
            eprintln!("rm: refused: {p}");
            code = 1;
            continue;
        }
        if Path::new(&p).file_name().map_or(true, |f| f == "." || f == "..") {
            code = 1;
            continue;
        }
        rm_one(&mut s, Path::new(&p), rec, force, &mut code);
    }
    s.finish(code)
}
fn rm_one(s: &mut Sim, p: &Path, rec: bool, force: bool, code: &mut i32) {
    let d = p.display().to_string();
    match fs::symlink_metadata(p) {
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
            if !force {
                eprintln!("rm: cannot remove '{d}': No such file or directory");
                *code = 1;
            }
        }
        Err(e) => {
            eprintln!("rm: cannot remove '{d}': {e}");
            *code = 1;
        }
        Ok(m) if m.is_dir() => {
            if !rec {
                eprintln!("rm: cannot remove '{d}': Is a directory");
                *code = 1;
                return;
            }
            match s.list(p) {
                Ok(v) => {
                    for c in v {
                        rm_one(s, &c, rec, force, code);
                    }
                }
                Err(e) => {
                    eprintln!("rm: cannot remove '{d}': {}", estr(e));
                    *code = 1;
                    return;
                }
            }
            if let Err(e) = s.simple('m', &d, || fs::remove_dir(p)) {
                eprintln!("rm: cannot remove '{d}': {}", estr(e));
                *code = 1;
            }
        }
        Ok(_) => {
            if let Err(e) = s.simple('m', &d, || fs::remove_file(p)) {
                eprintln!("rm: cannot remove '{d}': {}", estr(e));
                *code = 1;
            }
        }
    }
}
fn rm_dir(args: Vec<String>) -> ! {
    let mut s = Sim::start("rmdir", &args);
    let mut code = 0;
    for p in args.iter().filter(|a| !a.starts_with('-')) {
        s.say(&format!("R {}", from_root(&p)));
        if !contained(Path::new(p)) {
            s.say(&format!("V rmdir outside the working directory: {p}"));
            code = 1;
        } else if let Err(e) = s.simple('m', p, || fs::remove_dir(p)) {
            eprintln!("rmdir: failed to remove '{p}': {}", estr(e));
            code = 1;
        }
    }
    s.finish(code)
}
fn mkdir(args: Vec<String>) -> ! {
    let mut s = Sim::start("mkdir", &args);
    let parents = args.iter().any(|a| a == "-p" || a == "--parents");
    let mut code = 0;
    for p in args.iter().filter(|a| !a.starts_with('-')) {
        let mut todo = vec![];
        if parents {
            let mut cur = PathBuf::new();
            for c in Path::new(p).components() {
                cur.push(c);
                todo.push(cur.clone());
            }
        } else {
            todo.push(PathBuf::from(p));
        }
        for d in todo {
            if parents && d.is_dir() {
                continue;
            }
            match s.simple('d', &d.display().to_string(), || fs::create_dir(&d)) {
                Ok(_) => {}
                Err(_) if parents && d.is_dir() => {}
                Err(e) => {
                    eprintln!("mkdir: cannot create directory '{}': {}", d.display(), estr(e));
                    code = 1;
                    break;
                }
            }
        }
    }
    s.finish(code)
}
fn mv(args: Vec<String>) -> ! {
    let mut s = Sim::start("mv", &args);
    let p: Vec<&String> = args.iter().filter(|a| !a.starts_with('-')).collect();
    if p.len() < 2 {
        s.finish(1);
    }
    let dest = p[p.len() - 1].clone();
    let mut code = 0;
    for src in &p[..p.len() - 1] {
        let to = if Path::new(&dest).is_dir() { Path::new(&dest).join(Path::new(src).file_name().unwrap_or_default()) } else { PathBuf::from(&dest) };
        if !contained(Path::new(src)) || !contained(&to) {
            s.say(&format!("V mv outside the working directory: {src}"));
            code = 1;
            continue;
        }
        let c = |p: &Path| CString::new(p.as_os_str().as_bytes()).unwrap();
        let (a, b) = (c(Path::new(src)), c(&to));
        let r = s.simple('m', src, || if unsafe { libc::rename(a.as_ptr(), b.as_ptr()) } < 0 { Err(std::io::Error::last_os_error()) } else { Ok(()) });
        if let Err(e) = r {
            eprintln!("mv: cannot move '{src}': {}", estr(e));
            code = 1;
        }
    }
    s.finish(code)
}
fn date(args: Vec<String>) -> ! {
    let mut s = Sim::start("date", &args);
    if s.fail != 0 {
        let c = s.fail;
        s.finish(c);
    }
    let (sec, ns) = (s.clock.div_euclid(1_000_000_000), s.clock.rem_euclid(1_000_000_000));
    match args.get(0) {
        Some(f) if f.starts_with('+') => println!("{}", f[1..].replace("%s", &sec.to_string()).replace("%N", &format!("{ns:09}")).replace("%3N", &format!("{:03}", ns / 1_000_000))),
        _ => println!("@{sec}"),
    }
    s.finish(0)
}
fn cargo(args: Vec<String>) -> ! {
    let mut s = Sim::start("cargo", &args);
    let _ = s.op('t', "build");
    if s.fail != 0 {
        eprintln!("error: could not compile `rust` (bin \"rust\")");
        let c = s.fail;
        s.say("F 1 fail t");
        s.finish(c);
    }
    eprintln!("    Finished `release` profile [optimized] target(s)");
    s.finish(0)
}
