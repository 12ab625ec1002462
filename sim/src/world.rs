//! The simulated machine: a scratch working directory, the processes of one or
//! more concurrent commands ("actors"), and the coordinator that gives every
//! process its plan, injects faults, decides interleavings and records events.
use crate::rng::{hash_str, mix, Rng};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, RawFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const SCRIPTS: &[&str] = &["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh", "countpairs.sh", "pair_file_cleanup.sh", "collect_results.py"];
pub const TOOLS: &[&str] = &["sort", "tee", "rm", "rmdir", "mkdir", "mv", "date", "cargo", "sleep"];

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub actor: Option<usize>,
    pub sel: String,      // prefix of the process name
    pub occ: Option<u64>, // which of the matching processes, counted from 0
    pub group: bool,      // a kill takes the whole actor (script and children)
    pub line: String,     // plan line
}
/// Environment choices shared by all processes of a run.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub hash: u64,
    pub dir: u64,
    pub dtype_unknown: bool,
    pub fft: Option<i64>, // None: derived per process from `fftmix`
    pub fftmix: u64,
    pub clock_step: u64,
    pub jumps: Vec<(u64, i64)>, // at process number, nanoseconds
    pub threads: usize,
    pub locale: String,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub env: Env,
    pub rules: Vec<Rule>,
    pub trace: bool,
    pub oplimit: u64,
}
#[derive(Clone, Debug)]
pub struct Schedule {
    pub deviations: BTreeMap<u64, usize>,
    pub rng: Option<(Rng, u64)>, // random deviations with probability 1/x
    pub decisions: u64,
}
impl Schedule {
    pub fn fixed(d: BTreeMap<u64, usize>) -> Schedule {
        Schedule { deviations: d, rng: None, decisions: 0 }
    }
}
#[derive(Clone, Debug)]
pub struct Actor {
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub node: NodeKind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NodeKind {
    Plain,
    Inst,
}
impl Actor {
    pub fn sh(line: &str) -> Actor {
        Actor { argv: line.split_whitespace().map(|s| s.to_string()).collect(), env: vec![], node: NodeKind::Plain }
    }
    pub fn node(line: &str) -> Actor {
        Actor::sh(&format!("./target/release/rust {line}"))
    }
    pub fn inst(line: &str) -> Actor {
        Actor { node: NodeKind::Inst, ..Actor::node(line) }
    }
    pub fn env(mut self, k: &str, v: &str) -> Actor {
        self.env.push((k.into(), v.into()));
        self
    }
}
#[derive(Clone, Debug, Default)]
pub struct Proc {
    pub actor: usize,
    pub name: String,
    pub code: Option<i32>,
    pub stats: BTreeMap<String, String>,
    pub fired: Vec<(u64, String, char)>,
    pub trace: Vec<(u64, char, String)>,
    pub flags: Vec<String>,
    pub removals: Vec<String>,
    pub killed: bool,
    pub preempts: u64,
}
impl Proc {
    pub fn stat(&self, k: &str) -> u64 {
        self.stats.get(k).and_then(|v| v.parse().ok()).unwrap_or(0)
    }
}
#[derive(Clone, Debug, Default)]
pub struct ActorEnd {
    pub code: i32, // exit status, or 128 + signal
    pub out: String,
    pub err: String,
}
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub procs: Vec<Proc>,
    pub ends: Vec<ActorEnd>,
    pub hang: bool,
    pub schedule: BTreeMap<u64, usize>,
    pub decisions: u64,
    pub digest: u64,
    pub sim_ns: i64,
    pub jumped: i64,
}
impl Run {
    pub fn find(&self, prefix: &str) -> Vec<&Proc> {
        self.procs.iter().filter(|p| p.name.starts_with(prefix)).collect()
    }
    pub fn ok(&self) -> bool {
        !self.hang && self.ends.iter().all(|e| e.code == 0)
    }
    pub fn fired(&self) -> usize {
        self.procs.iter().map(|p| p.fired.len()).sum()
    }
    /// Any process outside the expected protocol (an error of the harness).
    pub fn harness_error(&self) -> Option<String> {
        for p in &self.procs {
            if p.code == Some(98) || p.flags.iter().any(|f| f.starts_with('E')) {
                return Some(format!("{}: {:?}", p.name, p.flags));
            }
        }
        None
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    Dir,
    File(Vec<u8>),
    Link(String),
}
pub type Snap = BTreeMap<String, Ent>;

enum St {
    NotStarted,
    Running,
    Waiting(usize), // connection
    Done,
}
struct Conn {
    s: Option<UnixStream>,
    buf: Vec<u8>,
    proc: Option<usize>,
    pid: i32,
    open: bool,
    kill_group: bool,
    hello_wait: bool, // the pending grant is the plan
}
pub struct World {
    pub base: PathBuf,
    pub w: PathBuf,
    pub root: PathBuf,
    listener: UnixListener,
    uid: u32,
    pub clock: i64,
    pub limit: Duration,
    no_program: bool,
}
struct Live {
    child: Child,
    eof: RawFd,
    pgid: i32,
}

impl World {
    pub fn new(root: &Path, id: usize) -> World {
        let base = root.join(format!("{id}"));
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(&base).expect("scratch");
        let w = base.join("w");
        let sp = base.join("sock");
        let listener = UnixListener::bind(&sp).expect("bind");
        listener.set_nonblocking(true).unwrap();
        let want = 61000 + id as u32;
        let uid = if unsafe { libc::geteuid() } == 0 && Command::new("/bin/true").uid(want).gid(want).status().map_or(false, |s| s.success()) { want } else { 0 };
        chown(&sp, uid);
        let mut x = World { base, w, root: root.into(), listener, uid, clock: 0, limit: Duration::from_secs(120), no_program: false };
        x.reset();
        x
    }
    /// Fresh working directory with the scripts of the tree under test.
    pub fn reset(&mut self) {
        let _ = fs::remove_dir_all(&self.w);
        fs::create_dir_all(self.w.join("target/release")).expect("scratch");
        for s in SCRIPTS {
            let from = self.root.join("scripts").join(s);
            if from.exists() {
                // a link: a copy being written could be busy when it is executed
                fs::hard_link(&from, self.w.join(s)).expect("script");
            }
        }
        std::os::unix::fs::symlink(self.root.join("bin/node"), self.w.join("target/release/rust")).expect("link");
        self.chown_tree();
        self.clock = 1_700_000_000_000_000_000;
    }
    pub fn chown_tree(&self) {
        fn rec(p: &Path, u: u32) {
            use std::os::unix::fs::MetadataExt;
            if let Ok(m) = fs::symlink_metadata(p) {
                if m.is_dir() || m.nlink() < 2 {
                    chown(p, u);
                }
                if m.is_dir() {
                    if let Ok(d) = fs::read_dir(p) {
                        for e in d.flatten() {
                            rec(&e.path(), u);
                        }
                    }
                }
            }
        }
        rec(&self.w, self.uid);
    }
    pub fn select_node(&self, k: NodeKind) {
        let l = self.w.join("target/release/rust");
        let _ = fs::remove_file(&l);
        let t = if k == NodeKind::Inst { "bin/inst" } else { "bin/node" };
        std::os::unix::fs::symlink(self.root.join(t), &l).expect("link");
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.w.join(p)
    }
    pub fn read(&self, p: &str) -> Option<Vec<u8>> {
        fs::read(self.w.join(p)).ok()
    }
    pub fn text(&self, p: &str) -> Option<String> {
        self.read(p).map(|b| String::from_utf8_lossy(&b).into_owned())
    }
    pub fn put(&self, p: &str, b: &[u8]) {
        let f = self.w.join(p);
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        fs::write(&f, b).unwrap();
    }
    pub fn snapshot(&self, sub: &str) -> Snap {
        let mut s = Snap::new();
        fn rec(root: &Path, p: &Path, s: &mut Snap) {
            if let Ok(m) = fs::symlink_metadata(p) {
                let name = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                if m.file_type().is_symlink() {
                    s.insert(name, Ent::Link(fs::read_link(p).map(|x| x.to_string_lossy().into_owned()).unwrap_or_default()));
                } else if m.is_dir() {
                    s.insert(name, Ent::Dir);
                    if let Ok(d) = fs::read_dir(p) {
                        for e in d.flatten() {
                            rec(root, &e.path(), s);
                        }
                    }
                } else {
                    s.insert(name, Ent::File(fs::read(p).unwrap_or_default()));
                }
            }
        }
        rec(&self.w, &self.w.join(sub), &mut s);
        s
    }
    pub fn restore(&self, s: &Snap) {
        for (p, e) in s {
            let f = self.w.join(p);
            match e {
                Ent::Dir => {
                    let _ = fs::create_dir_all(&f);
                }
                Ent::File(b) => {
                    if let Some(d) = f.parent() {
                        let _ = fs::create_dir_all(d);
                    }
                    fs::write(&f, b).unwrap();
                }
                Ent::Link(t) => {
                    let _ = std::os::unix::fs::symlink(t, &f);
                }
            }
        }
        self.chown_tree();
    }

    fn spawn(&self, a: &Actor, idx: usize, env: &Env) -> Live {
        let mut p = [0i32; 2];
        if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            panic!("pipe");
        }
        let out = fs::File::create(self.base.join(format!("out{idx}"))).unwrap();
        let err = fs::File::create(self.base.join(format!("err{idx}"))).unwrap();
        let mut c = Command::new(&a.argv[0]);
        c.args(&a.argv[1..]).current_dir(&self.w).stdin(Stdio::null()).stdout(out).stderr(err).env_clear();
        c.env("PATH", format!("{}:/usr/bin:/bin", self.root.join("bin").display()))
            .env("VSIM_SOCK", self.base.join("sock"))
            .env("VSIM_TAG", idx.to_string())
            .env("VSIM_ROOT", &self.w)
            .env("HOME", &self.w)
            .env("PWD", &self.w)
            .env("TMPDIR", &self.w)
            .env("RAYON_NUM_THREADS", env.threads.max(1).to_string())
            .env("LANG", if env.locale.is_empty() { "C" } else { &env.locale });
        for (k, v) in &a.env {
            c.env(k, v);
        }
        if self.uid != 0 {
            c.uid(self.uid).gid(self.uid);
        }
        c.process_group(0);
        let w = p[1];
        unsafe {
            c.pre_exec(move || {
                // (dup2 onto itself would leave the descriptor close-on-exec)
                if w == 200 && libc::fcntl(w, libc::F_SETFD, 0) < 0 || libc::dup2(w, 200) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = match c.spawn() {
            Ok(c) => c,
            Err(e) => panic!("cannot start {:?}: {e}", a.argv),
        };
        unsafe { libc::close(p[1]) };
        let pgid = child.id() as i32;
        Live { child, eof: p[0], pgid }
    }

    /// As `run1`, with the program's binary missing.
    pub fn run_without_program(&mut self, a: &[Actor], plan: &Plan) -> Run {
        self.no_program = true;
        let r = self.run(a, plan, None);
        self.no_program = false;
        r
    }
    pub fn run1(&mut self, a: Actor, plan: &Plan) -> Run {
        self.run(&[a], plan, None)
    }

    pub fn run(&mut self, actors: &[Actor], plan: &Plan, sched: Option<&mut Schedule>) -> Run {
        let mut run = Run::default();
        let n = actors.len();
        let step = sched.is_some();
        let mut sched = sched;
        let mut st: Vec<St> = (0..n).map(|_| St::NotStarted).collect();
        let mut live: Vec<Option<Live>> = (0..n).map(|_| None).collect();
        let mut conns: Vec<Conn> = vec![];
        let mut used = vec![0u64; plan.rules.len()];
        let mut names: BTreeMap<String, u64> = BTreeMap::new();
        let mut cur = 0usize;
        let clock0 = self.clock;
        let mut deadline = Instant::now() + self.limit;
        run.ends = vec![ActorEnd::default(); n];
        if self.no_program {
            let _ = fs::remove_file(self.w.join("target/release/rust"));
        } else {
            self.select_node(actors[0].node);
        }
        let mut digest: Vec<u64> = vec![];
        loop {
            if st.iter().all(|s| matches!(s, St::Done)) {
                break;
            }
            // start or grant
            if !step {
                for i in 0..n {
                    if matches!(st[i], St::NotStarted) {
                        live[i] = Some(self.spawn(&actors[i], i, &plan.env));
                        st[i] = St::Running;
                    }
                }
            } else if !st.iter().any(|s| matches!(s, St::Running)) {
                let s = sched.as_mut().unwrap();
                let cand: Vec<usize> = (0..n).filter(|i| matches!(st[*i], St::NotStarted | St::Waiting(_))).collect();
                let d = s.decisions;
                s.decisions += 1;
                let default = cand.iter().position(|c| *c == cur).unwrap_or(0);
                let mut k = default;
                if let Some(c) = s.deviations.get(&d) {
                    k = c % cand.len();
                } else if let Some((r, p)) = &mut s.rng {
                    if cand.len() > 1 && r.chance(1, *p) {
                        k = (default + 1 + r.below(cand.len() as u64 - 1) as usize) % cand.len();
                        run.schedule.insert(d, k);
                    }
                }
                if s.rng.is_none() && k != default {
                    run.schedule.insert(d, k);
                }
                cur = cand[k];
                digest.push(mix(&[7, cur as u64]));
                match st[cur] {
                    St::NotStarted => {
                        live[cur] = Some(self.spawn(&actors[cur], cur, &plan.env));
                        st[cur] = St::Running;
                    }
                    St::Waiting(c) => {
                        st[cur] = St::Running;
                        if conns[c].hello_wait {
                            conns[c].hello_wait = false;
                            self.send_plan(&mut conns, c, &mut run, plan, &mut used, &mut names, &live, step);
                        } else {
                            send(&mut conns[c], "go\n");
                        }
                    }
                    _ => unreachable!(),
                }
            }
            // wait for events
            let mut fds = vec![libc::pollfd { fd: self.listener.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
            let mut who: Vec<(u8, usize)> = vec![(0, 0)];
            for (i, c) in conns.iter().enumerate() {
                if c.open {
                    fds.push(libc::pollfd { fd: c.s.as_ref().map_or(-1, |s| s.as_raw_fd()), events: libc::POLLIN, revents: 0 });
                    who.push((1, i));
                }
            }
            for (i, l) in live.iter().enumerate() {
                if let Some(l) = l {
                    fds.push(libc::pollfd { fd: l.eof, events: libc::POLLIN, revents: 0 });
                    who.push((2, i));
                }
            }
            let r = unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 1000) };
            if r == 0 {
                if Instant::now() > deadline {
                    run.hang = true;
                    for l in live.iter().flatten() {
                        unsafe { libc::killpg(l.pgid, libc::SIGKILL) };
                    }
                    deadline = Instant::now() + Duration::from_secs(20);
                }
                continue;
            }
            // connections first, so that what a process said is heard before its end
            let mut ended = vec![];
            for (k, f) in fds.iter().enumerate() {
                if f.revents == 0 {
                    continue;
                }
                match who[k] {
                    (0, _) => {
                        while let Ok((s, _)) = self.listener.accept() {
                            s.set_nonblocking(false).unwrap();
                            conns.push(Conn { s: Some(s), buf: vec![], proc: None, pid: 0, open: true, kill_group: false, hello_wait: false });
                        }
                    }
                    (1, i) => {
                        let mut b = [0u8; 65536];
                        let got = match conns[i].s.as_mut().map(|s| s.read(&mut b)) {
                            Some(Ok(n)) => n,
                            _ => 0,
                        };
                        if got == 0 {
                            conns[i].open = false;
                            conns[i].s = None;
                        } else {
                            conns[i].buf.extend_from_slice(&b[..got]);
                            while let Some(p) = conns[i].buf.iter().position(|b| *b == b'\n') {
                                let l: Vec<u8> = conns[i].buf.drain(..=p).collect();
                                let l = String::from_utf8_lossy(&l[..l.len() - 1]).into_owned();
                                self.message(&l, i, &mut conns, &mut run, plan, &mut used, &mut names, &live, &mut st, step, &mut digest);
                            }
                        }
                    }
                    (2, i) => ended.push(i),
                    _ => {}
                }
            }
            for i in ended {
                // the group is gone; drain what its processes still had to say
                if self.pending(&conns) {
                    continue;
                }
                let mut l = live[i].take().unwrap();
                let t0 = Instant::now();
                let status = loop {
                    match l.child.try_wait().expect("wait") {
                        Some(s) => break s,
                        None if t0.elapsed() > Duration::from_secs(20) => {
                            unsafe { libc::killpg(l.pgid, libc::SIGKILL) };
                            run.procs.push(Proc { actor: i, name: "?".into(), flags: vec!["E descriptor closed early".into()], ..Default::default() });
                            break l.child.wait().expect("wait");
                        }
                        None => std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 5 { 20 } else { 1000 })),
                    }
                };
                use std::os::unix::process::ExitStatusExt;
                let code = status.code().unwrap_or_else(|| 128 + status.signal().unwrap_or(0));
                unsafe {
                    libc::killpg(l.pgid, libc::SIGKILL);
                    libc::close(l.eof);
                }
                let rd = |p: String| String::from_utf8_lossy(&fs::read(self.base.join(p)).unwrap_or_default()).into_owned();
                run.ends[i] = ActorEnd { code, out: rd(format!("out{i}")), err: rd(format!("err{i}")) };
                st[i] = St::Done;
            }
        }
        if let Some(s) = sched {
            run.decisions = s.decisions;
        }
        // clock jumps are no time that passed
        run.sim_ns = self.clock - clock0 - run.jumped;
        for p in &run.procs {
            let mut d = hash_str(&p.name) ^ (p.actor as u64);
            for k in ["th", "sh", "ops", "code"] {
                d = mix(&[d, hash_str(p.stats.get(k).map(|s| s.as_str()).unwrap_or("-"))]);
            }
            for f in &p.fired {
                d = mix(&[d, f.0, hash_str(&f.1)]);
            }
            digest.push(d);
        }
        for e in &run.ends {
            digest.push(e.code as u64);
        }
        run.digest = mix(&digest);
        if std::env::var("VSIM_SHOW").is_ok() {
            for (k, p) in run.procs.iter().enumerate() {
                eprintln!("{k} [{}] {} code {:?} {:?} killed {}", p.actor, p.name, p.code, p.fired, p.killed);
            }
        }
        run
    }
    fn pending(&self, conns: &[Conn]) -> bool {
        let mut fds: Vec<libc::pollfd> = conns.iter().filter(|c| c.open).map(|c| libc::pollfd { fd: c.s.as_ref().map_or(-1, |s| s.as_raw_fd()), events: libc::POLLIN, revents: 0 }).collect();
        fds.push(libc::pollfd { fd: self.listener.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 0) > 0 }
    }
    #[allow(clippy::too_many_arguments)]
    fn message(&mut self, l: &str, i: usize, conns: &mut [Conn], run: &mut Run, plan: &Plan, used: &mut [u64], names: &mut BTreeMap<String, u64>, live: &[Option<Live>], st: &mut [St], step: bool, digest: &mut Vec<u64>) {
        let w: Vec<&str> = l.splitn(5, ' ').collect();
        if w[0] == "H" {
            let actor: usize = w.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
            let name = format!("{} {}", w[2], w.get(4).unwrap_or(&"")).trim_end().to_string();
            run.procs.push(Proc { actor, name, ..Default::default() });
            conns[i].proc = Some(run.procs.len() - 1);
            conns[i].pid = w[1].parse().unwrap_or(0);
            if step {
                conns[i].hello_wait = true;
                st[actor] = St::Waiting(i);
            } else {
                self.send_plan(conns, i, run, plan, used, names, live, step);
            }
            return;
        }
        let p = match conns[i].proc {
            Some(p) => p,
            None => return,
        };
        match w[0] {
            "F" => run.procs[p].fired.push((w[1].parse().unwrap_or(0), w[2].to_string(), w.get(3).and_then(|x| x.chars().next()).unwrap_or('?'))),
            "T" => run.procs[p].trace.push((w[1].parse().unwrap_or(0), w[2].chars().next().unwrap(), w[3..].join(" "))),
            "S" => {
                digest.push(mix(&[hash_str(&w[2..].join(" ")), p as u64]));
                if plan.trace {
                    run.procs[p].trace.push((w[1].parse().unwrap_or(0), w[2].chars().next().unwrap(), w[3..].join(" ")));
                }
                st[run.procs[p].actor] = St::Waiting(i);
            }
            "K" => {
                run.procs[p].killed = true;
                if conns[i].kill_group {
                    if let Some(l) = &live[run.procs[p].actor] {
                        unsafe { libc::killpg(l.pgid, libc::SIGKILL) };
                    }
                } else {
                    send(&mut conns[i], "die\n");
                }
            }
            "P" => run.procs[p].preempts += 1,
            "R" => run.procs[p].removals.push(l[2..].to_string()),
            "B" => {
                for kv in l[2..].split(' ') {
                    if let Some((k, v)) = kv.split_once('=') {
                        run.procs[p].stats.insert(k.into(), v.into());
                    }
                }
                run.procs[p].code = run.procs[p].stats.get("code").and_then(|c| c.parse().ok());
                self.clock += run.procs[p].stats.get("clk").and_then(|v| v.parse::<i64>().ok()).unwrap_or(0);
            }
            _ => run.procs[p].flags.push(l.to_string()),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn send_plan(&mut self, conns: &mut [Conn], i: usize, run: &mut Run, plan: &Plan, used: &mut [u64], names: &mut BTreeMap<String, u64>, live: &[Option<Live>], step: bool) {
        let pi = conns[i].proc.unwrap();
        let (actor, name) = (run.procs[pi].actor, run.procs[pi].name.clone());
        let e = &plan.env;
        let occ = {
            let c = names.entry(format!("{actor} {name}")).or_default();
            *c += 1;
            *c
        };
        let id = mix(&[hash_str(&name), actor as u64, occ]);
        for (at, d) in &e.jumps {
            if *at == pi as u64 {
                self.clock += d;
                run.jumped += d;
                run.procs[pi].fired.push((0, "clockjump".into(), 't'));
            }
        }
        self.clock += 3_000_000;
        let mut t = String::new();
        t += &format!("hash {}\n", mix(&[e.hash, id]));
        t += &format!("dir {}\n", if e.dir == 0 { 0 } else { mix(&[e.dir, id]) });
        if e.dtype_unknown {
            t += "dtype unknown\n";
        }
        t += &format!("fft {}\n", e.fft.unwrap_or((mix(&[e.fftmix, id]) % 8) as i64));
        t += &format!("clock {} {}\n", self.clock, e.clock_step.max(1000));
        t += &format!("oplimit {}\n", if plan.oplimit > 0 { plan.oplimit } else { 20_000_000 });
        if step {
            t += "step\n";
        } else if plan.trace {
            t += "trace\n";
        }
        let mut kill_now = None;
        for (k, r) in plan.rules.iter().enumerate() {
            if r.actor.map_or(true, |a| a == actor) && name.starts_with(&r.sel) {
                let o = used[k];
                used[k] += 1;
                if r.occ.map_or(true, |x| x == o) {
                    if r.line.contains("kill") || r.line.contains("torn") {
                        conns[i].kill_group |= r.group;
                    }
                    if r.line == "fault 0 killb" {
                        kill_now = Some(r.group);
                    } else {
                        t += &r.line;
                        t.push('\n');
                    }
                }
            }
        }
        if let Some(group) = kill_now {
            run.procs[pi].fired.push((0, "killb".into(), '0'));
            run.procs[pi].killed = true;
            let pg = live[actor].as_ref().map(|l| l.pgid).unwrap_or(0);
            unsafe {
                if group && pg > 1 {
                    libc::killpg(pg, libc::SIGKILL);
                } else if conns[i].pid > 1 {
                    libc::kill(conns[i].pid, libc::SIGKILL);
                }
            }
            return;
        }
        t += "END\n";
        send(&mut conns[i], &t);
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.base);
    }
}
fn send(c: &mut Conn, t: &str) {
    if let Some(s) = &mut c.s {
        let _ = s.write_all(t.as_bytes());
    }
}
fn chown(p: &Path, uid: u32) {
    if uid != 0 {
        let _ = std::os::unix::fs::lchown(p, Some(uid), Some(uid));
    }
}
