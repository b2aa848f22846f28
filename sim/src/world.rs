//! One simulated machine: a disk (a scratch directory), a fork server running the real program
//! under the preloaded simulator, and the record of what happened.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const PLAN_SIZE: usize = 4 << 20;
pub const LOG_SIZE: usize = 96 << 20;
/// what several runs at once share: whose turn it is
pub const TURN_SIZE: usize = 4096;

/// How the steps of several runs at once are interleaved
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Turns {
    pub seed: u64,
    /// per mille of steps after which the same run goes on; from 2000 on, others only change turns at
    /// calls that change the disk
    pub stay: u32,
    /// only among these steps, counted over all runs
    pub from: u32,
    pub to: u32,
}

impl Turns {
    pub fn parse(s: &str) -> Option<Turns> {
        let v: Vec<u64> = s.split(':').map_while(|x| x.parse().ok()).collect();
        (v.len() == 4).then(|| Turns {
            seed: v[0],
            stay: v[1] as u32,
            from: v[2] as u32,
            to: v[3] as u32,
        })
    }
}
impl std::fmt::Display for Turns {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:{}:{}:{}", self.seed, self.stay, self.from, self.to)
    }
}

/// Seeded disturbances that a correct program does not notice, and the seed of its randomness
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub seed: u64,
    /// per mille of reads cut short, to at most so many bytes
    pub shortr: (u32, u32),
    pub shortw: (u32, u32),
    /// per mille of reads, writes and opens that are interrupted
    pub eintr: u32,
    pub dirshuf: bool,
    /// file times and inode numbers are arbitrary
    #[serde(default)]
    pub mtime: bool,
    /// 0 steady, 1 jumps forward, 2 also set back
    pub clock: u32,
}

/// A fault at the nth call of a kind on a path
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub kind: String,
    pub path: String,
    pub nth: u32,
    /// e errno, z return zero, s short, k kill
    pub action: char,
    pub arg: i64,
    /// also all later calls of that kind on that path
    pub persist: bool,
}

/// What another party does to the disk just before the nth call of a kind on a path
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EditAt {
    pub kind: String,
    pub path: String,
    pub nth: u32,
    /// r replace by rename, u unlink, i rewrite in place
    pub op: char,
    pub dst: String,
    /// content (r and i)
    pub content: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    Dir,
    File(Bytes),
    Link(String),
}

/// File content; text in replay files where possible
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);

impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.0))
    }
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(&format!("t:{t}")),
            Err(_) => {
                let h: String = self.0.iter().map(|b| format!("{b:02x}")).collect();
                s.serialize_str(&format!("x:{h}"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(t) = s.strip_prefix("t:") {
            return Ok(Bytes(t.as_bytes().to_vec()));
        }
        let h = s.strip_prefix("x:").unwrap_or("");
        Ok(Bytes(
            (0..h.len() / 2)
                .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                .collect(),
        ))
    }
}

/// The disk: paths relative to the root of the simulated machine
pub type Tree = BTreeMap<String, Node>;

pub fn put(tree: &mut Tree, path: &str, content: Vec<u8>) {
    put_dirs(tree, path);
    tree.insert(path.to_owned(), Node::File(Bytes(content)));
}
pub fn put_dirs(tree: &mut Tree, path: &str) {
    let mut p = Path::new(path);
    while let Some(parent) = p.parent() {
        if parent.as_os_str().is_empty() {
            break;
        }
        tree.entry(parent.to_str().unwrap().to_owned())
            .or_insert(Node::Dir);
        p = parent;
    }
}
pub fn file<'a>(tree: &'a Tree, path: &str) -> Option<&'a [u8]> {
    match tree.get(path) {
        Some(Node::File(b)) => Some(&b.0),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub step: u32,
    pub kind: String,
    pub path: String,
    pub nth: u32,
    pub ret: i64,
    pub errno: i32,
    /// '-' undisturbed, otherwise what was done
    pub tag: char,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// exit code; 137 for a simulated kill
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub hung: bool,
    pub killed: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub steps: Vec<Step>,
    pub nsteps: u32,
    pub simtime_ns: u64,
    pub raw_log: Vec<u8>,
}

impl Outcome {
    pub fn fired(&self) -> impl Iterator<Item = &Step> {
        self.steps.iter().filter(|s| !matches!(s.tag, '-'))
    }
    pub fn ending(&self) -> String {
        if self.hung {
            "hang".into()
        } else if let Some(s) = self.signal {
            format!("signal {s}")
        } else {
            format!("exit {}", self.code.unwrap_or(-1))
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct RunSpec {
    /// jobs named on the command line
    pub jobs: Vec<String>,
    pub knobs: Knobs,
    pub faults: Vec<Fault>,
    pub edits: Vec<EditAt>,
    /// -l level
    pub log: Option<String>,
    pub env: Vec<String>,
    /// other arguments, before the jobs
    pub args: Vec<String>,
}

struct Server {
    child: Child,
    cin: ChildStdin,
    cout: ChildStdout,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub simtime_ns: u128,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub signatures: BTreeSet<u64>,
    pub exits: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.simtime_ns += o.simtime_ns;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.exits {
            *self.exits.entry(k.clone()).or_default() += v;
        }
        self.signatures.extend(&o.signatures);
    }
}

pub struct World {
    /// where this worker keeps everything
    home: PathBuf,
    /// the simulated disk
    pub root: PathBuf,
    binary: PathBuf,
    lib: PathBuf,
    server: Option<Server>,
    shm: *mut u8,
    pub stats: Stats,
    pub maxsteps: u32,
    /// hash over the step logs and endings of all runs since it was last set
    pub execution: u64,
    /// what was disturbed in each run, if somebody wants to know
    pub trace: Option<Vec<String>>,
    /// further processes on the same disk
    mates: Vec<World>,
    turn_path: PathBuf,
}

unsafe impl Send for World {}

impl World {
    pub fn new(home: &Path, binary: &Path, lib: &Path) -> std::io::Result<World> {
        fs::create_dir_all(home)?;
        fs::set_permissions(home, fs::Permissions::from_mode(0o777))?;
        let root = home.join("r");
        let shm_path = home.join("shm");
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(&shm_path)?;
        f.set_len((PLAN_SIZE + LOG_SIZE + TURN_SIZE) as u64)?;
        fs::set_permissions(&shm_path, fs::Permissions::from_mode(0o666))?;
        let shm = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                PLAN_SIZE + LOG_SIZE + TURN_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if shm == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(World {
            home: home.to_owned(),
            root,
            binary: binary.to_owned(),
            lib: lib.to_owned(),
            server: None,
            shm: shm.cast(),
            stats: Stats::default(),
            maxsteps: 2_000_000,
            execution: 0,
            trace: None,
            mates: vec![],
            turn_path: shm_path,
        })
    }

    fn start(&mut self) -> std::io::Result<()> {
        let mut c = Command::new(&self.binary);
        c.env_clear()
            .env("LD_PRELOAD", &self.lib)
            .env("VSIM_SHM", self.home.join("shm"))
            .env("VSIM_TURN", &self.turn_path)
            .current_dir("/")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .process_group(0);
        if unsafe { libc::geteuid() } == 0 {
            c.uid(65534).gid(65534);
        }
        let mut child = c.spawn()?;
        let cin = child.stdin.take().unwrap();
        let cout = child.stdout.take().unwrap();
        self.server = Some(Server { child, cin, cout });
        Ok(())
    }

    fn stop(&mut self) {
        if let Some(mut s) = self.server.take() {
            unsafe {
                libc::kill(-(s.child.id() as i32), libc::SIGKILL);
            }
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
    }

    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.to_owned()).or_default() += 1;
    }

    /// Make the disk hold exactly this
    pub fn reset(&mut self, tree: &Tree) {
        remove_tree(&self.root);
        fs::create_dir_all(&self.root).expect("scratch");
        fs::set_permissions(&self.root, fs::Permissions::from_mode(0o777)).expect("scratch");
        self.add(tree);
    }

    /// Add to the disk
    pub fn add(&mut self, tree: &Tree) {
        for (path, node) in tree {
            let p = self.root.join(path);
            match node {
                Node::Dir => {
                    let _ = fs::create_dir(&p);
                    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o777));
                }
                Node::File(b) => self.write(path, &b.0),
                Node::Link(t) => {
                    let _ = std::os::unix::fs::symlink(t, &p);
                }
            }
        }
    }

    pub fn write(&mut self, path: &str, content: &[u8]) {
        let p = self.root.join(path);
        if let Some(d) = p.parent() {
            if !d.is_dir() {
                let mut missing = vec![];
                let mut q = d;
                while !q.exists() {
                    missing.push(q.to_owned());
                    q = q.parent().unwrap();
                }
                for m in missing.iter().rev() {
                    let _ = fs::create_dir(m);
                    let _ = fs::set_permissions(m, fs::Permissions::from_mode(0o777));
                }
            }
        }
        fs::write(&p, content).unwrap_or_else(|e| panic!("scratch {}: {e}", p.display()));
        if unsafe { libc::geteuid() } == 0 {
            let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o666));
        }
    }

    pub fn remove(&mut self, path: &str) {
        let p = self.root.join(path);
        if p.is_dir() {
            remove_tree(&p);
        } else {
            let _ = fs::remove_file(&p);
        }
    }

    pub fn snapshot(&self) -> Tree {
        let mut t = Tree::new();
        walk(&self.root, "", &mut t);
        t
    }

    /// modes of everything, as another thing a run must not change
    pub fn modes(&self) -> BTreeMap<String, u32> {
        let mut m = BTreeMap::new();
        for p in self.snapshot().keys() {
            if let Ok(md) = fs::symlink_metadata(self.root.join(p)) {
                m.insert(p.clone(), md.mode());
            }
        }
        m
    }

    /// One run of the program with the given arguments, in `cwd` (relative to the root)
    pub fn exec(&mut self, cwd: &str, argv: &[String], spec: &RunSpec) -> Outcome {
        self.prepare(cwd, argv, spec, 0);
        let mut status: Option<i32> = None;
        for _attempt in 0..2 {
            if !self.send() {
                continue;
            }
            match self.await_end() {
                Ok(st) => {
                    status = st;
                    break;
                }
                Err(()) => continue,
            }
        }
        let outcome = self.collect(status);
        self.account(&outcome);
        outcome
    }

    /// Several runs at once on the same disk; the steps of one at a time, the seed decides whose
    pub fn exec_many(&mut self, cwd: &str, runs: &[(Vec<String>, &RunSpec)], turns: Turns) -> Vec<Outcome> {
        assert!(!runs.is_empty() && runs.len() <= 8);
        while self.mates.len() + 1 < runs.len() {
            let mut m = World::new(&self.home.join(format!("mate{}", self.mates.len() + 1)), &self.binary, &self.lib).expect("mate");
            m.root = self.root.clone();
            m.turn_path = self.turn_path.clone();
            self.mates.push(m);
        }
        let n = runs.len();
        let mut status: Vec<Option<i32>> = vec![None; n];
        'attempt: for _ in 0..2 {
            status = vec![None; n];
            for (i, (argv, spec)) in runs.iter().enumerate() {
                self.nth(i).prepare(cwd, argv, spec, i as u32 + 1);
            }
            unsafe {
                let t = self.shm.add(PLAN_SIZE + LOG_SIZE).cast::<u32>();
                std::ptr::write_bytes(t.cast::<u8>(), 0, TURN_SIZE);
                for (k, v) in [0, n as u32, 0, turns.stay, turns.from, turns.to].iter().enumerate() {
                    *t.add(k) = *v;
                }
                *t.add(6).cast::<u64>() = crate::rng::mix(turns.seed);
            }
            let mut ok = true;
            for i in 0..n {
                ok = ok && self.nth(i).send();
            }
            for i in 0..n {
                if !ok {
                    break;
                }
                match self.nth(i).await_end() {
                    Ok(Some(st)) => status[i] = Some(st),
                    Ok(None) => {
                        // it hangs, and with it all who wait for their turn
                        for k in 0..n {
                            self.nth(k).stop();
                        }
                        break 'attempt;
                    }
                    Err(()) => ok = false,
                }
            }
            if ok {
                break;
            }
            for k in 0..n {
                self.nth(k).stop();
            }
        }
        let outcomes: Vec<Outcome> = (0..n).map(|i| self.nth(i).collect(status[i])).collect();
        let mut order = 0;
        for o in &outcomes {
            self.account(o);
            order = crate::rng::mix(order ^ crate::rng::hash_bytes(&o.raw_log));
        }
        self.stats.signatures.insert(order);
        *self.stats.faults.entry("turn given to another run".to_owned()).or_default() +=
            outcomes.iter().map(|o| o.steps.iter().filter(|s| s.kind == "turn").count() as u64).sum::<u64>();
        outcomes
    }

    fn nth(&mut self, i: usize) -> &mut World {
        if i == 0 {
            self
        } else {
            &mut self.mates[i - 1]
        }
    }

    fn prepare(&mut self, cwd: &str, argv: &[String], spec: &RunSpec, number: u32) {
        let mut plan = String::new();
        let root = self.root.to_str().unwrap().to_owned();
        let line = |s: &mut String, parts: &[&str]| {
            s.push_str(&parts.join("\t"));
            s.push('\n');
        };
        line(&mut plan, &["argv", "reqtrace"]);
        for a in argv {
            line(&mut plan, &["argv", a]);
        }
        for e in &spec.env {
            line(&mut plan, &["env", e]);
        }
        let cwd = if cwd.is_empty() {
            root.clone()
        } else {
            format!("{root}/{cwd}")
        };
        let out = self.home.join("stdout");
        let err = self.home.join("stderr");
        for p in [&out, &err] {
            fs::write(p, b"").expect("scratch");
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o666));
        }
        line(&mut plan, &["cwd", &cwd]);
        line(&mut plan, &["out", out.to_str().unwrap()]);
        line(&mut plan, &["err", err.to_str().unwrap()]);
        line(&mut plan, &["root", &root]);
        let k = &spec.knobs;
        line(&mut plan, &["seed", &k.seed.to_string()]);
        line(
            &mut plan,
            &["shortr", &k.shortr.0.to_string(), &k.shortr.1.to_string()],
        );
        line(
            &mut plan,
            &["shortw", &k.shortw.0.to_string(), &k.shortw.1.to_string()],
        );
        line(&mut plan, &["eintr", &k.eintr.to_string()]);
        line(&mut plan, &["dirshuf", if k.dirshuf { "1" } else { "0" }]);
        line(&mut plan, &["mtime", if k.mtime { "1" } else { "0" }]);
        line(&mut plan, &["clock", &k.clock.to_string()]);
        line(&mut plan, &["maxsteps", &self.maxsteps.to_string()]);
        for f in &spec.faults {
            line(
                &mut plan,
                &[
                    "fault",
                    &f.kind,
                    &f.nth.to_string(),
                    &f.action.to_string(),
                    &f.arg.to_string(),
                    if f.persist { "1" } else { "0" },
                    &f.path,
                ],
            );
        }
        // what the editor puts in place lies ready beside the disk proper
        for (i, e) in spec.edits.iter().enumerate() {
            let src = format!("../edit{i}");
            if e.op != 'u' {
                let p = self.home.join(format!("edit{i}"));
                fs::write(&p, e.content.as_bytes()).expect("scratch");
                let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o666));
            }
            line(
                &mut plan,
                &[
                    "edit",
                    &e.kind,
                    &e.nth.to_string(),
                    &e.path,
                    &e.op.to_string(),
                    &e.dst,
                    &src,
                ],
            );
        }
        let bytes = plan.as_bytes();
        assert!(bytes.len() < PLAN_SIZE - 1, "plan too long");
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.shm, bytes.len());
            *self.shm.add(bytes.len()) = 0;
            *self.shm.add(PLAN_SIZE + 16).cast::<u32>() = number;
        }
    }

    /// tell the fork server to begin the run that was prepared
    fn send(&mut self) -> bool {
        if self.server.is_none() {
            self.start().expect("fork server");
        }
        let s = self.server.as_mut().unwrap();
        if s.cin.write_all(b"r").and_then(|()| s.cin.flush()).is_err() {
            self.stop();
            return false;
        }
        true
    }

    /// the wait status, or none if it hangs
    fn await_end(&mut self) -> Result<Option<i32>, ()> {
        let s = self.server.as_mut().unwrap();
        let mut pfd = libc::pollfd {
            fd: s.cout.as_raw_fd(),
            events: libc::POLLIN,
            revents: 0,
        };
        let n = unsafe { libc::poll(&mut pfd, 1, 60_000) };
        if n == 0 {
            self.stop();
            return Ok(None);
        }
        let mut b = [0_u8; 4];
        if s.cout.read_exact(&mut b).is_err() {
            self.stop();
            return Err(());
        }
        Ok(Some(i32::from_ne_bytes(b)))
    }

    fn collect(&mut self, status: Option<i32>) -> Outcome {
        let (out, err) = (self.home.join("stdout"), self.home.join("stderr"));
        let hung = status.is_none();
        let st = std::process::ExitStatus::from_raw(status.unwrap_or(0));
        let (raw_log, nsteps, simtime) = unsafe {
            let h = self.shm.add(PLAN_SIZE);
            let len = (*(h as *const u32)) as usize;
            let steps = *(h.add(4) as *const u32);
            let sim = *(h.add(8) as *const u64);
            let log = std::slice::from_raw_parts(h.add(64), len.min(LOG_SIZE - 64)).to_vec();
            (log, steps, sim)
        };
        let text = String::from_utf8_lossy(&raw_log);
        let mut steps = vec![];
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() < 7 {
                continue;
            }
            steps.push(Step {
                step: p[0].parse().unwrap_or(0),
                kind: p[1].to_owned(),
                path: p[2].to_owned(),
                nth: p[3].parse().unwrap_or(0),
                ret: p[4].parse().unwrap_or(0),
                errno: p[5].parse().unwrap_or(0),
                tag: p[6].chars().next().unwrap_or('-'),
            });
        }
        let killed = steps.last().map_or(false, |s| s.tag == 'k');
        let limit = steps.iter().any(|s| s.kind == "LIMIT");
        let outcome = Outcome {
            code: if hung { None } else { st.code() },
            signal: if hung { None } else { st.signal() },
            hung: hung || limit,
            killed,
            stdout: fs::read(&out).unwrap_or_default(),
            stderr: fs::read(&err).unwrap_or_default(),
            steps,
            nsteps,
            simtime_ns: simtime,
            raw_log,
        };
        if outcome.code == Some(97) || outcome.code == Some(96) {
            panic!("simulator could not set up a run");
        }
        outcome
    }

    fn account(&mut self, o: &Outcome) {
        self.stats.runs += 1;
        self.execution = crate::rng::mix(self.execution ^ crate::rng::hash_bytes(&o.raw_log))
            .wrapping_add(o.code.map_or(-1, i64::from) as u64);
        if let Some(t) = &mut self.trace {
            let n = t.iter().filter(|l| l.starts_with("run")).count();
            t.push(format!("run {}: {}, {} steps", n + 1, o.ending(), o.nsteps));
            let mut short = 0;
            for s in o.steps.iter().filter(|s| s.tag != '-' || s.kind == "turn") {
                if s.kind == "turn" {
                    if t.len() < 400 {
                        t.push(format!("  step {}: turn goes to {} (common step {})", s.step, s.path, s.nth));
                    }
                    continue;
                }
                if s.tag == 'h' {
                    short += 1;
                } else if t.len() < 400 {
                    t.push(format!(
                        "  step {}: {} #{} of {} -> {} {} ({})",
                        s.step,
                        s.kind,
                        s.nth,
                        s.path,
                        s.ret,
                        if s.errno != 0 { errno_name(s.errno) } else { "" },
                        s.tag
                    ));
                }
            }
            if short > 0 {
                t.push(format!("  {short} calls cut short by the seeded knobs"));
            }
        }
        self.stats.steps += u64::from(o.nsteps);
        self.stats.simtime_ns += u128::from(o.simtime_ns);
        *self.stats.exits.entry(o.ending()).or_default() += 1;
        let mut fired = false;
        for s in o.fired() {
            fired = true;
            let what = match s.tag {
                'e' => format!("{} fails with {}", s.kind, errno_name(s.errno)),
                'i' => format!("{} interrupted", s.kind),
                'h' => format!("{} short", s.kind),
                's' => format!("{} cut to given length", s.kind),
                'z' => format!("{} returns 0", s.kind),
                'k' => format!("killed at {}", s.kind),
                't' => "file replaced or removed by another party".to_owned(),
                t => format!("{} {t}", s.kind),
            };
            *self.stats.faults.entry(what).or_default() += 1;
        }
        if fired {
            self.stats
                .signatures
                .insert(crate::rng::hash_bytes(&o.raw_log));
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.stop();
        self.mates.clear();
        remove_tree(&self.home);
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ESTALE => "ESTALE",
        libc::EPIPE => "EPIPE",
        libc::EDQUOT => "EDQUOT",
        libc::EROFS => "EROFS",
        libc::EFBIG => "EFBIG",
        libc::EAGAIN => "EAGAIN",
        libc::EINTR => "EINTR",
        libc::ENOMEM => "ENOMEM",
        libc::ELOOP => "ELOOP",
        libc::ENOTDIR => "ENOTDIR",
        libc::EISDIR => "EISDIR",
        libc::EINVAL => "EINVAL",
        libc::EPERM => "EPERM",
        libc::EBADF => "EBADF",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        _ => "other",
    }
}

/// Removes below a scratch directory only
pub fn remove_tree(p: &Path) {
    let s = p.to_string_lossy();
    assert!(s.contains("/vsim-"), "not a scratch path: {s}");
    if p.exists() {
        if fs::remove_dir_all(p).is_err() {
            // something without permissions
            let mut t = Tree::new();
            walk(p, "", &mut t);
            for d in t.iter().filter(|(_, n)| **n == Node::Dir).map(|(p, _)| p) {
                let _ = fs::set_permissions(p2(p, d.as_str()), fs::Permissions::from_mode(0o777));
            }
            let _ = fs::remove_dir_all(p);
        }
    }
}
fn p2(p: &Path, d: &str) -> PathBuf {
    p.join(d)
}

fn walk(dir: &Path, rel: &str, t: &mut Tree) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() {
            name
        } else {
            format!("{rel}/{name}")
        };
        let Ok(ft) = e.file_type() else { continue };
        if ft.is_dir() {
            t.insert(r.clone(), Node::Dir);
            walk(&e.path(), &r, t);
        } else if ft.is_symlink() {
            let target = fs::read_link(e.path()).unwrap_or_default();
            t.insert(r, Node::Link(target.to_string_lossy().into_owned()));
        } else {
            t.insert(r, Node::File(Bytes(fs::read(e.path()).unwrap_or_default())));
        }
    }
}
