//! Search, minimisation, replay, evidence.

use crate::checks;
use crate::model::Grammar;
use crate::project::Project;
use crate::rng::{hash_str, mix, Rng};
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// One step of a history
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// an input gets other content
    Edit {
        art: usize,
        file: usize,
        spec: crate::project::FileSpec,
    },
    Run(RunSpec),
    /// somebody puts something at a path
    Put { path: String, content: Bytes },
    /// the end of a file is lost in a crash: so many per mille remain, the rest missing or zero
    Tear { path: String, keep: u32, zeros: bool },
    Remove { path: String },
    /// modification time, seconds since the epoch
    Touch { path: String, time: i64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub project: Project,
    pub run: RunSpec,
    #[serde(default)]
    pub runs: Vec<RunSpec>,
    #[serde(default)]
    pub ops: Vec<Op>,
    /// variant of the check
    #[serde(default)]
    pub variant: String,
    #[serde(default)]
    pub extra: BTreeMap<String, String>,
}

impl Scenario {
    pub fn new(property: &str, project: Project, run: RunSpec) -> Scenario {
        Scenario {
            property: property.to_owned(),
            project,
            run,
            runs: vec![],
            ops: vec![],
            variant: String::new(),
            extra: BTreeMap::new(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// what kind of violation, for minimisation
    pub class: String,
    pub detail: String,
}

pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    let mut d: String = detail.into();
    if d.len() > 4000 {
        let mut e = 4000;
        while !d.is_char_boundary(e) {
            e -= 1;
        }
        d.truncate(e);
        d.push_str("...");
    }
    Err(Violation {
        class: class.to_owned(),
        detail: d,
    })
}

pub struct Cx {
    pub w: World,
    pub g: Grammar,
}

impl Cx {
    pub fn root(&self) -> String {
        self.w.root.to_str().unwrap().to_owned()
    }
    /// a run of the project as it lies on the disk
    pub fn launch(&mut self, p: &Project, spec: &RunSpec) -> Outcome {
        let argv = self.argv(p, spec);
        self.w.exec(&p.cwd(), &argv, spec)
    }
    /// runs that overlap in time
    pub fn launch_many(&mut self, p: &Project, specs: &[&RunSpec], turns: Turns) -> Vec<Outcome> {
        let runs: Vec<(Vec<String>, &RunSpec)> = specs.iter().map(|r| (self.argv(p, r), *r)).collect();
        self.w.exec_many(&p.cwd(), &runs, turns)
    }
    fn argv(&self, p: &Project, spec: &RunSpec) -> Vec<String> {
        let root = self.root();
        let mut argv = p.argv(&root);
        if let Some(l) = &spec.log {
            argv.push("-l".into());
            argv.push(l.clone());
        }
        argv.extend(spec.args.iter().cloned());
        argv.extend(spec.jobs.iter().cloned());
        argv
    }
    /// on a fresh disk
    pub fn fresh(&mut self, p: &Project, spec: &RunSpec) -> (Outcome, Tree) {
        let t = p.tree(&self.root());
        self.w.reset(&t);
        let o = self.launch(p, spec);
        let t = self.w.snapshot();
        (o, t)
    }
}

pub struct Options {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: usize,
    /// no new scenario is begun after so many seconds
    pub wall: u64,
    pub binary: PathBuf,
    pub lib: PathBuf,
    pub verif: PathBuf,
}

/// a scratch area that is removed at the end
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> std::io::Result<Scratch> {
        let base = ["/dev/shm", "/tmp"]
            .iter()
            .map(Path::new)
            .find(|p| {
                let probe = p.join(format!("vsim-probe-{}", std::process::id()));
                let ok = std::fs::create_dir(&probe).is_ok();
                let _ = std::fs::remove_dir(&probe);
                ok
            })
            .ok_or_else(|| std::io::Error::other("no scratch directory"))?;
        let mut n = std::process::id() as u64;
        loop {
            let p = base.join(format!("vsim-{:08x}", mix(n) as u32));
            match std::fs::create_dir(&p) {
                Ok(()) => {
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o777))?;
                    return Ok(Scratch(p));
                }
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => n = mix(n),
                Err(e) => return Err(e),
            }
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        remove_tree(&self.0);
    }
}

pub fn setup_scratch(o: &Options) -> std::io::Result<(Scratch, PathBuf, PathBuf)> {
    unsafe {
        libc::umask(0);
    }
    let s = Scratch::new()?;
    // the unprivileged user must be able to run it; /dev/shm may be noexec
    let mut dir = s.0.clone();
    let mut exe = dir.join("reqtrace");
    std::fs::copy(&o.binary, &exe)?;
    let runs = std::process::Command::new(&exe)
        .arg("--version")
        .output()
        .map(|o| o.status.success())
        .unwrap_or(false);
    if !runs {
        dir = PathBuf::from("/tmp").join(s.0.file_name().unwrap());
        std::fs::create_dir_all(&dir)?;
        exe = dir.join("reqtrace");
        std::fs::copy(&o.binary, &exe)?;
    }
    let lib = dir.join("libsim.so");
    std::fs::copy(&o.lib, &lib)?;
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755))?;
    std::fs::set_permissions(&lib, std::fs::Permissions::from_mode(0o755))?;
    Ok((s, exe, lib))
}

pub fn scenario_seed(seed: u64, property: &str, index: u64) -> u64 {
    mix(seed ^ mix(hash_str(property) ^ mix(index)))
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub violation: Violation,
    pub minimised_from: serde_json::Value,
    pub scenario: Scenario,
    /// hash of the step logs and endings of all its runs
    #[serde(default)]
    pub execution: String,
    /// the runs of the minimised scenario with the steps at which something was disturbed
    pub fault_trace: Vec<String>,
}

fn size_of(s: &Scenario) -> serde_json::Value {
    json!({
        "artefacts": s.project.arts.len(),
        "bytes": s.project.files().map(|(_, f)| f.bytes().len()).sum::<usize>(),
        "faults": s.run.faults.len() + s.runs.iter().map(|r| r.faults.len()).sum::<usize>()
            + s.ops.iter().map(|o| if let Op::Run(r) = o { r.faults.len() } else { 0 }).sum::<usize>(),
        "history": s.ops.len(),
        "edits": s.run.edits.len(),
    })
}

pub struct KnownFinding {
    pub property: String,
    pub matcher: String,
    pub what: String,
    pub scenario: Option<Scenario>,
}

pub fn load_known(path: &Path) -> Vec<KnownFinding> {
    let Ok(text) = std::fs::read_to_string(path) else {
        return vec![];
    };
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .map(|v| KnownFinding {
            property: v["property"].as_str().unwrap_or("").to_owned(),
            matcher: v["matcher"].as_str().unwrap_or("").to_owned(),
            what: v["what"].as_str().unwrap_or("").to_owned(),
            scenario: serde_json::from_value(v["scenario"].clone()).ok(),
        })
        .collect()
}

/// Big files in small pieces take too long
pub fn tame(mut s: Scenario) -> Scenario {
    let bytes: usize = s.project.files().map(|(_, f)| f.bytes().len()).sum();
    let least = (bytes / 1500) as u32;
    for r in crate::shrink::runs_mut(&mut s) {
        r.knobs.shortr.1 = r.knobs.shortr.1.max(least);
        r.knobs.shortw.1 = r.knobs.shortw.1.max(least);
        if bytes > 10_000 && r.knobs.shortw.1 > 0 {
            r.log = Some("off".into());
        }
    }
    s
}

fn judge(cx: &mut Cx, s: &Scenario, known: &[KnownFinding]) -> Result<(), Violation> {
    let check = checks::by_id(&s.property).expect("property");
    let r = (check.judge)(s, cx);
    if let Err(v) = &r {
        if known
            .iter()
            .any(|k| k.property == s.property && checks::matches_known(&k.matcher, s, v))
        {
            cx.w.probe("known finding met again");
            return Ok(());
        }
    }
    r
}

/// Smaller scenarios that still fail in the same way
fn minimise(cx: &mut Cx, s: &Scenario, v: &Violation, known: &[KnownFinding]) -> (Scenario, Violation) {
    let mut best = s.clone();
    let mut best_v = v.clone();
    let start = Instant::now();
    let mut budget = 3000;
    let limit = std::env::var("VSIM_MINIMISE").ok().and_then(|v| v.parse().ok()).unwrap_or(60);
    loop {
        let mut improved = false;
        let candidates = crate::shrink::candidates(&best);
        for c in candidates {
            if budget == 0 || start.elapsed().as_secs() >= limit {
                return (best, best_v);
            }
            budget -= 1;
            if let Err(v2) = judge(cx, &c, known) {
                if v2.class == v.class {
                    best = c;
                    best_v = v2;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return (best, best_v);
        }
    }
}

pub fn check(o: &Options) -> i32 {
    let t0 = Instant::now();
    let Some(chk) = checks::by_id(&o.property) else {
        eprintln!("unknown property {}", o.property);
        return 3;
    };
    let known_all = load_known(&o.verif.join("known_findings.txt"));
    let (scratch, exe, lib) = match setup_scratch(o) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("scratch: {e}");
            return 3;
        }
    };
    let exe_dir = exe.parent().unwrap().to_owned();
    let next = AtomicU64::new(0);
    let found: Mutex<Option<(u64, Scenario, Violation)>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let samples = Mutex::new(BTreeMap::<u64, serde_json::Value>::new());
    let nondet = Mutex::new(Vec::<String>::new());
    let reruns = AtomicU64::new(0);
    let digest = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let panics = Mutex::new(Vec::<String>::new());
    std::thread::scope(|sc| {
        for wi in 0..o.workers {
            let (next, found, stats, samples, nondet, reruns, done, panics, digest) =
                (&next, &found, &stats, &samples, &nondet, &reruns, &done, &panics, &digest);
            let (exe, lib, known_all) = (&exe, &lib, &known_all);
            let home = scratch.0.join(format!("w{wi:02}"));
            let gen = chk.gen;
            sc.spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut cx = Cx {
                        w: World::new(&home, exe, lib).expect("world"),
                        g: Grammar::default(),
                    };
                    loop {
                        if t0.elapsed().as_secs() >= o.wall {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= o.runs {
                            break;
                        }
                        if let Some((f, _, _)) = &*found.lock().unwrap() {
                            if *f < i {
                                break;
                            }
                        }
                        let seed = scenario_seed(o.seed, &o.property, i);
                        let mut rng = Rng::new(seed);
                        let s = tame(gen(&mut rng, &mut cx));
                        cx.w.execution = seed;
                        let r = judge(&mut cx, &s, known_all);
                        let execution = cx.w.execution;
                        digest.fetch_add(execution, Ordering::SeqCst);
                        // the same seed again: the same scenario, the same execution
                        if i % 97 == 0 {
                            let mut rng = Rng::new(seed);
                            let s2 = tame(gen(&mut rng, &mut cx));
                            cx.w.execution = seed;
                            let r2 = judge(&mut cx, &s2, known_all);
                            reruns.fetch_add(1, Ordering::SeqCst);
                            if s2 != s || r.is_err() != r2.is_err() || cx.w.execution != execution {
                                nondet.lock().unwrap().push(format!(
                                    "index {i}: scenario same {}, verdict same {}, logs same {}",
                                    s2 == s,
                                    r.is_err() == r2.is_err(),
                                    cx.w.execution == execution
                                ));
                            }
                        }
                        if i < 400 && i % 133 == 0 {
                            samples.lock().unwrap().insert(i, sample(&s));
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                        if let Err(v) = r {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                *f = Some((i, s, v));
                            }
                        }
                    }
                    stats.lock().unwrap().merge(&cx.w.stats);
                }));
                if let Err(e) = r {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                        .unwrap_or_default();
                    panics.lock().unwrap().push(m);
                }
            });
        }
    });
    let mut code = 0;
    let found = found.into_inner().unwrap();
    let panics = panics.into_inner().unwrap();
    let nondet = nondet.into_inner().unwrap();
    let mut violations = 0;

    // known findings: shown while they last
    let mut cx = Cx {
        w: World::new(&scratch.0.join("w00"), &exe, &lib).expect("world"),
        g: Grammar::default(),
    };
    for k in known_all.iter().filter(|k| k.property == o.property) {
        if let Some(s) = &k.scenario {
            if (chk.judge)(s, &mut cx).is_err() {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
        }
    }
    if let Some((index, s, v)) = found {
        violations = 1;
        let (min, mv) = minimise(&mut cx, &s, &v, &known_all);
        let dir = o.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", o.property));
        let (execution, trace) = fault_trace(&mut cx, &min);
        let r = Replay {
            property: o.property.clone(),
            seed: o.seed,
            index,
            violation: mv.clone(),
            minimised_from: size_of(&s),
            scenario: min,
            execution,
            fault_trace: trace,
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()) {
            eprintln!("{}: {e}", path.display());
        }
        println!("seed {} index {index}: {} - {}", o.seed, mv.class, mv.detail);
        println!("VIOLATION property={} replay={}", o.property, path.display());
        code = 1;
    }
    drop(cx);
    let stats = stats.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": o.property,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.runs,
            "scenarios": done.load(Ordering::SeqCst),
            "scenarios_planned": o.runs,
            "distinct_nontrivial": stats.signatures.len(),
            "rule": format!("{} An evaluation is one simulated run; it is non-trivial if in it a fault fired, a call was cut short, interrupted or reordered, or another party changed the disk; distinct by its complete step log (kind, path, call number, result, disturbance of every simulated call).", chk.rule),
            "samples": samples.into_inner().unwrap().into_values().collect::<Vec<_>>(),
            "runs_per_hour": (stats.runs as f64 / wall * 3600.0) as u64,
            "scenarios_per_hour": (done.load(Ordering::SeqCst) as f64 / wall * 3600.0) as u64,
            "simulated_calls": stats.steps,
            "simulated_seconds": (stats.simtime_ns as f64 / 1e9),
            "disturbances_fired": stats.faults,
            "probes": stats.probes,
            "run_endings": stats.exits,
            "determinism_reruns": reruns.load(Ordering::SeqCst),
            "determinism_differences": nondet.len(),
            "execution_digest": format!("{:016x}", digest.load(Ordering::SeqCst)),
            "real_code": ["the reqtrace binary built from /repo (release), unmodified: main, controller, parsers, tracer, formatters, and its dependencies", "kernel file system below a scratch directory (tmpfs)"],
            "simulated": ["results of open, create, read, write, opendir, readdir, stat, mkdir, close", "order of directory entries", "clocks and sleeps", "random numbers (hash seeds)", "process death", "other programs editing the disk"],
        },
        "assumptions": chk.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let evp = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evp);
    if let Err(e) = std::fs::write(
        evp.join(format!("{}.json", o.property)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    ) {
        eprintln!("evidence: {e}");
        code = 3;
    }
    if exe_dir.starts_with("/tmp") {
        remove_tree(&exe_dir);
    }
    if !panics.is_empty() {
        eprintln!("harness error: {panics:?}");
        if code == 0 {
            code = 3;
        }
    }
    if !nondet.is_empty() {
        eprintln!("not deterministic: {nondet:?}");
        if code == 0 {
            code = 3;
        }
    }
    println!(
        "{}: {} scenarios, {} runs, {} distinct disturbed executions, {:.1} s",
        o.property,
        done.load(Ordering::SeqCst),
        stats.runs,
        stats.signatures.len(),
        wall
    );
    code
}

fn sample(s: &Scenario) -> serde_json::Value {
    json!({
        "base": s.project.base,
        "artefacts": s.project.arts.iter().map(|a| format!("{} {:?} {:?}", a.id, a.parser, a.paths)).collect::<Vec<_>>(),
        "relations": s.project.rels.iter().map(|r| format!("{} => {:?}", r.upper, r.lower)).collect::<Vec<_>>(),
        "variant": s.variant,
        "jobs": s.run.jobs,
        "knobs": s.run.knobs,
        "faults": s.run.faults,
        "edits": s.run.edits.iter().map(|e| format!("{} {} before {} #{} of {}", e.op, e.dst, e.kind, e.nth, e.path)).collect::<Vec<_>>(),
        "history": s.ops.iter().map(|o| match o {
            Op::Run(r) => format!("run {:?} faults {:?}", r.jobs, r.faults.iter().map(|f| format!("{} {} #{} {}", f.kind, f.path, f.nth, f.action)).collect::<Vec<_>>()),
            Op::Edit { art, file, .. } => format!("edit file {file} of artefact {art}"),
            Op::Put { path, .. } => format!("put {path}"),
            Op::Tear { path, keep, .. } => format!("tear {path} to {keep}/1000"),
            Op::Remove { path } => format!("remove {path}"),
            Op::Touch { path, time } => format!("touch {path} {time}"),
        }).collect::<Vec<_>>(),
    })
}

/// The runs of a scenario, what was disturbed in them, and a hash of all of it
fn fault_trace(cx: &mut Cx, s: &Scenario) -> (String, Vec<String>) {
    let check = checks::by_id(&s.property).expect("property");
    cx.w.execution = 0;
    cx.w.trace = Some(vec![]);
    let _ = (check.judge)(s, cx);
    (
        format!("{:016x}", cx.w.execution),
        cx.w.trace.take().unwrap_or_default(),
    )
}

pub fn replay(o: &Options, path: &Path) -> i32 {
    let text = match std::fs::read(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", path.display());
            return 3;
        }
    };
    let r: Replay = match serde_json::from_slice(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {e}", path.display());
            return 3;
        }
    };
    let (scratch, exe, lib) = setup_scratch(o).expect("scratch");
    let mut cx = Cx {
        w: World::new(&scratch.0.join("w00"), &exe, &lib).expect("world"),
        g: Grammar::default(),
    };
    let chk = checks::by_id(&r.property).expect("property");
    match (chk.judge)(&r.scenario, &mut cx) {
        Ok(()) => {
            println!("not reproduced");
            0
        }
        Err(v) => {
            println!("{} - {}", v.class, v.detail);
            let (execution, trace) = fault_trace(&mut cx, &r.scenario);
            for l in trace {
                println!("  {l}");
            }
            if execution == r.execution {
                println!("execution {execution}, exactly as recorded");
            } else {
                println!("execution {execution}, recorded was {} (another build?)", r.execution);
            }
            if v.class != r.violation.class {
                println!("a different violation than recorded ({})", r.violation.class);
            }
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
    }
}

/// print one scenario and its runs
pub fn dump(o: &Options, index: u64) {
    let (scratch, exe, lib) = setup_scratch(o).expect("scratch");
    let mut cx = Cx {
        w: World::new(&scratch.0.join("w00"), &exe, &lib).expect("world"),
        g: Grammar::default(),
    };
    let chk = checks::by_id(&o.property).expect("property");
    let mut rng = Rng::new(scenario_seed(o.seed, &o.property, index));
    let s = tame((chk.gen)(&mut rng, &mut cx));
    println!("{}", serde_json::to_string_pretty(&s).unwrap());
    let root = cx.root();
    println!("{}", s.project.config_text(&root));
    for (_, f) in s.project.files() {
        println!("--- {}\n{}", f.path, String::from_utf8_lossy(&f.bytes()));
    }
    let (out, tree) = cx.fresh(&s.project, &s.run);
    println!("{}", String::from_utf8_lossy(&out.raw_log));
    println!("ending {} stderr {}", out.ending(), String::from_utf8_lossy(&out.stderr));
    for j in &s.project.jobs {
        if let Some(d) = s.project.dest(j) {
            if let Some(b) = file(&tree, &d) {
                println!("=== {d}\n{}", String::from_utf8_lossy(b));
            }
        }
    }
    println!("judged: {:?}", (chk.judge)(&s, &mut cx));
}
