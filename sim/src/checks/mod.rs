//! The properties: what is generated for each, and how each run is judged.

use crate::engine::{violation, Cx, Op, Scenario, Violation};
use crate::model::*;
use crate::project::*;
use crate::reports::{self, ParseRep, TraceRep};
use crate::rng::Rng;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

mod concurrent;
mod config;
mod history;
mod inputs;
mod outputs;
mod robust;

pub struct Check {
    pub id: &'static str,
    /// scenarios of the quick tier
    pub quick: u64,
    pub gen: fn(&mut Rng, &mut Cx) -> Scenario,
    pub judge: fn(&Scenario, &mut Cx) -> Result<(), Violation>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(inputs::checks());
    v.extend(outputs::checks());
    v.extend(config::checks());
    v.extend(robust::checks());
    v.extend(history::checks());
    v.extend(concurrent::checks());
    v.sort_by_key(|c| c.id);
    v
}

pub fn by_id(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

/// Is this violation the listed finding
pub fn matches_known(matcher: &str, s: &Scenario, v: &Violation) -> bool {
    match matcher {
        // the glob crate takes a directory it can not stat for a file
        "stat-on-directory" => {
            v.class == "silent"
                && s.run.faults.iter().any(|f| {
                    f.kind == "stat"
                        && f.action == 'e'
                        && s.project.input(&f.path).is_none()
                        && s.project.files().any(|(a, x)| {
                            a.parser == Parser::Rust
                                && s.project.on_disk(&x.path).starts_with(&format!("{}/", f.path))
                                && v.detail.contains(&x.path)
                        })
                })
        }
        // syn and toml recurse as deep as their input nests
        "stack-overflow-by-nesting" => {
            v.class == "signal" && v.detail.contains("signal 6:") && v.detail.contains("overflowed its stack") && robust::is_deep(s)
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- what is common

pub const STD: [&str; 6] = ["tj", "tm", "tg", "pj", "pm", "pt"];

pub fn std_names() -> Vec<String> {
    STD.iter().map(|s| (*s).to_owned()).collect()
}

/// Disturbances that must go unnoticed
pub fn knobs(rng: &mut Rng) -> Knobs {
    let seed = rng.next();
    if rng.pm(300) {
        return Knobs {
            seed,
            ..Knobs::default()
        };
    }
    let short = |rng: &mut Rng| -> (u32, u32) {
        if rng.coin() {
            (0, 0)
        } else {
            (*rng.pick(&[100, 500, 1000]), *rng.pick(&[1, 3, 17, 100, 1000, 8192]))
        }
    };
    Knobs {
        seed,
        shortr: short(rng),
        shortw: short(rng),
        eintr: *rng.pick(&[0, 0, 20, 200]),
        dirshuf: rng.coin(),
        mtime: rng.coin(),
        clock: rng.below(3) as u32,
    }
}

pub fn log_level(rng: &mut Rng) -> Option<String> {
    match rng.below(6) {
        0 => None,
        1 => Some("trace".into()),
        2 => Some("error".into()),
        3 => Some("info".into()),
        _ => Some("off".into()),
    }
}

/// the six jobs, in some order
pub fn std_run(rng: &mut Rng) -> RunSpec {
    let mut jobs = std_names();
    if rng.coin() {
        rng.shuffle(&mut jobs);
    }
    RunSpec {
        jobs,
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    }
}

pub fn settled(o: &Outcome) -> Result<(), Violation> {
    match o.code {
        Some(0 | 1) if !o.hung && o.signal.is_none() => Ok(()),
        _ => violation(
            "ending",
            format!("{} stderr: {}", o.ending(), String::from_utf8_lossy(&o.stderr)),
        ),
    }
}

pub struct Reports {
    pub tj: TraceRep,
    pub tm: String,
    pub tg: String,
    pub pj: ParseRep,
    pub pm: String,
    pub pt: String,
}

pub fn report_bytes<'a>(p: &Project, t: &'a Tree, job: &str) -> Result<&'a [u8], Violation> {
    let Some(j) = p.job(job) else {
        return violation("no job", job);
    };
    let Some(d) = p.dest(j) else {
        return violation("no job", job);
    };
    match file(t, &d) {
        Some(b) => Ok(b),
        None => violation("report", format!("report of {job} at {d} is missing")),
    }
}

fn report_text(p: &Project, t: &Tree, job: &str) -> Result<String, Violation> {
    match String::from_utf8(report_bytes(p, t, job)?.to_vec()) {
        Ok(s) => Ok(s),
        Err(_) => violation("report", format!("report of {job} is not text")),
    }
}

pub fn trace_report(p: &Project, t: &Tree, job: &str) -> Result<TraceRep, Violation> {
    reports::trace_json(report_bytes(p, t, job)?).or_else(|e| violation("report", format!("{job}: {e}")))
}
pub fn parse_report(p: &Project, t: &Tree, job: &str) -> Result<ParseRep, Violation> {
    reports::parse_json(report_bytes(p, t, job)?).or_else(|e| violation("report", format!("{job}: {e}")))
}

/// all six reports
pub fn read_reports(p: &Project, t: &Tree) -> Result<Reports, Violation> {
    Ok(Reports {
        tj: trace_report(p, t, "tj")?,
        tm: report_text(p, t, "tm")?,
        tg: report_text(p, t, "tg")?,
        pj: parse_report(p, t, "pj")?,
        pm: report_text(p, t, "pm")?,
        pt: report_text(p, t, "pt")?,
    })
}

pub fn ancestors(path: &str) -> Vec<String> {
    let mut v = vec![];
    let mut p = path;
    while let Some((d, _)) = p.rsplit_once('/') {
        v.push(d.to_owned());
        p = d;
    }
    v
}

/// Did the program get every byte of the file in one go
pub fn obtained(o: &Outcome, disk: &str, len: usize) -> bool {
    let mut open = false;
    let mut got = 0;
    for s in o.steps.iter().filter(|s| s.path == disk) {
        match s.kind.as_str() {
            "open" if s.ret >= 0 => {
                open = true;
                got = 0;
                if len == 0 {
                    return true;
                }
            }
            "read" if s.ret > 0 && open => {
                got += s.ret as usize;
                if got >= len {
                    return true;
                }
            }
            "close" => open = false,
            _ => {}
        }
    }
    false
}

/// was this input, or a directory on the way to it, met by a fault
pub fn touched(o: &Outcome, disk: &str) -> bool {
    let dirs = ancestors(disk);
    o.steps.iter().any(|s| {
        matches!(s.tag, 'e' | 'z')
            && (s.path == disk || (matches!(s.kind.as_str(), "opendir" | "readdir" | "stat" | "open") && dirs.contains(&s.path)))
    })
}

/// Which calls are on inputs, or on directories in which patterns find some
struct InputSteps {
    files: BTreeSet<String>,
    dirs: BTreeSet<String>,
}
impl InputSteps {
    fn new(p: &Project) -> InputSteps {
        let mut x = InputSteps {
            files: BTreeSet::new(),
            dirs: BTreeSet::new(),
        };
        for a in &p.arts {
            let pattern = a.parser == Parser::Rust && a.paths.iter().any(|x| is_pattern(x));
            for f in &a.files {
                let d = p.on_disk(&f.path);
                if pattern {
                    x.dirs.extend(ancestors(&d));
                }
                x.files.insert(d);
            }
        }
        x
    }
    fn is(&self, s: &Step) -> bool {
        if self.files.contains(&s.path) {
            return matches!(s.kind.as_str(), "open" | "read" | "stat");
        }
        matches!(s.kind.as_str(), "opendir" | "readdir" | "stat") && self.dirs.contains(&s.path)
    }
}

pub fn input_errno(rng: &mut Rng, kind: &str) -> i32 {
    match kind {
        "read" => *rng.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EISDIR, libc::ENOMEM, libc::ETIMEDOUT, libc::EAGAIN]),
        "readdir" => *rng.pick(&[libc::EIO, libc::ESTALE, libc::ENOENT]),
        _ => *rng.pick(&[
            libc::EACCES,
            libc::EIO,
            libc::EMFILE,
            libc::ENFILE,
            libc::ENOENT,
            libc::ESTALE,
            libc::ELOOP,
            libc::ENOMEM,
            libc::EPERM,
        ]),
    }
}

/// Faults on what is read, at calls that an undisturbed run makes
pub fn input_faults(rng: &mut Rng, cx: &mut Cx, p: &Project, run: &RunSpec, n: usize, dir_stat: bool) -> Vec<Fault> {
    let (o, _) = cx.fresh(p, run);
    input_faults_at(rng, p, &o, n, dir_stat)
}

pub fn input_faults_at(rng: &mut Rng, p: &Project, o: &Outcome, n: usize, dir_stat: bool) -> Vec<Fault> {
    // directories of reports matter to more than the inputs
    let outs: BTreeSet<String> = p.jobs.iter().filter_map(|j| p.dest(j)).flat_map(|d| ancestors(&d)).collect();
    let inputs = InputSteps::new(p);
    let mut by_path: BTreeMap<&str, Vec<&Step>> = BTreeMap::new();
    for s in &o.steps {
        if s.kind == "stat" && outs.contains(&s.path) {
            continue;
        }
        if s.tag != 'i' && inputs.is(s) && (dir_stat || s.kind != "stat" || inputs.files.contains(&s.path)) {
            by_path.entry(&s.path).or_default().push(s);
        }
    }
    let names: Vec<&str> = by_path.keys().copied().collect();
    let mut v: Vec<Fault> = vec![];
    if names.is_empty() {
        return v;
    }
    for _ in 0..n {
        let path = *rng.pick(&names);
        // kinds evenly, reads are many
        let kinds: BTreeSet<&str> = by_path[path].iter().map(|s| s.kind.as_str()).collect();
        let kinds: Vec<&str> = kinds.into_iter().collect();
        let kind = *rng.pick(&kinds);
        let steps: Vec<&&Step> = by_path[path].iter().filter(|s| s.kind == kind).collect();
        let st = *rng.pick(&steps);
        v.push(Fault {
            kind: kind.to_owned(),
            path: path.to_owned(),
            nth: st.nth,
            action: 'e',
            arg: i64::from(input_errno(rng, kind)),
            persist: rng.coin(),
        });
    }
    v
}

/// One fault at each call on an input, or at so many of them
pub fn all_input_faults(rng: &mut Rng, p: &Project, o: &Outcome, dir_stat: bool, max: usize) -> Vec<Fault> {
    let outs: BTreeSet<String> = p.jobs.iter().filter_map(|j| p.dest(j)).flat_map(|d| ancestors(&d)).collect();
    let inputs = InputSteps::new(p);
    let mut steps: Vec<&Step> = o
        .steps
        .iter()
        .filter(|s| !(s.kind == "stat" && outs.contains(&s.path)))
        .filter(|s| s.tag != 'i' && inputs.is(s) && (dir_stat || s.kind != "stat" || inputs.files.contains(&s.path)))
        .collect();
    while steps.len() > max {
        let k = rng.below(steps.len());
        steps.remove(k);
    }
    steps
        .iter()
        .map(|s| Fault {
            kind: s.kind.clone(),
            path: s.path.clone(),
            nth: s.nth,
            action: 'e',
            arg: i64::from(input_errno(rng, &s.kind)),
            persist: rng.coin(),
        })
        .collect()
}

/// Bytes that are not text, somewhere in a file
pub fn smash(rng: &mut Rng, p: &mut Project) {
    let n = p.arts.len();
    if n == 0 {
        return;
    }
    let a = rng.below(n);
    if p.arts[a].files.is_empty() {
        return;
    }
    let nf = p.arts[a].files.len();
    let f = &mut p.arts[a].files[rng.below(nf)];
    let l = f.whole().len();
    if l > 0 {
        f.smash.push((rng.below(l), 0xff));
    }
}

/// Compares what was read with what the files say. Files met by a fault may be incomplete, the
/// others are exact. Ids are unique.
pub fn exact_inputs(p: &Project, cx: &Cx, o: &Outcome, tj: &TraceRep) -> Result<(), Violation> {
    let root = cx.root();
    if tj.arts.len() != p.arts.len() {
        return violation("artefacts", format!("{:?}", tj.arts.keys()));
    }
    for a in &p.arts {
        let Some(rep) = tj.arts.get(&a.id) else {
            return violation("artefacts", format!("{} is missing", a.id));
        };
        let mut reqs = rep.reqs.clone();
        let mut errs: Vec<Err> = rep
            .errs
            .iter()
            .filter(|e| !matches!(e, Err::RequirementWithoutTitle(_)))
            .cloned()
            .collect();
        let mut loose_ids: BTreeSet<String> = BTreeSet::new();
        let mut loose_paths: BTreeSet<String> = BTreeSet::new();
        for f in &a.files {
            let disk = p.on_disk(&f.path);
            let shown = p.shown(&f.path, &root);
            let exp = f.parse(&cx.g, a.parser, &shown);
            let pattern = !a.paths.contains(&f.path);
            let hit = touched(o, &disk);
            if f.missing && pattern && !hit {
                // nothing there, nothing to say
                continue;
            }
            if hit || (exp.damaged && !f.missing) {
                // may be cut short: what is there is what the file says, except for the last one
                let n = exp.reqs.len();
                for (i, r) in exp.reqs.iter().enumerate() {
                    let r = r.clone().normed();
                    loose_ids.insert(r.id.clone());
                    let Some(got) = reqs.iter().find(|x| x.id == r.id) else {
                        continue;
                    };
                    if i + 1 < n && !hit && *got != r {
                        return violation("requirement", format!("{got:?}, the file says {r:?}"));
                    }
                }
                if !hit {
                    // damaged text: everything before the damage is there, and it is reported
                    if a.parser == Parser::Markdown {
                        for r in exp.reqs.iter().take(n.saturating_sub(1)) {
                            if !reqs.iter().any(|x| x.id == r.id) {
                                return violation("requirement", format!("{} before the damage is missing", r.id));
                            }
                        }
                    }
                    if !errs.iter().any(|e| e.path() == Some(&shown)) {
                        return violation("silent", format!("{shown} is damaged, no error says so: {errs:?}"));
                    }
                }
                loose_paths.insert(shown.clone());
                loose_paths.extend(ancestors(&shown));
                continue;
            }
            for r in exp.reqs {
                let r = r.normed();
                match reqs.iter().position(|x| *x == r) {
                    Some(k) => {
                        reqs.remove(k);
                    }
                    None => {
                        let got: Vec<&Req> = reqs.iter().filter(|x| x.id == r.id).collect();
                        return violation("requirement", format!("{}: {got:?}, the file says {r:?}", a.id));
                    }
                }
            }
            let mut got: Vec<Err> = errs.iter().filter(|e| e.path() == Some(&shown)).cloned().collect();
            errs.retain(|e| e.path() != Some(&shown));
            let mut want = exp.errs.clone();
            got.sort();
            want.sort();
            if got != want {
                return violation("input error", format!("{shown}: {got:?}, expected {want:?}"));
            }
        }
        if let Some(r) = reqs.iter().find(|r| !loose_ids.contains(&r.id)) {
            return violation("requirement", format!("{} has {r:?}, which no file says", a.id));
        }
        if let Some(e) = errs.iter().find(|e| !e.path().map_or(false, |p| loose_paths.contains(p))) {
            return violation("input error", format!("{} has {e:?}, nothing is wrong there", a.id));
        }
    }
    Ok(())
}

/// flags and relations are those of the configuration
pub fn exact_graph(p: &Project, tj: &TraceRep) -> Result<(), Violation> {
    for a in &p.arts {
        let Some(rep) = tj.arts.get(&a.id) else {
            return violation("artefacts", format!("{} is missing", a.id));
        };
        if rep.ignore_derived != p.ignores_derived(a) || rep.with_title != a.with_title.unwrap_or(false) {
            return violation(
                "graph",
                format!("{} ignores derived {}, demands titles {}", a.id, rep.ignore_derived, rep.with_title),
            );
        }
    }
    let got: Vec<&Rel> = tj.rels.iter().map(|r| &r.0).collect();
    let want: Vec<&Rel> = p.rels.iter().collect();
    if got != want {
        return violation("graph", format!("relations {got:?}, configured {want:?}"));
    }
    Ok(())
}

/// Applies one step of a history to the disk (runs excepted)
pub fn apply(p: &mut Project, op: &Op, cx: &mut Cx) {
    match op {
        Op::Edit { art, file, spec } => {
            if let Some(f) = p.arts.get_mut(*art).and_then(|a| a.files.get_mut(*file)) {
                *f = spec.clone();
                let disk = p.on_disk(&spec.path);
                if spec.missing {
                    cx.w.remove(&disk);
                } else {
                    cx.w.write(&disk, &spec.bytes());
                }
            }
        }
        Op::Put { path, content } => {
            let on = cx.w.root.join(path);
            if on.is_dir() {
                return;
            }
            if ancestors(path).iter().any(|a| cx.w.root.join(a).is_file()) {
                return;
            }
            // the program's own output may belong to the other user
            cx.w.remove(path);
            cx.w.write(path, &content.0);
        }
        Op::Tear { path, keep, zeros } => {
            if let Ok(b) = std::fs::read(cx.w.root.join(path)) {
                let n = b.len() * (*keep as usize) / 1000;
                let mut c = b[..n].to_vec();
                if *zeros {
                    c.resize(b.len(), 0);
                }
                cx.w.remove(path);
                cx.w.write(path, &c);
            }
        }
        Op::Remove { path } => cx.w.remove(path),
        Op::Touch { path, time } => {
            let f = cx.w.root.join(path);
            if let Ok(c) = std::ffi::CString::new(f.to_string_lossy().as_bytes()) {
                let t = libc::timespec {
                    tv_sec: *time,
                    tv_nsec: 0,
                };
                unsafe {
                    libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), 0);
                }
            }
        }
        Op::Run(_) => {}
    }
}

/// Another version of a file: something dropped, retitled, moved, cut
pub fn edited(rng: &mut Rng, f: &FileSpec, may_cut: bool) -> FileSpec {
    let mut x = f.clone();
    x.cut = None;
    x.missing = false;
    match &mut x.doc {
        Doc::Text(b) => {
            for _ in 0..rng.range(1, 2) {
                match rng.below(4) {
                    0 if b.len() > 1 => {
                        let k = rng.below(b.len());
                        b.remove(k);
                    }
                    1 if !b.is_empty() => {
                        let k = rng.below(b.len());
                        let at = b[k].find('\n').unwrap_or(b[k].len());
                        b[k].insert_str(at, " (new)");
                    }
                    2 if b.len() > 1 && f.path.ends_with(".md") => {
                        let k = rng.below(b.len());
                        let l = b.len();
                        b.swap(k, l - 1);
                    }
                    _ if !b.is_empty() => {
                        // a line less
                        let k = rng.below(b.len());
                        let mut l: Vec<&str> = b[k].split_inclusive('\n').collect();
                        if l.len() > 1 {
                            let i = 1 + rng.below(l.len() - 1);
                            l.remove(i);
                        }
                        b[k] = l.concat();
                    }
                    _ => {}
                }
            }
        }
        Doc::Json(v, pretty) => {
            if !v.is_empty() {
                let k = rng.below(v.len());
                match rng.below(3) {
                    0 => {
                        v.remove(k);
                    }
                    1 => v[k]["title"] = serde_json::json!("New Title"),
                    _ => {
                        let key = *rng.pick(&["covers", "depends"]);
                        if let Some(a) = v[k][key].as_array_mut() {
                            a.pop();
                        }
                    }
                }
            } else {
                *pretty ^= 1;
            }
        }
        Doc::Rust(n) => {
            if !n.is_empty() {
                let k = rng.below(n.len());
                if rng.coin() {
                    n.remove(k);
                } else {
                    drop_mark(&mut n[k]);
                }
            }
        }
        Doc::Raw(_) => {}
    }
    if may_cut && rng.pm(300) {
        x.cut = Some(cut_at(rng, &x.whole()));
    }
    x
}

fn drop_mark(n: &mut RsNode) {
    if n.marks.pop().is_none() {
        if let Some(c) = n.children.first_mut() {
            drop_mark(c);
        }
    }
}
