//! C03, C04, C05, C07, C10: what is written, and what the exit status says.

use super::*;

const OUT: &[&str] = &[
    "faults are injected at the libc boundary; durability below the page cache is not modelled, the program never syncs",
    "standard output and standard error are files",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            quick: 2500,
            gen: c03_gen,
            judge: c03_judge,
            rule: "A case is a generated project run once undisturbed and three times with split, interrupted and reordered system calls, other clocks, random numbers, log levels and environments.",
            assumptions: OUT,
        },
        Check {
            id: "C04",
            quick: 6000,
            gen: c04_gen,
            judge: c04_judge,
            rule: "A case is a generated project, a list of jobs to files and standard output, and up to three failing calls (mkdir, create, write, flush) or obstacles at the destinations.",
            assumptions: OUT,
        },
        Check {
            id: "C05",
            quick: 2500,
            gen: c05_gen,
            judge: c05_judge,
            rule: "A case is a list of up to seven jobs in any order, with repeats and shared destinations, some of which fail; each report is compared with that of the job run alone.",
            assumptions: OUT,
        },
        Check {
            id: "C07",
            quick: 9000,
            gen: c07_gen,
            judge: c07_judge,
            rule: "A case is a generated project (free of problems, with one problem, or with any), a list of jobs that do or do not set the return code, and failing inputs or outputs.",
            assumptions: OUT,
        },
        Check {
            id: "C10",
            quick: 8000,
            gen: c10_gen,
            judge: c10_judge,
            rule: "A case is a generated project on a disk with other files, a list of jobs, failing calls on inputs and outputs and, in half of the cases, death of the process at an arbitrary call.",
            assumptions: OUT,
        },
    ]
}

/// more jobs: to standard output, and rarely two to one file
pub fn more_jobs(rng: &mut Rng, p: &mut Project, shared: bool) {
    for (name, q, f) in [
        ("s1", "Trace", "Json"),
        ("s2", "Parse", "Markdown"),
        ("s3", "Trace", "GnuError"),
        ("s4", "Parse", "Tags"),
    ] {
        p.jobs.push(JobSpec {
            name: name.into(),
            query: q.into(),
            format: f.into(),
            file: "-".into(),
            set_rc: None,
        });
    }
    if rng.pm(300) {
        // the same names in another directory, and paths that differ only in part
        let k = rng.below(6);
        let file = p.jobs[k].file.clone();
        let name = file.rsplit('/').next().unwrap_or("x").to_owned();
        for (i, (q, f)) in [("Trace", "Json"), ("Parse", "Markdown"), ("Parse", "Tags")].iter().enumerate() {
            let file = match (i + rng.below(2)) % 4 {
                0 => format!("second/{name}"),
                1 => format!("second/./deeper/{name}"),
                2 => format!("{file}.more"),
                _ => format!("second/x {name}"),
            };
            if p.jobs.iter().any(|j| j.file == file) {
                continue;
            }
            p.jobs.push(JobSpec {
                name: format!("d{i}"),
                query: (*q).into(),
                format: (*f).into(),
                file,
                set_rc: None,
            });
        }
    }
    if shared {
        let k = rng.below(6);
        let file = p.jobs[k].file.clone();
        let (q, f) = *rng.pick(&[("Trace", "Markdown"), ("Parse", "Json"), ("Trace", "GnuError")]);
        p.jobs.push(JobSpec {
            name: "sh".into(),
            query: q.into(),
            format: f.into(),
            file,
            set_rc: None,
        });
    }
}

pub fn job_list(rng: &mut Rng, p: &Project, max: usize) -> Vec<String> {
    let n = rng.range(1, max);
    (0..n).map(|_| rng.pick(&p.jobs).name.clone()).collect()
}

pub fn dests(p: &Project, run: &RunSpec) -> BTreeSet<String> {
    jobs_of(p, run)
        .iter()
        .filter_map(|j| p.job(j))
        .filter_map(|j| p.dest(j))
        .collect()
}

pub fn jobs_of(p: &Project, run: &RunSpec) -> Vec<String> {
    if run.jobs.is_empty() {
        p.default_jobs.clone().unwrap_or_default()
    } else {
        run.jobs.clone()
    }
}

fn is_output_step(d: &BTreeSet<String>, s: &Step) -> bool {
    match s.kind.as_str() {
        "write" => s.path == "<stdout>" || d.contains(&s.path) || !s.path.starts_with('<'),
        "create" | "rename" | "trunc" | "sync" | "unlink" => !s.path.starts_with('<'),
        "mkdir" => true,
        _ => false,
    }
}

pub fn output_errno(rng: &mut Rng, kind: &str) -> i32 {
    match kind {
        "write" => *rng.pick(&[libc::ENOSPC, libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EPIPE, libc::EFBIG, libc::EAGAIN]),
        _ => *rng.pick(&[
            libc::EACCES,
            libc::ENOSPC,
            libc::EROFS,
            libc::EDQUOT,
            libc::EIO,
            libc::EMFILE,
            libc::ENAMETOOLONG,
            libc::EPERM,
        ]),
    }
}

pub fn output_faults_at(rng: &mut Rng, p: &Project, run: &RunSpec, o: &Outcome, n: usize) -> Vec<Fault> {
    let d = dests(p, run);
    let mut groups: BTreeMap<(&str, &str), Vec<&Step>> = BTreeMap::new();
    for s in o.steps.iter().filter(|s| s.tag != 'i' && is_output_step(&d, s)) {
        groups.entry((&s.kind, &s.path)).or_default().push(s);
    }
    let keys: Vec<(&str, &str)> = groups.keys().copied().collect();
    let mut v: Vec<Fault> = vec![];
    if keys.is_empty() {
        return v;
    }
    if rng.pm(80) {
        return full_disk(rng, &d, o);
    }
    for _ in 0..n {
        // writes are what is most interesting
        let mut k = *rng.pick(&keys);
        if k.0 != "write" && rng.coin() {
            k = *rng.pick(&keys);
        }
        let g = &groups[&k];
        let st = match rng.below(6) {
            0 => g[0],
            1 | 2 => g[g.len() - 1],
            _ => *rng.pick(g),
        };
        let mut f = Fault {
            kind: k.0.to_owned(),
            path: k.1.to_owned(),
            nth: st.nth,
            action: 'e',
            arg: i64::from(output_errno(rng, k.0)),
            persist: rng.coin(),
        };
        if k.0 == "write" {
            match rng.below(5) {
                0 => f.action = 'z',
                1 => {
                    // part of it goes through, then no more
                    let mut g = f.clone();
                    g.action = 's';
                    g.arg = 1 + rng.below((st.ret.max(2) - 1) as usize) as i64;
                    g.persist = false;
                    v.push(g);
                    f.nth += 1;
                }
                _ => {}
            }
        }
        v.push(f);
    }
    v
}

/// From some point on the disk is full: nothing is written to any file any
/// more, and to standard output only if it goes elsewhere.
fn full_disk(rng: &mut Rng, d: &BTreeSet<String>, o: &Outcome) -> Vec<Fault> {
    let stdout = rng.coin();
    let steps: Vec<&Step> = o
        .steps
        .iter()
        .filter(|s| s.tag != 'i' && is_output_step(d, s) && (stdout || s.path != "<stdout>") && matches!(s.kind.as_str(), "write" | "create" | "mkdir"))
        .collect();
    if steps.is_empty() {
        return vec![];
    }
    let errno = *rng.pick(&[libc::ENOSPC, libc::EDQUOT, libc::EROFS]);
    // with room for an empty file there may still be no room for what is in it
    let only_writes = errno != libc::EROFS && rng.coin();
    let mut v: Vec<Fault> = vec![];
    for st in &steps[rng.below(steps.len())..] {
        if only_writes && st.kind != "write" || v.iter().any(|f| f.kind == st.kind && f.path == st.path) || v.len() > 40 {
            continue;
        }
        v.push(Fault {
            kind: st.kind.clone(),
            path: st.path.clone(),
            nth: st.nth,
            action: 'e',
            arg: i64::from(errno),
            persist: true,
        });
    }
    v
}

/// things in the way
fn obstacles(rng: &mut Rng, p: &Project, run: &RunSpec) -> Vec<Op> {
    let d: Vec<String> = dests(p, run).into_iter().collect();
    let mut v = vec![];
    if d.is_empty() {
        return v;
    }
    let x = rng.pick(&d).clone();
    match rng.below(3) {
        0 => v.push(Op::Put {
            path: format!("{x}/in the way"),
            content: Bytes(b"x".to_vec()),
        }),
        1 => {
            // the parent is a file, unless it is the project itself
            if let Some((dir, _)) = x.rsplit_once('/') {
                if dir != p.base && !p.base.starts_with(&format!("{dir}/")) {
                    let keep = p.files().any(|(_, f)| p.on_disk(&f.path).starts_with(&format!("{dir}/")))
                        || p.decoys.keys().any(|k| k.starts_with(&format!("{dir}/")))
                        || p.config_path().starts_with(&format!("{dir}/"));
                    if !keep {
                        v.push(Op::Put {
                            path: dir.to_owned(),
                            content: Bytes(b"x".to_vec()),
                        });
                    }
                }
            }
        }
        _ => v.push(Op::Put {
            path: x,
            content: Bytes(vec![b'#'; rng.range(0, 200_000)]),
        }),
    }
    v
}

fn blocked(ops: &[Op], dest: &str) -> bool {
    ops.iter().any(|o| match o {
        Op::Put { path, .. } => path.starts_with(&format!("{dest}/")) || dest.starts_with(&format!("{path}/")),
        _ => false,
    })
}

// ---------------------------------------------------------------- C03

fn c03_gen(rng: &mut Rng, _cx: &mut Cx) -> Scenario {
    let pf = Profile {
        big: 250,
        cut: 50,
        missing: 30,
        max_reqs: 8,
        unique: rng.coin(),
        wild: 150,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 2]) {
        odd_bytes(rng, &mut p);
    }
    let shared = rng.pm(100);
    more_jobs(rng, &mut p, shared);
    let mut jobs: Vec<String> = p.jobs.iter().map(|j| j.name.clone()).collect();
    if rng.coin() {
        rng.shuffle(&mut jobs);
    }
    let base = RunSpec {
        jobs,
        log: Some("off".into()),
        ..RunSpec::default()
    };
    let mut s = Scenario::new("C03", p, base.clone());
    for _ in 0..3 {
        let mut r = base.clone();
        r.knobs = knobs(rng);
        r.log = log_level(rng);
        if rng.pm(400) {
            r.env = vec![
                format!("REQTRACE_LOG={}", rng.pick(&["trace", "off", "warn", "reqtrace=debug"])),
                format!("LANG={}", rng.pick(&["C", "de_DE.UTF-8", "tr_TR"])),
                format!("TZ={}", rng.pick(&["UTC", "Asia/Kathmandu"])),
                format!("HOME={}", rng.pick(&["/", "/nonexistent"])),
                format!("NO_COLOR={}", rng.below(2)),
                format!("RUST_BACKTRACE={}", rng.below(2)),
                format!("COLUMNS={}", rng.range(10, 200)),
            ];
        }
        s.runs.push(r);
    }
    s
}

/// byte order marks, control characters, other encodings: whatever they mean, it is the same each time
fn odd_bytes(rng: &mut Rng, p: &mut Project) {
    if p.arts.is_empty() {
        return;
    }
    let a = rng.below(p.arts.len());
    if p.arts[a].files.is_empty() {
        return;
    }
    let k = rng.below(p.arts[a].files.len());
    let f = &mut p.arts[a].files[k];
    let mut b = f.bytes();
    let piece: &[u8] = *rng.pick(&[
        &[0xef, 0xbb, 0xbf][..],
        &[0xef, 0xbb, 0xbf],
        &[0],
        &[0, 0, 0, 0],
        &[0x0c],
        &[0x1a],
        &[0x1b, b'[', b'1', b'm'],
        &[0xe2, 0x80, 0xa8],
        &[0xc2, 0xa0],
        &[0xff, 0xfe],
        &[0xe4],
        b"\r",
        b"\r\n",
        b"-*- coding: latin-1 -*-\n",
        b"<!-- reqtrace:off -->\n",
    ]);
    let at = if rng.pm(if piece[0] == 0xef { 800 } else { 400 }) { 0 } else { cut_at(rng, &b) };
    b.splice(at..at, piece.iter().copied());
    f.doc = Doc::Raw(Bytes(b));
    f.cut = None;
    f.smash.clear();
}

fn c03_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let (o, t) = cx.fresh(&s.project, &s.run);
    settled(&o)?;
    for (i, r) in s.runs.iter().enumerate() {
        let mut r = r.clone();
        r.jobs = s.run.jobs.clone();
        let (o2, t2) = cx.fresh(&s.project, &r);
        if o2.ending() != o.ending() {
            return violation(
                "exit",
                format!("undisturbed {}, run {i} {}: {}", o.ending(), o2.ending(), String::from_utf8_lossy(&o2.stderr)),
            );
        }
        if o2.stdout != o.stdout {
            return violation("stdout", format!("standard output of run {i} differs: {}", first_diff(&o.stdout, &o2.stdout)));
        }
        for d in dests(&s.project, &r) {
            if t.get(&d) != t2.get(&d) {
                let e = vec![];
                return violation(
                    "report",
                    format!(
                        "{d} of run {i} differs: {}",
                        first_diff(file(&t, &d).unwrap_or(&e), file(&t2, &d).unwrap_or(&e))
                    ),
                );
            }
        }
    }
    Ok(())
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |x: &[u8]| String::from_utf8_lossy(&x[n.saturating_sub(40).min(x.len())..(n + 60).min(x.len())]).into_owned();
    format!("at byte {n} of {}/{}: {:?} / {:?}", a.len(), b.len(), show(a), show(b))
}

// ---------------------------------------------------------------- C04

/// A short report, and each of its writes fails in turn
fn c04_sweep(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        big: 10,
        max_arts: 3,
        max_reqs: 3,
        large: 0,
        unique: rng.coin(),
        format_error: 300,
        missing: 100,
        cut: 60,
        wild: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    more_jobs(rng, &mut p, false);
    let job = if rng.coin() { (*rng.pick(&["tg", "s3"])).to_owned() } else { rng.pick(&p.jobs).name.clone() };
    let run = RunSpec {
        jobs: vec![job],
        log: Some("off".into()),
        ..RunSpec::default()
    };
    let mut s = Scenario::new("C04", p, run);
    let (o, _) = cx.fresh(&s.project, &s.run);
    let d = dests(&s.project, &s.run);
    let mut writes: Vec<&Step> = o.steps.iter().filter(|x| x.kind == "write" && is_output_step(&d, x)).collect();
    // leave out pieces in the middle of the longest reports
    while writes.len() > 120 {
        let k = rng.below(writes.len());
        writes.remove(k);
    }
    for x in writes {
        let mut r = s.run.clone();
        r.faults = vec![Fault {
            kind: x.kind.clone(),
            path: x.path.clone(),
            nth: x.nth,
            action: if rng.pm(100) { 'z' } else { 'e' },
            arg: i64::from(output_errno(rng, "write")),
            persist: rng.pm(100),
        }];
        s.runs.push(r);
    }
    s
}

fn c04_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    if rng.pm(40) {
        return c04_sweep(rng, cx);
    }
    let pf = Profile {
        big: 150,
        max_arts: 3,
        ..Profile::default()
    };
    let mut p = if rng.pm(400) {
        gen(
            rng,
            &Profile {
                clean: true,
                ..pf.clone()
            },
        )
    } else {
        gen(rng, &pf)
    };
    more_jobs(rng, &mut p, false);
    for j in p.jobs.iter_mut() {
        if rng.pm(200) {
            j.set_rc = Some(rng.coin());
        }
    }
    let mut jobs: Vec<String> = vec![];
    for _ in 0..rng.range(1, 4) {
        let n = rng.pick(&p.jobs).name.clone();
        if !jobs.contains(&n) {
            jobs.push(n);
        }
    }
    let mut run = RunSpec {
        jobs,
        knobs: knobs(rng),
        log: Some("off".into()),
        ..RunSpec::default()
    };
    if rng.pm(200) {
        p.default_jobs = Some(run.jobs.clone());
        run.jobs.clear();
    }
    let mut s = Scenario::new("C04", p, run);
    if rng.pm(150) {
        s.ops = obstacles(rng, &s.project, &s.run);
    }
    if rng.pm(850) {
        let (o, _) = cx.fresh(&s.project, &s.run);
        let n = *rng.pick(&[1, 1, 1, 2, 3]);
        s.run.faults = output_faults_at(rng, &s.project, &s.run, &o, n);
    }
    s
}

fn with_ops(s: &Scenario, run: &RunSpec, cx: &mut Cx) -> (Outcome, Tree) {
    let t = s.project.tree(&cx.root());
    cx.w.reset(&t);
    let mut p = s.project.clone();
    for o in &s.ops {
        apply(&mut p, o, cx);
    }
    let o = cx.launch(&p, run);
    let t = cx.w.snapshot();
    (o, t)
}

fn c04_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let quiet = RunSpec {
        jobs: s.run.jobs.clone(),
        log: s.run.log.clone(),
        ..RunSpec::default()
    };
    let (o0, t0) = cx.fresh(p, &quiet);
    settled(&o0)?;
    c04_one(s, &s.run, &o0, &t0, cx)?;
    for r in &s.runs {
        let mut r = r.clone();
        r.jobs = s.run.jobs.clone();
        c04_one(s, &r, &o0, &t0, cx)?;
    }
    Ok(())
}

fn c04_one(s: &Scenario, run: &RunSpec, o0: &Outcome, t0: &Tree, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let (o, t) = with_ops(s, run, cx);
    let fired = o.steps.iter().any(|x| matches!(x.tag, 'e' | 'z')) || dests(p, &s.run).iter().any(|d| blocked(&s.ops, d));
    match o.code {
        Some(c @ (0 | 1)) if !o.hung => {
            if o.code != o0.code {
                return violation("exit", format!("exit {c}, undisturbed {}", o0.ending()));
            }
            for d in dests(p, &s.run) {
                if t.get(&d) != t0.get(&d) || !t.contains_key(&d) {
                    let e = vec![];
                    return violation(
                        "lost output",
                        format!(
                            "exit {c}, but {d} is not complete: {}",
                            first_diff(file(&t0, &d).unwrap_or(&e), file(&t, &d).unwrap_or(&e))
                        ),
                    );
                }
            }
            if o.stdout != o0.stdout {
                return violation(
                    "lost output",
                    format!("exit {c}, but standard output is not complete: {}", first_diff(&o0.stdout, &o.stdout)),
                );
            }
            Ok(())
        }
        Some(2) if !o.hung => {
            if !fired {
                return violation("exit", format!("exit 2 without any failure: {}", String::from_utf8_lossy(&o.stderr)));
            }
            cx.w.probe("output failed, exit 2");
            if o.stderr.iter().all(u8::is_ascii_whitespace) {
                return violation("no explanation", "exit 2, standard error is empty");
            }
            Ok(())
        }
        _ => violation(
            "exit",
            format!("{} instead of 2: {}", o.ending(), String::from_utf8_lossy(&o.stderr)),
        ),
    }
}

// ---------------------------------------------------------------- C05

fn c05_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let clean = rng.coin();
    let pf = Profile {
        max_arts: 3,
        clean,
        big: 30,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    let shared = rng.coin();
    more_jobs(rng, &mut p, shared);
    if rng.pm(250) {
        // a pair that does not exist
        let (q, f) = *rng.pick(&[("Trace", "Tags"), ("Parse", "GnuError"), ("Trace", "{ TemplateString = \"x\" }")]);
        p.jobs.push(JobSpec {
            name: "no".into(),
            query: q.into(),
            format: f.into(),
            file: (*rng.pick(&["out/no.txt", "-"])).into(),
            set_rc: None,
        });
    }
    for j in p.jobs.iter_mut() {
        if rng.pm(200) {
            j.set_rc = Some(rng.coin());
        }
    }
    let mut run = RunSpec {
        jobs: job_list(rng, &p, 7),
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    if rng.pm(250) {
        p.default_jobs = Some(run.jobs.clone());
        run.jobs.clear();
    } else if rng.pm(300) {
        // not to be confused with these
        p.default_jobs = Some(job_list(rng, &p, 3));
    }
    let mut s = Scenario::new("C05", p, run);
    if rng.pm(250) {
        s.ops = obstacles(rng, &s.project, &s.run);
    }
    if rng.pm(700) {
        let (o, _) = cx.fresh(&s.project, &s.run);
        let n = *rng.pick(&[1, 1, 2, 3]);
        s.run.faults = output_faults_at(rng, &s.project, &s.run, &o, n);
    }
    s
}

fn c05_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let list = jobs_of(p, &s.run);
    if list.is_empty() {
        return Ok(());
    }
    // each on its own
    let mut alone: BTreeMap<String, (Option<i32>, Vec<u8>)> = BTreeMap::new();
    for n in &list {
        if alone.contains_key(n) {
            continue;
        }
        let Some(j) = p.job(n) else { return Ok(()) };
        let r = RunSpec {
            jobs: vec![n.clone()],
            log: Some("off".into()),
            ..RunSpec::default()
        };
        let (o, t) = cx.fresh(p, &r);
        let content = match p.dest(j) {
            Some(d) => file(&t, &d).unwrap_or(b"").to_vec(),
            None => o.stdout.clone(),
        };
        if !matches!(o.code, Some(0..=2)) || (o.code == Some(2)) != (n == "no") {
            return violation("alone", format!("{n} alone: {}", o.ending()));
        }
        alone.insert(n.clone(), (o.code, content));
    }
    let (o, t) = with_ops(s, &s.run, cx);
    let hit = |d: &str| {
        o.steps.iter().any(|x| {
            matches!(x.tag, 'e' | 'z')
                && (x.path == d || d.starts_with(&format!("{}/", x.path)) || (x.path.contains('/') && x.path.rsplit_once('/').map(|q| q.0) == d.rsplit_once('/').map(|q| q.0) && p.jobs.iter().all(|j| p.dest(j).as_deref() != Some(&x.path))))
        })
    };
    // the last one to a file decides
    let mut want: BTreeMap<String, &str> = BTreeMap::new();
    let mut stdout: Vec<u8> = vec![];
    for n in &list {
        let j = p.job(n).unwrap();
        match p.dest(j) {
            Some(d) => {
                want.insert(d, n);
            }
            None => stdout.extend(&alone[n].1),
        }
    }
    let mut failed = list.iter().any(|n| n == "no");
    for (d, n) in &want {
        let free = !hit(d) && !blocked(&s.ops, d);
        let complete = file(&t, d) == Some(&alone[*n].1[..]);
        if free && !complete && *n != "no" {
            let e = vec![];
            return violation(
                "other job",
                format!(
                    "jobs {list:?}: nothing happened to {d}, but it is not the report of {n}: {}",
                    first_diff(&alone[*n].1, file(&t, d).unwrap_or(&e))
                ),
            );
        }
        if !complete {
            failed = true;
        }
    }
    if list.iter().filter_map(|n| p.job(n).unwrap().file.eq("-").then_some(())).count() > 0 {
        if !hit("<stdout>") {
            if o.stdout != stdout {
                return violation(
                    "stdout",
                    format!("jobs {list:?}: standard output is not theirs in order: {}", first_diff(&stdout, &o.stdout)),
                );
            }
        } else if o.stdout != stdout {
            failed = true;
        }
    }
    // a job to a shared destination may have failed without a trace
    let maybe = o.steps.iter().any(|x| matches!(x.tag, 'e' | 'z'));
    let any = list
        .iter()
        .any(|n| alone[n].0 == Some(1));
    let code = if failed { 2 } else { i32::from(any) };
    if o.code != Some(code) && !(maybe && o.code == Some(2)) {
        return violation(
            "exit",
            format!("jobs {list:?}: {}, expected {code}: {}", o.ending(), String::from_utf8_lossy(&o.stderr)),
        );
    }
    if failed {
        cx.w.probe("a job failed");
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let mode = rng.below(4);
    let count = mode == 0 && rng.pm(100);
    let pf = Profile {
        clean: mode < 2,
        max_arts: if count { 2 } else { Profile::default().max_arts },
        cut: if mode == 3 { 60 } else { 0 },
        missing: if mode == 3 { 40 } else { 0 },
        unique: mode < 2 || rng.pm(800),
        with_title: 300,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    if mode == 1 && !p.arts.is_empty() {
        // one thing wrong
        let a = rng.below(p.arts.len());
        if !p.arts[a].files.is_empty() {
            let f = rng.below(p.arts[a].files.len());
            p.arts[a].files[f] = edited(rng, &p.arts[a].files[f].clone(), true);
        }
    }
    if count {
        // so many problems, all of one kind
        let n = *rng.pick(&[1, 100, 101, 127, 128, 255, 256, 256, 257, 512]);
        let text = if rng.coin() {
            (0..n).map(|i| format!("# MANY{i}: Title\n\nCovers: NOTHERE{i}\n\n")).collect()
        } else {
            "# MANY1: Title\n\n".repeat(n + 1)
        };
        let files = vec![FileSpec::new("many.md", Doc::Raw(Bytes(text.into_bytes())))];
        p.arts.push(Art {
            id: "many".into(),
            parser: Parser::Markdown,
            paths: vec!["many.md".into()],
            ignore_derived: Some(true),
            with_title: None,
            files,
        });
    }
    more_jobs(rng, &mut p, false);
    for j in p.jobs.iter_mut() {
        j.set_rc = *rng.pick(&[None, None, Some(true), Some(false)]);
    }
    for (n, q) in [("ot", "Trace"), ("op", "Parse")] {
        p.jobs.push(JobSpec {
            name: n.into(),
            query: q.into(),
            format: "Json".into(),
            file: format!("observe/{n}.json"),
            set_rc: Some(false),
        });
    }
    let mut jobs: Vec<String> = vec![];
    for _ in 0..rng.range(0, 3) {
        let j = if rng.pm(600) { (*rng.pick(&STD)).to_owned() } else { rng.pick(&p.jobs).name.clone() };
        jobs.push(j);
    }
    jobs.insert(rng.below(jobs.len() + 1), "ot".into());
    jobs.insert(rng.below(jobs.len() + 1), "op".into());
    let mut run = RunSpec {
        jobs,
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    if rng.pm(300) {
        let (o, _) = cx.fresh(&p, &run);
        let n = rng.range(1, 2);
        run.faults = if rng.coin() {
            input_faults_at(rng, &p, &o, n, true)
        } else {
            output_faults_at(rng, &p, &run, &o, n)
        };
        if rng.pm(200) {
            run.faults.extend(input_faults_at(rng, &p, &o, 1, true));
        }
    }
    if rng.pm(150) {
        p.default_jobs = Some(run.jobs.clone());
        run.jobs.clear();
    }
    Scenario::new("C07", p, run)
}

fn c07_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let list = jobs_of(p, &s.run);
    let (o, t) = cx.fresh(p, &s.run);
    let d = dests(p, &s.run);
    let out_fault = o.steps.iter().any(|x| matches!(x.tag, 'e' | 'z') && is_output_step(&d, x));
    if out_fault && o.code == Some(2) {
        // whether anything was lost is decided elsewhere
        cx.w.probe("output failed, exit 2");
        return Ok(());
    }
    settled(&o)?;
    if !list.iter().any(|j| j == "ot") || !list.iter().any(|j| j == "op") {
        return Ok(());
    }
    let tj = trace_report(p, &t, "ot")?;
    let (tp, pp) = tj.problems();
    let pj = parse_report(p, &t, "op")?;
    if pj.errs.is_empty() == pp {
        return violation("observers", "Parse and Trace reports differ in input errors");
    }
    let mut want = 0;
    for n in &list {
        let Some(j) = p.job(n) else { return Ok(()) };
        if j.set_rc.unwrap_or(true) && if j.query == "Trace" { tp } else { pp } {
            want = 1;
        }
    }
    if o.code != Some(want) {
        return violation(
            "exit",
            format!("{}, expected {want}: jobs {list:?}, problems in trace {tp}, in inputs {pp}", o.ending()),
        );
    }
    // and against what the inputs say
    let disturbed = o.steps.iter().any(|x| matches!(x.tag, 'e' | 'z'));
    if !disturbed && p.unique_ids(&cx.g) && !p.files().any(|(_, f)| !f.smash.is_empty()) {
        let root = cx.root();
        let mut arts = BTreeMap::new();
        let mut errors = false;
        for a in &p.arts {
            let mut reqs = vec![];
            for f in &a.files {
                if f.missing && !a.paths.contains(&f.path) {
                    continue;
                }
                let x = f.parse(&cx.g, a.parser, &p.shown(&f.path, &root));
                if x.damaged {
                    errors = true;
                }
                errors |= !x.errs.is_empty();
                reqs.extend(x.reqs);
            }
            let with_title = a.with_title.unwrap_or(false);
            errors |= with_title && reqs.iter().any(|r| r.title.is_none());
            arts.insert(
                a.id.clone(),
                ArtIn {
                    reqs,
                    ignore_derived: p.ignores_derived(a),
                    with_title,
                },
            );
        }
        let m = trace(&arts, &p.rels);
        let tproblem = errors
            || !m.errors.is_empty()
            || !m.unknown.is_empty()
            || m.relations.iter().any(|r| !r.2.is_empty())
            || m.derived.values().any(|d| !d.is_empty());
        cx.w.probe(if tproblem { "project with problems" } else { "project without problems" });
        if tproblem != tp || errors != pp {
            return violation(
                "verdict",
                format!("problems in trace {tp}, in inputs {pp}; by the inputs {tproblem}, {errors}; {:?} {:?}", m.errors, m.unknown),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        cut: 50,
        missing: 50,
        unique: rng.coin(),
        unknown_ref: if rng.pm(50) { 700 } else { Profile::default().unknown_ref },
        large: 30,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    let shared = rng.pm(200);
    more_jobs(rng, &mut p, shared);
    // what might be taken for backups, locks or temporary files
    let dirs = [p.base.clone(), format!("{}/out", p.base), "reports".to_owned(), "abs".to_owned()];
    for n in ["trace.json.tmp", "tags~", "requirements.toml.bak", "trace.markdown.old", "requirements.toml.lock", ".reqtrace", "tmp"] {
        if rng.pm(300) {
            p.decoys.insert(format!("{}/{n}", rng.pick(&dirs)), format!("decoy {n}"));
        }
    }
    // what a job that writes to standard output might be taken for
    for d in [p.base.clone(), p.cwd()] {
        if rng.pm(300) {
            for n in ["-", "stdout"] {
                let d = if d.is_empty() { n.to_owned() } else { format!("{d}/{n}") };
                p.decoys.insert(d, format!("decoy {n}"));
            }
        }
    }
    // earlier reports of jobs that are not requested
    let jobs = job_list(rng, &p, 4);
    for j in p.jobs.clone() {
        if rng.pm(400) {
            if let Some(d) = p.dest(&j) {
                p.decoys.insert(d, format!("earlier report {}", "x".repeat(rng.below(3000))));
            }
        }
    }
    let mut run = RunSpec {
        jobs,
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    if rng.pm(100) {
        run.jobs.push("unknown".into());
    }
    let (o, _) = cx.fresh(&p, &run);
    match rng.below(4) {
        0 | 1 => {
            if !o.steps.is_empty() {
                let st = rng.pick(&o.steps);
                if st.kind != "edit" {
                    run.faults.push(Fault {
                        kind: st.kind.clone(),
                        path: st.path.clone(),
                        nth: st.nth,
                        action: 'k',
                        arg: rng.below(st.ret.max(1) as usize) as i64,
                        persist: false,
                    });
                }
            }
        }
        2 => {
            let n = rng.range(1, 3);
            run.faults = output_faults_at(rng, &p, &run, &o, n);
            run.faults.extend(input_faults_at(rng, &p, &o, 1, true));
        }
        _ => {}
    }
    let mut s = Scenario::new("C10", p, run);
    if rng.pm(250) {
        s.ops = obstacles(rng, &s.project, &s.run);
    }
    s
}

fn c10_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let before = p.tree(&cx.root());
    cx.w.reset(&before);
    let mut q = p.clone();
    for o in &s.ops {
        apply(&mut q, o, cx);
    }
    let before = cx.w.snapshot();
    let modes = cx.w.modes();
    let o = cx.launch(p, &s.run);
    let after = cx.w.snapshot();
    let modes2 = cx.w.modes();
    let d = dests(p, &s.run);
    for st in &o.steps {
        if st.kind == "ESCAPE" {
            return violation("outside", format!("tried to change {}", st.path));
        }
        if matches!(st.kind.as_str(), "create" | "trunc" | "unlink" | "rename" | "other")
            && st.ret >= 0
            && !st.path.starts_with('<')
            && before.contains_key(&st.path)
            && !d.contains(&st.path)
        {
            return violation("touched", format!("{} of {}, which is no requested report", st.kind, st.path));
        }
    }
    for (path, n) in &before {
        if d.contains(path) {
            continue;
        }
        if after.get(path) != Some(n) {
            return violation("changed", format!("{path} was {n:?} and is {:?}", after.get(path)));
        }
        if modes.get(path) != modes2.get(path) {
            return violation("changed", format!("mode of {path}"));
        }
    }
    if o.killed {
        cx.w.probe("killed");
        return Ok(());
    }
    for path in after.keys() {
        if before.contains_key(path) || d.contains(path) {
            continue;
        }
        if d.iter().any(|x| x.starts_with(&format!("{path}/"))) && after[path] == Node::Dir {
            continue;
        }
        return violation("new", format!("{path} is new and no requested report"));
    }
    Ok(())
}
