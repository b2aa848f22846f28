//! Runs that overlap in time.

use super::history::bad_run;
use super::outputs::{dests, first_diff, job_list, jobs_of, more_jobs, output_errno};
use super::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        quick: 3500,
        gen: c22_gen,
        judge: c22_judge,
        rule: "A case is a generated project and two to four runs of it with their own job lists, whose calls are interleaved by up to four seeded schedules, one after the other on fresh disks (a turn may change at every call, rarely, or almost never, or only where the disk is changed); in half of the cases one of the runs is killed or meets failing calls at an arbitrary point.",
        assumptions: &[
            "The runs share the disk and nothing else; one of them makes a call at a time, and calls are atomic, as on a local POSIX file system.",
            "Two runs write to the same destination only if they run the same job and none of them is disturbed.",
        ],
    }]
}

fn c22_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        clean: rng.coin(),
        big: 30,
        missing: 30,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    more_jobs(rng, &mut p, false);
    if rng.pm(600) {
        // directories that nobody has made yet
        for (i, (q, f)) in [("Trace", "Json"), ("Parse", "Tags"), ("Parse", "Markdown"), ("Trace", "GnuError")].iter().enumerate() {
            p.jobs.push(JobSpec {
                name: format!("n{i}"),
                query: (*q).into(),
                format: (*f).into(),
                file: format!("new/{}/n{i}", rng.pick(&["a/b", "a/b", "a/c", "d"])),
                set_rc: None,
            });
        }
    }
    for j in p.jobs.iter_mut() {
        if rng.pm(200) {
            j.set_rc = Some(rng.coin());
        }
    }
    let n = *rng.pick(&[2, 2, 2, 3, 4]);
    let fresh_dirs: Vec<String> = p.jobs.iter().filter(|j| j.name.starts_with('n')).map(|j| j.name.clone()).collect();
    let mut runs: Vec<RunSpec> = (0..n)
        .map(|_| RunSpec {
            jobs: if !fresh_dirs.is_empty() && rng.coin() {
                vec![rng.pick(&fresh_dirs).clone()]
            } else {
                job_list(rng, &p, 4)
            },
            knobs: knobs(rng),
            log: log_level(rng),
            ..RunSpec::default()
        })
        .collect();
    if !fresh_dirs.is_empty() && rng.pm(200) {
        // it fails at once, where another is about to begin
        for r in runs.iter_mut() {
            r.jobs = vec![rng.pick(&fresh_dirs).clone()];
        }
        let v = rng.below(n);
        let d = dests(&p, &runs[v]).into_iter().next().unwrap_or_default();
        let kind = *rng.pick(&["write", "write", "create"]);
        runs[v].faults.push(Fault {
            kind: kind.into(),
            path: d,
            nth: 1,
            action: 'e',
            arg: i64::from(output_errno(rng, kind)),
            persist: true,
        });
    } else if rng.coin() {
        let v = rng.below(n);
        let jobs = runs[v].jobs.clone();
        let bad = bad_run(rng, cx, &p, jobs);
        if !bad.faults.is_empty() {
            runs[v] = bad;
        }
    }
    disjoint(&p, &mut runs);
    let mut s = Scenario::new("C22", p, runs.remove(0));
    s.runs = runs;
    let schedules: Vec<String> = (0..4)
        .map(|_| {
            Turns {
                seed: rng.next(),
                stay: *rng.pick(&[0, 500, 900, 900, 990, 2000, 2500, 2500]),
                from: 0,
                to: u32::MAX,
            }
            .to_string()
        })
        .collect();
    s.extra.insert("turns".into(), schedules.join(";"));
    s
}

/// nobody but a disturbed run writes where it writes
fn disjoint(p: &Project, runs: &mut [RunSpec]) {
    let taken: BTreeSet<String> = runs.iter().filter(|r| !r.faults.is_empty()).flat_map(|r| dests(p, r)).collect();
    for r in runs.iter_mut().filter(|r| r.faults.is_empty()) {
        r.jobs.retain(|n| p.job(n).and_then(|j| p.dest(j)).map_or(true, |d| !taken.contains(&d)));
        if r.jobs.is_empty() {
            r.jobs.push("s1".into());
        }
    }
}

fn c22_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let specs: Vec<&RunSpec> = std::iter::once(&s.run).chain(s.runs.iter()).collect();
    if specs.iter().any(|r| jobs_of(p, r).iter().any(|j| p.job(j).is_none())) {
        return Ok(());
    }
    let disturbed: BTreeSet<String> = specs.iter().filter(|r| !r.faults.is_empty()).flat_map(|r| dests(p, r)).collect();
    let calm: Vec<bool> = specs.iter().map(|r| r.faults.is_empty()).collect();
    if specs.iter().zip(&calm).any(|(r, c)| *c && dests(p, r).iter().any(|d| disturbed.contains(d))) {
        return Ok(());
    }
    // each run that nothing happens to, alone
    let mut alone: Vec<Option<(Outcome, Tree)>> = vec![];
    for (r, c) in specs.iter().zip(&calm) {
        alone.push(if *c {
            let r = RunSpec {
                knobs: Knobs::default(),
                ..(*r).clone()
            };
            let (o, t) = cx.fresh(p, &r);
            if !matches!(o.code, Some(0..=2)) {
                return violation("alone", format!("{:?} alone: {}", r.jobs, o.ending()));
            }
            Some((o, t))
        } else {
            None
        });
    }
    let before = p.tree(&cx.root());
    for schedule in s.extra.get("turns").map_or("", String::as_str).split(';') {
        let Some(turns) = Turns::parse(schedule) else { continue };
        cx.w.reset(&before);
        let start = cx.w.snapshot();
        let os = cx.launch_many(p, &specs, turns);
        let t = cx.w.snapshot();
        if os.iter().any(|o| o.steps.iter().any(|x| x.kind == "turn")) {
            cx.w.probe("turns between runs taken");
        }
        let mut want = start;
        for (i, a) in alone.iter().enumerate() {
            let Some((ao, at)) = a else { continue };
            let o = &os[i];
            let what = format!("run {} ({:?}) of {} at once", i + 1, specs[i].jobs, specs.len());
            if o.hung || o.signal.is_some() || o.code != ao.code {
                return violation(
                    "status",
                    format!("{what}: {}, alone {}; stderr: {}", o.ending(), ao.ending(), String::from_utf8_lossy(&o.stderr)),
                );
            }
            if o.stdout != ao.stdout {
                return violation("stdout", format!("{what}: {}", first_diff(&ao.stdout, &o.stdout)));
            }
            for d in dests(p, specs[i]) {
                let (x, y) = (file(at, &d), file(&t, &d));
                if x != y {
                    return violation(
                        "report",
                        format!("{what}: {d}: {}", match (x, y) {
                            (Some(x), Some(y)) => first_diff(x, y),
                            (_, None) => "is not there".into(),
                            _ => "should not be there".into(),
                        }),
                    );
                }
            }
            for (k, n) in at {
                want.insert(k.clone(), n.clone());
            }
            cx.w.probe("overlapping run compared with the run alone");
        }
        if disturbed.is_empty() {
            if t != want {
                let x: Vec<&String> = t.keys().chain(want.keys()).filter(|k| t.get(*k) != want.get(*k)).collect();
                return violation("tree", format!("runs at once leave something else behind than one after the other: {x:?}"));
            }
        } else {
            // inputs and what belongs to nobody
            for (k, n) in &before {
                if !matches!(n, Node::Dir) && !disturbed.contains(k) && t.get(k) != want.get(k) {
                    return violation("tree", format!("{k} changed while a run was disturbed"));
                }
            }
            cx.w.probe("beside a killed or failing run");
        }
    }
    Ok(())
}
