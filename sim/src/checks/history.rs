//! C09, C11, C12, C13, C17: over time, and while others work on the files.

use super::inputs::{agree_all, unique};
use super::outputs::*;
use super::*;
use crate::reports::*;

const HIST: &[&str] = &[
    "faults are injected at the libc boundary; a killed run leaves what it had written so far, possibly with the last write torn",
    "generated projects use the documented formats, at most 4 artefacts",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C09",
            quick: 3500,
            gen: c09_gen,
            judge: c09_judge,
            rule: "A case is a history of up to eight edits, faulted runs, killed runs, torn or foreign outputs and changed time stamps, then an undisturbed run that is compared with one on a fresh disk.",
            assumptions: HIST,
        },
        Check {
            id: "C11",
            quick: 7000,
            gen: c11_gen,
            judge: c11_judge,
            rule: "A case is a run during which another party replaces or removes input files at up to four points, each just before an arbitrary system call of the run.",
            assumptions: &["inputs change by atomic replacement (rename) or removal", "faults are injected at the libc boundary"],
        },
        Check {
            id: "C12",
            quick: 5000,
            gen: c12_gen,
            judge: c12_judge,
            rule: "A case is a history of up to four edits of a generated project, each followed by a run with failing, cut or missing inputs, whose coverage verdicts are compared with a reference tracer.",
            assumptions: HIST,
        },
        Check {
            id: "C13",
            quick: 5000,
            gen: c13_gen,
            judge: c13_judge,
            rule: "A case is a history of up to four edits of a generated project rich in wrong titles and dangling references, each followed by a run with failing, cut or missing inputs, whose errors are compared with a reference tracer.",
            assumptions: HIST,
        },
        Check {
            id: "C17",
            quick: 3000,
            gen: c17_gen,
            judge: c17_judge,
            rule: "A case is a project exported (after killed or failed attempts), imported and exported again up to three times, with the exchanged file cut at an arbitrary byte in a third of the cases.",
            assumptions: HIST,
        },
    ]
}

// ---------------------------------------------------------------- C09

/// a run that may fail or be killed
pub fn bad_run(rng: &mut Rng, cx: &mut Cx, p: &Project, jobs: Vec<String>) -> RunSpec {
    let mut run = RunSpec {
        jobs,
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    let (o, _) = cx.fresh(p, &run);
    match rng.below(5) {
        0..=2 => {
            let d = dests(p, &run);
            let mut st: Vec<&Step> = o.steps.iter().filter(|s| d.contains(&s.path) || s.kind == "mkdir").collect();
            if st.is_empty() || rng.pm(200) {
                st = o.steps.iter().collect();
            }
            if !st.is_empty() {
                let x = *rng.pick(&st);
                run.faults.push(Fault {
                    kind: x.kind.clone(),
                    path: x.path.clone(),
                    nth: x.nth,
                    action: 'k',
                    arg: rng.below(x.ret.max(1) as usize) as i64,
                    persist: false,
                });
            }
        }
        3 => {
            let n = rng.range(1, 2);
            run.faults = output_faults_at(rng, p, &run, &o, n);
        }
        _ => {
            run.faults = input_faults_at(rng, p, &o, 1, true);
        }
    }
    run
}

fn c09_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        unique: rng.pm(700),
        missing: 20,
        cut: 20,
        big: 60,
        wild: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    let shared = rng.pm(200);
    more_jobs(rng, &mut p, shared);
    let jobs = job_list(rng, &p, 4);
    let run = RunSpec {
        jobs,
        knobs: Knobs {
            seed: rng.next(),
            ..Knobs::default()
        },
        log: log_level(rng),
        ..RunSpec::default()
    };
    let mut s = Scenario::new("C09", p.clone(), run);
    let d: Vec<String> = dests(&p, &s.run).into_iter().collect();
    for _ in 0..rng.range(1, 8) {
        match rng.below(10) {
            0..=4 => {
                let jobs = if rng.pm(800) { s.run.jobs.clone() } else { job_list(rng, &p, 3) };
                let r = if rng.pm(700) {
                    bad_run(rng, cx, &p, jobs)
                } else {
                    RunSpec {
                        jobs,
                        ..std_run(rng)
                    }
                };
                s.ops.push(Op::Run(r));
            }
            5 | 6 => {
                let a = rng.below(p.arts.len());
                if p.arts[a].files.is_empty() {
                    continue;
                }
                let f = rng.below(p.arts[a].files.len());
                let mut spec = edited(rng, &p.arts[a].files[f], true);
                if rng.pm(100) {
                    spec.missing = true;
                }
                p.arts[a].files[f] = spec.clone();
                s.ops.push(Op::Edit { art: a, file: f, spec });
            }
            _ if d.is_empty() => {}
            7 => {
                let path = rng.pick(&d).clone();
                let content = match rng.below(3) {
                    0 => vec![b'z'; rng.range(1, 100_000)],
                    1 => vec![],
                    _ => b"{\"requirements\":[],\"errors\":[]}".to_vec(),
                };
                s.ops.push(Op::Put {
                    path,
                    content: Bytes(content),
                });
            }
            8 => {
                let path = rng.pick(&d).clone();
                s.ops.push(if rng.coin() {
                    Op::Tear {
                        path,
                        keep: rng.below(1000) as u32,
                        zeros: rng.coin(),
                    }
                } else {
                    Op::Remove { path }
                });
            }
            _ => {
                let mut all = d.clone();
                all.extend(p.files().map(|(_, f)| p.on_disk(&f.path)));
                s.ops.push(Op::Touch {
                    path: rng.pick(&all).clone(),
                    time: *rng.pick(&[0, 1, 1_700_000_000, 4_000_000_000, 2_000_000_000]),
                });
            }
        }
    }
    s
}

fn c09_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let mut p = s.project.clone();
    let t = p.tree(&cx.root());
    cx.w.reset(&t);
    for op in &s.ops {
        if let Op::Run(r) = op {
            let o = cx.launch(&p, r);
            if o.killed {
                cx.w.probe("killed");
            }
        } else {
            apply(&mut p, op, cx);
        }
    }
    let o = cx.launch(&p, &s.run);
    let t = cx.w.snapshot();
    let (o0, t0) = cx.fresh(&p, &s.run);
    settled(&o0)?;
    if o.ending() != o0.ending() {
        return violation(
            "exit",
            format!("{} after the history, {} on a fresh disk: {}", o.ending(), o0.ending(), String::from_utf8_lossy(&o.stderr)),
        );
    }
    if o.stdout != o0.stdout {
        return violation("stdout", first_diff(&o0.stdout, &o.stdout));
    }
    for d in dests(&p, &s.run) {
        if t.get(&d) != t0.get(&d) {
            let e = vec![];
            return violation(
                "report",
                format!(
                    "{d} differs from that of a fresh disk: {}",
                    first_diff(file(&t0, &d).unwrap_or(&e), file(&t, &d).unwrap_or(&e))
                ),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 4,
        format_error: 20,
        big: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    p.jobs.push(JobSpec {
        name: "tj2".into(),
        query: "Trace".into(),
        format: "Json".into(),
        file: "out/second.json".into(),
        set_rc: Some(false),
    });
    let mut jobs = std_names();
    rng.shuffle(&mut jobs);
    jobs.push("tj2".into());
    let mut run = RunSpec {
        jobs,
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    let (o, _) = cx.fresh(&p, &run);
    let files: Vec<(Art, FileSpec)> = p.files().map(|(a, f)| (a.clone(), f.clone())).collect();
    if !files.is_empty() && !o.steps.is_empty() {
        for _ in 0..rng.range(1, 4) {
            let (_, f) = rng.pick(&files);
            let dst = p.on_disk(&f.path);
            // near the reading of that file, or anywhere
            let own: Vec<usize> = (0..o.steps.len()).filter(|i| o.steps[*i].path == dst).collect();
            let ops: Vec<usize> = (0..o.steps.len())
                .filter(|i| matches!(o.steps[*i].kind.as_str(), "create" | "mkdir" | "open" | "opendir"))
                .collect();
            let i = if !own.is_empty() && rng.pm(400) {
                *rng.pick(&own)
            } else if !ops.is_empty() && rng.coin() {
                *rng.pick(&ops)
            } else {
                rng.below(o.steps.len())
            };
            let st = &o.steps[i];
            let mut spec = edited(rng, f, false);
            let op = if rng.pm(200) {
                spec.missing = true;
                'u'
            } else {
                'r'
            };
            if String::from_utf8(spec.bytes()).is_err() {
                continue;
            }
            run.edits.push(EditAt {
                kind: st.kind.clone(),
                path: st.path.clone(),
                nth: st.nth,
                op,
                dst,
                content: serde_json::to_string(&spec).unwrap(),
            });
        }
    }
    Scenario::new("C11", p, run)
}

fn c11_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let mut run = s.run.clone();
    let mut versions: BTreeMap<String, Vec<FileSpec>> = BTreeMap::new();
    for (_, f) in p.files() {
        versions.insert(p.on_disk(&f.path), vec![f.clone()]);
    }
    for e in run.edits.iter_mut() {
        let Ok(spec) = serde_json::from_str::<FileSpec>(&e.content) else {
            return Ok(());
        };
        e.content = String::from_utf8_lossy(&spec.bytes()).into_owned();
        if let Some(v) = versions.get_mut(&e.dst) {
            v.push(spec);
        }
    }
    // all versions use different ids from file to file
    let mut owner: BTreeMap<String, &String> = BTreeMap::new();
    for (path, v) in &versions {
        for f in v {
            let Some((a, _)) = p.input(path) else { return Ok(()) };
            for r in f.parse(&cx.g, a.parser, path).reqs {
                if *owner.entry(r.id).or_insert(path) != path {
                    return Ok(());
                }
            }
        }
    }
    let (o, t) = cx.fresh(p, &run);
    settled(&o)?;
    let fired: BTreeSet<&str> = o.steps.iter().filter(|x| x.kind == "edit").map(|x| x.path.as_str()).collect();
    let first_out = o.steps.iter().position(|x| x.kind == "create").unwrap_or(o.steps.len());
    for (i, x) in o.steps.iter().enumerate() {
        if x.kind == "edit" {
            cx.w.probe(if i < first_out { "edit while reading" } else { "edit while reporting" });
        }
    }
    let r = read_reports(p, &t)?;
    let root = cx.root();
    for a in &p.arts {
        let Some(rep) = r.tj.arts.get(&a.id) else {
            return violation("artefacts", format!("{} is missing", a.id));
        };
        let single = a.files.len() == 1;
        let mut claimed = 0;
        for f in &a.files {
            let disk = p.on_disk(&f.path);
            let shown = p.shown(&f.path, &root);
            let pattern = a.parser == Parser::Rust && a.paths.iter().any(|x| is_pattern(x));
            let mut got: Vec<Req> = rep
                .reqs
                .iter()
                .filter(|x| single || x.location.file == shown)
                .cloned()
                .collect();
            got.sort();
            claimed += got.len();
            let mut errs: Vec<Err> = rep.errs.iter().filter(|e| e.path() == Some(&shown)).cloned().collect();
            errs.sort();
            let n = if fired.contains(disk.as_str()) { versions[&disk].len() } else { 1 };
            let ok = versions[&disk][..n].iter().any(|v| {
                let mut e = v.parse(&cx.g, a.parser, &shown);
                if v.missing {
                    return got.is_empty() && (errs == e.errs || (pattern && errs.is_empty()));
                }
                e.reqs = e.reqs.into_iter().map(Req::normed).collect();
                e.reqs.sort();
                e.errs.sort();
                e.reqs == got && e.errs == errs
            });
            if !ok {
                return violation("version", format!("{shown}: {got:?} {errs:?} is none of its {n} versions"));
            }
        }
        if claimed != rep.reqs.len() {
            return violation("version", format!("{} has requirements of no file", a.id));
        }
    }
    if report_bytes(p, &t, "tj")? != report_bytes(p, &t, "tj2")? {
        return violation("versions differ", "two JSON traces of one run differ");
    }
    agree_all(&r).or_else(|e| violation("versions differ", e))?;
    coverage_exact(&r.tj).or_else(|e| violation("versions differ", e))?;
    references_exact(&r.tj).or_else(|e| violation("versions differ", e))?;
    let (tp, pp) = r.tj.problems();
    let mut want = 0;
    for j in s.run.jobs.iter().filter_map(|n| p.job(n)) {
        if j.set_rc.unwrap_or(true) && if j.query == "Trace" { tp } else { pp } {
            want = 1;
        }
    }
    if o.code != Some(want) {
        return violation("exit", format!("{}, the reports say {want}", o.ending()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12, C13

fn history(rng: &mut Rng, cx: &mut Cx, id: &str, pf: &Profile) -> Scenario {
    let mut p = gen(rng, pf);
    // relations are what this is about
    if rng.pm(300) && p.arts.len() > 1 {
        let mut ids: Vec<String> = p.arts.iter().map(|a| a.id.clone()).collect();
        rng.shuffle(&mut ids);
        let n = rng.range(1, ids.len() - 1);
        let mut lower = ids[1..=n].to_vec();
        if rng.pm(150) {
            lower.push(ids[0].clone());
        }
        p.rels.push(Rel {
            upper: ids[0].clone(),
            lower,
        });
    }
    let mut s = Scenario::new(id, p.clone(), RunSpec::default());
    for k in 0..rng.range(1, 4) {
        if k > 0 {
            for _ in 0..rng.range(1, 2) {
                let a = rng.below(p.arts.len());
                if p.arts[a].files.is_empty() {
                    continue;
                }
                let f = rng.below(p.arts[a].files.len());
                let spec = edited(rng, &p.arts[a].files[f], true);
                p.arts[a].files[f] = spec.clone();
                s.ops.push(Op::Edit { art: a, file: f, spec });
            }
        }
        let mut r = std_run(rng);
        if rng.pm(450) {
            let n = rng.range(1, 2);
            r.faults = input_faults(rng, cx, &p, &r, n, true);
        }
        s.ops.push(Op::Run(r));
    }
    s
}

fn c12_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 5,
        max_reqs: 6,
        missing: 30,
        cut: 40,
        covered: *rng.pick(&[300, 700, 950]),
        clean: rng.pm(150),
        wrong_title: 40,
        big: 10,
        format_error: 20,
        wild: 60,
        ..Profile::default()
    };
    history(rng, cx, "C12", &pf)
}

fn c13_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 4,
        max_reqs: 6,
        missing: 30,
        cut: 40,
        wrong_title: *rng.pick(&[0, 200, 500]),
        unknown_ref: *rng.pick(&[0, 200, 500]),
        with_title: *rng.pick(&[0, 300, 800]),
        big: 10,
        format_error: 20,
        wild: 60,
        same_rel: 200,
        ..Profile::default()
    };
    history(rng, cx, "C13", &pf)
}

fn over_history(
    s: &Scenario,
    cx: &mut Cx,
    f: &dyn Fn(&Project, &Outcome, &Reports, &mut Cx) -> Result<(), Violation>,
) -> Result<(), Violation> {
    let mut p = s.project.clone();
    let t = p.tree(&cx.root());
    cx.w.reset(&t);
    for op in &s.ops {
        if let Op::Run(r) = op {
            let o = cx.launch(&p, r);
            settled(&o)?;
            let t = cx.w.snapshot();
            let r = read_reports(&p, &t)?;
            if !unique(&p, cx) {
                continue;
            }
            f(&p, &o, &r, cx)?;
        } else {
            apply(&mut p, op, cx);
        }
    }
    Ok(())
}

fn c12_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    over_history(s, cx, &|p, o, r, cx| {
        exact_graph(p, &r.tj)?;
        exact_inputs(p, cx, o, &r.tj)?;
        coverage_exact(&r.tj).or_else(|e| violation("coverage", e))?;
        // and in the other formats
        let md = trace_md(&r.tm).or_else(|e| violation("report", e))?;
        let gnu = trace_gnu(&r.tg).or_else(|e| violation("report", e))?;
        let unc: usize = r.tj.rels.iter().map(|x| x.2.len()).sum();
        let der: usize = r.tj.derived.values().map(Vec::len).sum();
        for (n, t) in [("Markdown", md), ("GNU", gnu)] {
            let u: usize = t.uncovered.values().map(Vec::len).sum();
            let d: usize = t.derived.values().map(Vec::len).sum();
            if u != unc || d != der {
                return violation("coverage", format!("{n}: {u} uncovered, {d} derived; JSON {unc}, {der}"));
            }
        }
        if unc > 0 {
            cx.w.probe("uncovered");
        }
        if der > 0 {
            cx.w.probe("derived");
        }
        if r.tj.rels.iter().any(|x| !x.1.is_empty()) {
            cx.w.probe("covered");
        }
        Ok(())
    })
}

fn c13_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    over_history(s, cx, &|p, o, r, cx| {
        exact_graph(p, &r.tj)?;
        exact_inputs(p, cx, o, &r.tj)?;
        references_exact(&r.tj).or_else(|e| violation("references", e))?;
        for e in &r.tj.errs {
            cx.w.probe(match e {
                Err::CoveredWithWrongTitle(..) => "covered with wrong title",
                Err::DependWithWrongTitle(..) => "depended with wrong title",
                Err::ReferencedWithoutTitle(..) => "referenced without title",
                Err::DependOnUnknown(..) => "depends on unknown",
                Err::CoversUnknown(..) => "covers unknown",
                Err::UnusedRelation(..) => "unused relation",
                _ => "other tracing error",
            });
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C17

fn c17_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 4,
        big: 60,
        with_title: 200,
        format_error: 30,
        wild: 200,
        ..Profile::default()
    };
    let p = gen(rng, &pf);
    let mut s = Scenario::new(
        "C17",
        p.clone(),
        RunSpec {
            jobs: vec!["tj".into(), "pj".into()],
            knobs: knobs(rng),
            log: log_level(rng),
            ..RunSpec::default()
        },
    );
    for _ in 0..rng.range(0, 2) {
        let r = bad_run(rng, cx, &p, s.run.jobs.clone());
        s.runs.push(r);
    }
    s.extra.insert("rounds".into(), rng.range(1, 3).to_string());
    if rng.pm(350) {
        s.extra.insert("cut".into(), rng.below(1000).to_string());
    }
    s
}

/// the same project with every artefact read from an exported list
fn imported(p: &Project, trace: &serde_json::Value) -> Option<Project> {
    let mut q = p.clone();
    for (i, a) in q.arts.iter_mut().enumerate() {
        let reqs = trace["trace"]["artefacts"][&a.id]["requirements"].as_object()?;
        let path = format!("exchange/list{i}.json");
        a.parser = Parser::Json;
        a.paths = vec![path.clone()];
        a.files = vec![FileSpec::new(&path, Doc::Json(reqs.values().cloned().collect(), u8::from(i % 2 == 0)))];
    }
    Some(q)
}

fn c17_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let mut p = s.project.clone();
    if !unique(&p, cx) {
        return Ok(());
    }
    // exports that were killed or failed, then one that is not disturbed much
    let t = p.tree(&cx.root());
    cx.w.reset(&t);
    for r in &s.runs {
        cx.launch(&p, r);
    }
    let o = cx.launch(&p, &s.run);
    settled(&o)?;
    let mut t = cx.w.snapshot();
    let rounds: usize = s.extra.get("rounds").and_then(|x| x.parse().ok()).unwrap_or(1);
    let first = trace_report(&p, &t, "tj")?;
    let first_p = parse_report(&p, &t, "pj")?;
    let raw_p: serde_json::Value =
        serde_json::from_slice(report_bytes(&p, &t, "pj")?).or_else(|e| violation("report", e.to_string()))?;
    for round in 1..=rounds {
        let raw: serde_json::Value =
            serde_json::from_slice(report_bytes(&p, &t, "tj")?).or_else(|e| violation("report", e.to_string()))?;
        let Some(q) = imported(&p, &raw) else {
            return violation("report", "no requirements in the export");
        };
        let mut run = s.run.clone();
        run.knobs.seed = run.knobs.seed.wrapping_add(round as u64);
        let (o2, t2) = cx.fresh(&q, &run);
        settled(&o2)?;
        let r = trace_report(&q, &t2, "tj")?;
        for (id, a) in &first.arts {
            let got = r.arts.get(id).map(|x| &x.reqs);
            if got != Some(&a.reqs) {
                return violation("import", format!("round {round}: {id} is {got:?}, exported {:?}", a.reqs));
            }
        }
        if r.input_errs().any(|e| !matches!(e, Err::RequirementWithoutTitle(_))) {
            return violation("import", format!("round {round}: {:?}", r.input_errs().collect::<Vec<_>>()));
        }
        let flat = |r: &TraceRep| -> (Vec<(Rel, Vec<Cov>, Vec<String>)>, BTreeMap<String, Vec<String>>, Vec<Err>) {
            let mut rels = r.rels.clone();
            for x in rels.iter_mut() {
                x.1.sort();
                x.2.sort();
            }
            let mut d = r.derived.clone();
            for x in d.values_mut() {
                x.sort();
            }
            let mut e = r.errs.clone();
            e.sort();
            (rels, d, e)
        };
        if flat(&r) != flat(&first) {
            return violation("trace", format!("round {round}: {:?}, before {:?}", flat(&r), flat(&first)));
        }
        p = q;
        t = t2;
    }
    // the list of the Parse export as one artefact
    let mut q = s.project.clone();
    q.rels.clear();
    let list = raw_p["requirements"].as_array().cloned().unwrap_or_default();
    q.arts = vec![Art {
        id: "all".into(),
        parser: Parser::Json,
        paths: vec!["exchange/all.json".into()],
        ignore_derived: None,
        with_title: None,
        files: vec![FileSpec::new("exchange/all.json", Doc::Json(list.clone(), 1))],
    }];
    if let Some(c) = s.extra.get("cut").and_then(|c| c.parse::<usize>().ok()) {
        let f = &mut q.arts[0].files[0];
        let l = f.whole().len();
        // anywhere, or behind a character that ends something
        let mut at = (l * c / 1000).min(l.saturating_sub(1));
        if c % 2 == 1 {
            let w = f.whole();
            at = (0..at).rev().find(|i| matches!(w[*i], b'}' | b']' | b',' | b'"' | b'\n' | b'{')).map_or(at, |i| i + 1);
        }
        f.cut = Some(at);
        cx.w.probe("exchanged file cut off");
    }
    let (o3, t3) = cx.fresh(&q, &s.run);
    settled(&o3)?;
    let r = parse_report(&q, &t3, "pj")?;
    if q.arts[0].files[0].cut.is_some() {
        let shown = q.shown("exchange/all.json", &cx.root());
        if !r.errs.iter().any(|e| e.path() == Some(&shown)) || o3.code != Some(1) {
            return violation("cut list", format!("{} {:?}", o3.ending(), r.errs));
        }
        if r.reqs.len() >= list.len() && !list.is_empty() {
            return violation("cut list", "taken as complete");
        }
        return Ok(());
    }
    let mut got = r.reqs.clone();
    let mut want = first_p.reqs.clone();
    got.sort();
    want.sort();
    if got != want || !r.errs.is_empty() {
        return violation("import", format!("{} {:?}", diff(&got, &want), r.errs));
    }
    let again: serde_json::Value =
        serde_json::from_slice(report_bytes(&q, &t3, "pj")?).or_else(|e| violation("report", e.to_string()))?;
    let by = |v: &serde_json::Value| -> BTreeMap<String, serde_json::Value> {
        v["requirements"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|r| (r["id"].to_string(), r.clone()))
            .collect()
    };
    if by(&again) != by(&raw_p) {
        return violation("import", "the second export differs from the first");
    }
    Ok(())
}
