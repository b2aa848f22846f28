//! C01, C02, C14, C15, C16: what is read, and what is said about it.

use super::*;
use crate::reports::*;

const IN: &[&str] = &[
    "faults are injected at the libc boundary; the program is not aware of them otherwise",
    "generated projects use the documented formats, at most 10 artefacts",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            quick: 9000,
            gen: c01_gen,
            judge: c01_judge,
            rule: "A case is a generated project, a set of up to three failing calls (open, read at any position, directory listing, stat) on its inputs, missing files and bytes that are not text, with short and interrupted reads around.",
            assumptions: IN,
        },
        Check {
            id: "C02",
            quick: 9000,
            gen: c02_gen,
            judge: c02_judge,
            rule: "A case is a generated project in which up to three inputs fail at any call, are missing, cut off or not text.",
            assumptions: IN,
        },
        Check {
            id: "C14",
            quick: 9000,
            gen: c14_gen,
            judge: c14_judge,
            rule: "A case is a generated project with repeated ids within files, between files of an artefact and between artefacts, read with shuffled directories and, in half of the cases, failing inputs.",
            assumptions: IN,
        },
        Check {
            id: "C15",
            quick: 14000,
            gen: c15_gen,
            judge: c15_judge,
            rule: "A case is a generated project whose files end at arbitrary bytes, delivered in arbitrary pieces with interruptions.",
            assumptions: IN,
        },
        Check {
            id: "C16",
            quick: 8000,
            gen: c16_gen,
            judge: c16_judge,
            rule: "A case is a generated project with all kinds of problems, failing inputs and cut files; all six reports of one run are read back and compared.",
            assumptions: IN,
        },
    ]
}

// ---------------------------------------------------------------- C01

/// A small project, and each call on its inputs fails in turn
fn c01_sweep(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        max_reqs: 3,
        missing: 20,
        big: 10,
        large: 0,
        format_error: 20,
        ..Profile::default()
    };
    let p = gen(rng, &pf);
    let run = std_run(rng);
    let mut s = Scenario::new("C01", p, run);
    let (o, _) = cx.fresh(&s.project, &s.run);
    for f in all_input_faults(rng, &s.project, &o, false, 80) {
        let mut r = s.run.clone();
        r.faults = vec![f];
        s.runs.push(r);
    }
    s
}

fn c01_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    if rng.pm(40) {
        return c01_sweep(rng, cx);
    }
    let pf = Profile {
        missing: 40,
        big: 120,
        format_error: 20,
        wild: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    if rng.pm(200) {
        smash(rng, &mut p);
    }
    if rng.pm(300) {
        for j in p.jobs.iter_mut() {
            if rng.coin() {
                j.set_rc = Some(rng.coin());
            }
        }
    }
    if rng.pm(120) && !p.arts.is_empty() {
        odd_paths(rng, &mut p);
    }
    let mut run = std_run(rng);
    if rng.pm(850) {
        let n = *rng.pick(&[1, 1, 1, 2, 3]);
        run.faults = input_faults(rng, cx, &p, &run, n, true);
    }
    Scenario::new("C01", p, run)
}

/// lists of paths that do not fit the parser, patterns that are none, directories in place of files
fn odd_paths(rng: &mut Rng, p: &mut Project) {
    let k = rng.below(p.arts.len());
    let base = p.base.clone();
    let a = &mut p.arts[k];
    match (rng.below(4), a.parser) {
        (0, _) => {
            a.paths.clear();
            a.files.clear();
        }
        (1 | 2, Parser::Rust) => {
            let bad = *rng.pick(&["src/***/x.rs", "src/a**b.rs", "src/[ab", "src/[!", "{ROOT}/x/[*.rs", "**.rs"]);
            a.paths.insert(rng.below(a.paths.len() + 1), bad.into());
        }
        (_, Parser::Rust) => {
            p.decoys.insert(format!("{base}/dir{k}/file.rs"), "fn x() { requirement_covered!(REQ_A); }".into());
            a.paths.push(format!("dir{k}"));
        }
        (1 | 2, _) => {
            let more = if rng.coin() { a.paths[0].clone() } else { format!("more{k}.md") };
            a.paths.insert(rng.below(2), more);
        }
        _ => {
            p.decoys.insert(format!("{base}/dir{k}.md/file.md"), "# REQ_A: Title".into());
            a.paths = vec![format!("dir{k}.md")];
            a.files.clear();
        }
    }
}

fn c01_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    c01_one(s, &s.run, cx)?;
    for r in &s.runs {
        let mut r = r.clone();
        r.jobs = s.run.jobs.clone();
        c01_one(s, &r, cx)?;
    }
    Ok(())
}

fn c01_one(s: &Scenario, run: &RunSpec, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let (o, t) = cx.fresh(p, run);
    settled(&o)?;
    let r = read_reports(p, &t)?;
    let root = cx.root();
    let mut due: Vec<(String, Vec<String>)> = vec![];
    let mut unfit = vec![];
    for a in &p.arts {
        let Some(rep) = r.tj.arts.get(&a.id) else {
            return violation("artefacts", format!("{} is missing", a.id));
        };
        let pattern = a.parser == Parser::Rust && a.paths.iter().any(|x| is_pattern(x));
        if a.paths.is_empty() || (a.parser != Parser::Rust && a.paths.len() > 1) {
            unfit.push(&a.id);
            continue;
        }
        for x in &a.paths {
            let bad = a.parser == Parser::Rust && (x.contains("***") || x.contains("a**b") || x.contains("**.rs") || (x.contains('[') && !x.contains(']')));
            if bad {
                due.push((x.clone(), vec![norm(&x.replace("{ROOT}", &root))]));
            } else if !(is_pattern(x) && a.parser == Parser::Rust) && !a.files.iter().any(|f| f.path == *x) {
                // a directory
                due.push((x.clone(), vec![p.shown(x, &root)]));
            }
        }
        for f in &a.files {
            let disk = p.on_disk(&f.path);
            let shown = p.shown(&f.path, &root);
            if f.missing && pattern {
                continue;
            }
            let exp = f.parse(&cx.g, a.parser, &shown);
            let len = f.bytes().len();
            let got = !f.missing && obtained(&o, &disk, len);
            if got && !exp.damaged && exp.reqs.iter().all(|x| rep.reqs.iter().any(|y| y.id == x.id)) {
                continue;
            }
            let mut ok = vec![shown.clone()];
            if pattern {
                // a directory on the way to it
                let base = p.shown(".", &root);
                ok.extend(ancestors(&shown).into_iter().filter(|d| *d != base && !base.starts_with(&format!("{d}/"))));
            }
            due.push((f.path.clone(), ok));
        }
    }
    // listings that failed for good
    for (i, st) in o.steps.iter().enumerate() {
        if st.tag == 'e' && matches!(st.kind.as_str(), "opendir" | "readdir") {
            let again = o.steps[i..]
                .iter()
                .any(|x| x.kind == "readdir" && x.path == st.path && x.tag == '-' && x.ret == 0);
            if !again {
                // as the reports show it, known from a file below
                let below = p.files().find_map(|(_, f)| {
                    let rest = p.on_disk(&f.path).strip_prefix(&format!("{}/", st.path))?.to_owned();
                    Some(p.shown(&f.path, &root).strip_suffix(&rest)?.trim_end_matches('/').to_owned())
                });
                let rel = st.path.strip_prefix(&format!("{}/", p.base)).unwrap_or(&st.path);
                due.push((rel.to_owned(), vec![below.unwrap_or_else(|| p.shown(rel, &root))]));
            }
        }
    }
    if due.is_empty() && unfit.is_empty() {
        return Ok(());
    }
    cx.w.probe("an input was not obtained");
    let tm = trace_md(&r.tm).or_else(|e| violation("report", e))?;
    let tg = trace_gnu(&r.tg).or_else(|e| violation("report", e))?;
    let pm = parse_md(&r.pm).or_else(|e| violation("report", e))?;
    for id in &unfit {
        cx.w.probe("paths that do not fit the parser");
        let is_ok = |e: &Err| matches!(e, Err::Config(t) if names(t, id));
        let Some(e) = r.tj.arts[*id].errs.iter().find(|e| is_ok(e)) else {
            return violation("silent", format!("the paths of {id} do not fit its parser, the trace says nothing"));
        };
        if !r.pj.errs.contains(e) {
            return violation("silent in some", format!("the paths of {id} do not fit its parser: no error in the Parse JSON report"));
        }
        for (name, pieces, gnu) in [("Trace Markdown", &tm.input_errs, false), ("Trace GNU", &tg.input_errs, true), ("Parse Markdown", &pm.input_errs, false)] {
            if !pieces.iter().any(|x| states(x, e, gnu)) {
                return violation("silent in some", format!("the paths of {id} do not fit its parser: no error in the {name} report: {pieces:?}"));
            }
        }
    }
    for (f, ok) in &due {
        let is_ok = |e: &Err| e.path().map_or(false, |q| ok.iter().any(|x| x == q) || q.starts_with(&format!("{}/", ok[0])));
        let all: Vec<&Err> = r.tj.input_errs().filter(|e| is_ok(e)).collect();
        if all.is_empty() {
            return violation("silent", format!("{f} could not be read, the trace says nothing"));
        }
        if !r.pj.errs.iter().any(is_ok) {
            return violation("silent in some", format!("{f}: no error in the Parse JSON report"));
        }
        for (name, pieces) in [("Trace Markdown", &tm.input_errs), ("Trace GNU", &tg.input_errs), ("Parse Markdown", &pm.input_errs)] {
            if !all.iter().any(|e| pieces.iter().any(|x| names(x, e.path().unwrap()))) {
                return violation("silent in some", format!("{f}: no error in the {name} report: {pieces:?}"));
            }
        }
    }
    let sets = s
        .run
        .jobs
        .iter()
        .filter_map(|j| p.job(j))
        .any(|j| j.set_rc.unwrap_or(true));
    if sets && o.code == Some(0) {
        return violation("exit 0", format!("{:?} {unfit:?} could not be read, exit status 0", due.first()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        missing: 60,
        cut: 60,
        max_arts: 5,
        wild: 100,
        large: 25,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    if rng.pm(150) {
        smash(rng, &mut p);
    }
    let mut run = std_run(rng);
    let n = *rng.pick(&[1, 1, 2, 3]);
    run.faults = input_faults(rng, cx, &p, &run, n, true);
    Scenario::new("C02", p, run)
}

fn c02_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let (o, t) = cx.fresh(p, &s.run);
    settled(&o)?;
    let r = read_reports(p, &t)?;
    if !unique(p, cx) {
        return Ok(());
    }
    exact_inputs(p, cx, &o, &r.tj)?;
    agree_parse_json(&r.tj, &r.pj).or_else(|e| violation("parse report", e))?;
    exact_graph(p, &r.tj)?;
    coverage_exact(&r.tj).or_else(|e| violation("coverage", e))?;
    references_exact(&r.tj).or_else(|e| violation("references", e))?;
    Ok(())
}

pub fn unique(p: &Project, cx: &Cx) -> bool {
    p.unique_ids(&cx.g)
}

// ---------------------------------------------------------------- C14

fn c14_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        unique: rng.pm(100),
        max_arts: 4,
        max_reqs: 6,
        cut: 30,
        big: 20,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    if !pf.unique {
        for _ in 0..rng.range(0, 3) {
            again(rng, &mut p);
        }
        if rng.pm(150) {
            one_file_twice(rng, &mut p);
        }
    }
    let mut run = std_run(rng);
    if rng.coin() {
        let n = rng.range(1, 2);
        run.faults = input_faults(rng, cx, &p, &run, n, false);
    }
    Scenario::new("C14", p, run)
}

/// two artefacts of the same files
pub fn one_file_twice(rng: &mut Rng, p: &mut Project) {
    if p.arts.is_empty() {
        return;
    }
    let k = rng.below(p.arts.len());
    let mut a = p.arts[k].clone();
    a.id = "twin".into();
    if rng.coin() {
        a.ignore_derived = Some(true);
    }
    if rng.pm(300) {
        for r in p.rels.iter_mut() {
            if r.upper == p.arts[k].id && rng.coin() {
                r.upper = a.id.clone();
            }
        }
    }
    let at = rng.below(p.arts.len() + 1);
    p.arts.insert(at, a);
}

/// repeats a definition somewhere
fn again(rng: &mut Rng, p: &mut Project) {
    let rust: Vec<usize> = (0..p.arts.len()).filter(|i| p.arts[*i].parser == Parser::Rust).collect();
    let text: Vec<usize> = (0..p.arts.len())
        .filter(|i| matches!(p.arts[*i].parser, Parser::Markdown | Parser::Json))
        .collect();
    if !rust.is_empty() && rng.coin() {
        let a = *rng.pick(&rust);
        let b = *rng.pick(&rust);
        let f = rng.below(p.arts[a].files.len());
        let g = rng.below(p.arts[b].files.len());
        let node = match &p.arts[a].files[f].doc {
            Doc::Rust(n) if !n.is_empty() => rng.pick(n).clone(),
            _ => return,
        };
        if let Doc::Rust(n) = &mut p.arts[b].files[g].doc {
            let k = rng.below(n.len() + 1);
            n.insert(k, node);
        }
    } else if !text.is_empty() {
        let a = *rng.pick(&text);
        let b = *rng.pick(&text);
        // the id of some requirement of a, for another one in b
        let id = match &p.arts[a].files[0].doc {
            Doc::Json(v, _) if !v.is_empty() => rng.pick(v)["id"].as_str().unwrap_or("X1").to_owned(),
            Doc::Text(t) => {
                let ids: Vec<String> = t
                    .iter()
                    .filter_map(|b| b.trim_start_matches('#').trim_start().split_once(':').map(|x| x.0.to_owned()))
                    .filter(|i| !i.contains(' ') && !i.contains('\n'))
                    .collect();
                if ids.is_empty() {
                    return;
                }
                rng.pick(&ids).clone()
            }
            _ => return,
        };
        let line = rng.range(1, 500);
        match &mut p.arts[b].files[0].doc {
            Doc::Text(t) if !id.contains("::") => {
                let k = rng.below(t.len() + 1);
                if k > 0 && !t[k - 1].ends_with('\n') {
                    t[k - 1].push('\n');
                }
                t.insert(k, format!("## {id}: Once more\n\nText.\n\n"));
            }
            Doc::Json(v, _) => {
                let k = rng.below(v.len() + 1);
                v.insert(
                    k,
                    serde_json::json!({"id": id, "title": "Once more", "location": {"file": "again.x", "location_in_file": {"Line": line}},
                    "covers": [], "depends": [], "tags": [], "attributes": {}}),
                );
            }
            _ => {}
        }
    }
}

fn c14_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let (o, t) = cx.fresh(p, &s.run);
    settled(&o)?;
    let r = read_reports(p, &t)?;
    let root = cx.root();
    let tm = trace_md(&r.tm).or_else(|e| violation("report", e))?;
    let tg = trace_gnu(&r.tg).or_else(|e| violation("report", e))?;
    let pm = parse_md(&r.pm).or_else(|e| violation("report", e))?;
    // per artefact: id -> definitions (location, certain)
    let mut kept: BTreeMap<String, Vec<(String, Loc)>> = BTreeMap::new();
    for a in &p.arts {
        let Some(rep) = r.tj.arts.get(&a.id) else {
            return violation("artefacts", format!("{} is missing", a.id));
        };
        let mut defs: BTreeMap<String, Vec<(Loc, bool, usize)>> = BTreeMap::new();
        for (fi, f) in a.files.iter().enumerate() {
            let exp = f.parse(&cx.g, a.parser, &p.shown(&f.path, &root));
            if a.parser == Parser::Rust && exp.reqs.windows(2).any(|w| w[0].id == w[1].id) {
                // neighbours of one name in one source file count as one
                return Ok(());
            }
            let loose = touched(&o, &p.on_disk(&f.path)) || exp.damaged;
            for x in exp.reqs {
                let x = x.normed();
                defs.entry(x.id).or_default().push((x.location, !loose, fi));
            }
        }
        let dups: Vec<&Err> = rep.errs.iter().filter(|e| matches!(e, Err::DuplicateRequirement(..))).collect();
        for (id, d) in &defs {
            let certain = d.iter().filter(|x| x.1).count();
            let found: Vec<(&Loc, &Loc)> = dups
                .iter()
                .filter_map(|e| match e {
                    Err::DuplicateRequirement(i, x, y) if i == id => Some((x, y)),
                    _ => None,
                })
                .collect();
            let k = rep.reqs.iter().find(|q| q.id == *id);
            if certain > 0 && k.is_none() {
                return violation("kept", format!("{id} of {} is gone", a.id));
            }
            if found.len() + 1 < certain || (d.len() < found.len() + 1 && !found.is_empty()) {
                return violation(
                    "duplicate",
                    format!("{id} is defined {} times in {}, {} duplicates are reported: {found:?}", d.len(), a.id, found.len()),
                );
            }
            let Some(k) = k else { continue };
            if !d.iter().any(|x| x.0 == k.location) {
                return violation("kept", format!("{id} at {:?} is not one of {d:?}", k.location));
            }
            // in one file the first one stays
            if d.iter().all(|x| x.2 == d[0].2 && x.1) && d[0].0 != k.location {
                return violation("kept", format!("{id} at {:?} stays, the first one is {:?}", k.location, d[0].0));
            }
            for (x, y) in &found {
                if !d.iter().any(|q| q.0 == **x) || !d.iter().any(|q| q.0 == **y) {
                    return violation("duplicate", format!("{id}: {x:?} and {y:?} are reported, defined at {d:?}"));
                }
            }
            for (l, c, _) in d {
                if *c && *l != k.location && !found.iter().any(|(x, y)| *x == l || *y == l) {
                    return violation("duplicate", format!("{id} at {l:?} is not reported as duplicate in {}", a.id));
                }
            }
        }
        for e in &dups {
            if let Err::DuplicateRequirement(id, ..) = e {
                if !defs.contains_key(id) {
                    return violation("duplicate", format!("{e:?}, never defined"));
                }
            }
            cx.w.probe("duplicate in an artefact");
            if !r.pj.errs.contains(e) {
                return violation("duplicate in some", format!("{e:?} is not in the Parse JSON report"));
            }
            for (name, pieces, gnu) in [
                ("Trace Markdown", &tm.input_errs, false),
                ("Trace GNU", &tg.input_errs, true),
                ("Parse Markdown", &pm.input_errs, false),
            ] {
                if !pieces.iter().any(|x| states(x, e, gnu)) {
                    return violation("duplicate in some", format!("{e:?} is not in the {name} report"));
                }
            }
        }
        for q in &rep.reqs {
            kept.entry(q.id.clone()).or_default().push((a.id.clone(), q.location.clone()));
        }
    }
    // between artefacts
    let dups: Vec<&Err> = r.tj.errs.iter().filter(|e| matches!(e, Err::DuplicateRequirement(..))).collect();
    for (id, k) in &kept {
        let found: Vec<(&Loc, &Loc)> = dups
            .iter()
            .filter_map(|e| match e {
                Err::DuplicateRequirement(i, x, y) if i == id => Some((x, y)),
                _ => None,
            })
            .collect();
        if found.len() != k.len() - 1 {
            return violation(
                "duplicate",
                format!("{id} is in {k:?}, {} duplicates are reported between artefacts", found.len()),
            );
        }
        for (x, y) in &found {
            if !k.iter().any(|q| q.1 == **x) || !k.iter().any(|q| q.1 == **y) {
                return violation("duplicate", format!("{id}: {x:?} and {y:?} are reported, defined at {k:?}"));
            }
        }
        if k.len() > 1 {
            cx.w.probe("duplicate between artefacts");
            for (_, l) in k {
                if !found.iter().any(|(x, y)| *x == l || *y == l) {
                    return violation("duplicate", format!("{id} at {l:?} is not reported"));
                }
            }
        }
    }
    for e in &dups {
        for (name, pieces, gnu) in [("Trace Markdown", &tm.trace_errs, false), ("Trace GNU", &tg.trace_errs, true)] {
            if !pieces.iter().any(|x| states(x, e, gnu)) {
                return violation("duplicate in some", format!("{e:?} is not in the {name} report: {pieces:?}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_gen(rng: &mut Rng, _cx: &mut Cx) -> Scenario {
    let pf = Profile {
        cut: *rng.pick(&[0, 500, 900]),
        max_arts: 3,
        max_reqs: 6,
        big: 100,
        format_error: *rng.pick(&[0, 60, 250]),
        wild: 450,
        ..Profile::default()
    };
    let p = gen(rng, &pf);
    Scenario::new("C15", p, std_run(rng))
}

fn c15_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    if !unique(p, cx) {
        return Ok(());
    }
    let (o, t) = cx.fresh(p, &s.run);
    settled(&o)?;
    let tj = trace_report(p, &t, "tj")?;
    let pj = parse_report(p, &t, "pj")?;
    exact_inputs(p, cx, &o, &tj)?;
    agree_parse_json(&tj, &pj).or_else(|e| violation("parse report", e))?;
    if p.files().any(|(_, f)| f.cut.map_or(false, |c| c < f.whole().len())) {
        cx.w.probe("a file was cut off");
    }
    if tj.input_errs().next().is_some() {
        cx.w.probe("an input error was reported");
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        missing: 50,
        cut: 80,
        wrong_title: 250,
        unknown_ref: 250,
        format_error: 120,
        with_title: 400,
        big: 30,
        unique: rng.pm(750),
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    if !pf.unique && rng.pm(200) {
        one_file_twice(rng, &mut p);
    }
    let mut run = std_run(rng);
    if rng.pm(500) {
        let n = rng.range(1, 2);
        run.faults = input_faults(rng, cx, &p, &run, n, true);
    }
    Scenario::new("C16", p, run)
}

pub fn agree_all(r: &Reports) -> Result<(), String> {
    agree_parse_json(&r.tj, &r.pj).map_err(|e| format!("Parse JSON and Trace JSON: {e}"))?;
    agree_parse_md(&r.pj, &r.pm).map_err(|e| format!("Parse Markdown: {e}"))?;
    agree_tags(&r.pj, &r.pt).map_err(|e| format!("Tags: {e}"))?;
    agree_trace_md(&r.tj, &r.tm).map_err(|e| format!("Trace Markdown: {e}"))?;
    agree_trace_gnu(&r.tj, &r.tg).map_err(|e| format!("Trace GNU: {e}"))?;
    Ok(())
}

fn c16_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let (o, t) = cx.fresh(p, &s.run);
    settled(&o)?;
    let r = read_reports(p, &t)?;
    if !r.tj.ids_unique() {
        cx.w.probe("reports with an id in several artefacts");
    }
    for (k, n) in [
        ("uncovered", r.tj.rels.iter().map(|x| x.2.len()).sum::<usize>()),
        ("derived", r.tj.derived.values().map(Vec::len).sum()),
        ("tracing error", r.tj.errs.len()),
        ("input error", r.tj.input_errs().count()),
    ] {
        if n > 0 {
            cx.w.probe(&format!("reports with {k}"));
        }
    }
    agree_all(&r).or_else(|e| violation("agreement", e))
}
