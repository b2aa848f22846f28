//! C06: configurations and invocations that are rejected.

use super::outputs::{job_list, more_jobs};
use super::*;
use serde::Deserialize;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C06",
        quick: 12000,
        gen: c06_gen,
        judge: c06_judge,
        rule: "A case is a configuration that was cut at an arbitrary byte, overwritten, mutated in meaning or left alone, a job list with or without unknown names, and failing or split reads of the configuration.",
        assumptions: &["whether a configuration is valid TOML of the expected shape is decided with the toml crate the program uses and an independent description of the shape"],
    }]
}

#[derive(Deserialize)]
#[allow(dead_code)]
enum CParser {
    Markdown,
    Rust,
    MonoRequirement,
    Json,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct CArt {
    id: String,
    paths: Vec<String>,
    parser: CParser,
    ignore_derived_requirements: Option<bool>,
    reference_with_title: Option<bool>,
}
#[derive(Deserialize, PartialEq)]
enum CQuery {
    Parse,
    Trace,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum CFormat {
    GnuError,
    Json,
    Markdown,
    Tags,
    TemplateFile(String),
    TemplateString(String),
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct CJob {
    query: CQuery,
    format: CFormat,
    file: String,
    set_return_code: Option<bool>,
}
#[derive(Deserialize)]
struct CConfig {
    version: Option<u32>,
    artefacts: Vec<CArt>,
    relations: Vec<Rel>,
    jobs: Option<BTreeMap<String, CJob>>,
    default_jobs: Option<Vec<String>>,
}

fn valid(bytes: &[u8]) -> Result<CConfig, String> {
    let c: CConfig = toml::from_slice(bytes).map_err(|e| e.to_string())?;
    if c.version.unwrap_or(0) > 0 {
        return Err("version".into());
    }
    let mut ids = BTreeSet::new();
    for a in &c.artefacts {
        if !ids.insert(&a.id) {
            return Err(format!("artefact {} twice", a.id));
        }
    }
    for r in &c.relations {
        for x in r.lower.iter().chain([&r.upper]) {
            if !ids.contains(x) {
                return Err(format!("artefact {x} unknown"));
            }
        }
    }
    Ok(c)
}

/// good configurations in all the places where one might be looked for
fn tempt(p: &mut Project) {
    let real = p.config_path();
    let mut t = String::from("default_jobs = [\"tj\"]\nartefacts = []\nrelations = []\n");
    for n in ["tj", "tm", "tg", "pj", "pm", "pt", "unknown", "all"] {
        t.push_str(&format!("[jobs.{n}]\nquery = \"Trace\"\nformat = \"Json\"\nfile = \"decoy/{n}\"\n"));
    }
    let name = real.rsplit('/').next().unwrap_or(CONFIG).to_owned();
    for dir in ["".to_owned(), p.base.clone(), p.cwd(), ancestors(&real).into_iter().next().unwrap_or_default()] {
        for n in [CONFIG, &name, &real, "reqtrace.toml", ".reqtrace.toml", "requirements.toml~", "requirements.toml.bak", ".config/reqtrace.toml"] {
            let place = if dir.is_empty() { n.to_owned() } else { format!("{dir}/{n}") };
            if place != real && !p.files().any(|(_, f)| p.on_disk(&f.path) == place) {
                p.decoys.insert(place, t.clone());
            }
        }
    }
}

const BAD_OPTIONS: &[&str] = &[
    "--frobnicate", "-x", "-qx", "--jobs=tj", "--quiet=yes", "--output=out.json", "-o", "--force", "-Q", "---", "--config_file=my.toml", "--Config=my.toml", "-9",
];

/// at the end of the command line, where their value is missing
const WITHOUT_VALUE: &[&str] = &["-l", "-c", "-b", "--config", "--base", "--log-level", "-ql"];

fn bad_command_line(run: &RunSpec) -> bool {
    let bad = |x: &String| BAD_OPTIONS.contains(&x.as_str());
    run.args.iter().any(bad) || run.jobs.iter().any(bad) || run.jobs.last().map_or(false, |x| WITHOUT_VALUE.contains(&x.as_str()))
}

fn c06_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        max_reqs: 3,
        big: 0,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    let shared = rng.pm(100);
    more_jobs(rng, &mut p, shared);
    if rng.coin() {
        let names: &[&str] = &["nightly build", "Full", "überblick", "report.all", "all"];
        for n in names.iter().take(rng.range(1, 5)) {
            let j = rng.pick(&p.jobs).clone();
            let file = if j.file == "-" { j.file.clone() } else { format!("{}.{}", j.file, n.len()) };
            p.jobs.push(JobSpec { name: (*n).into(), file, ..j });
        }
    }
    if rng.coin() {
        p.default_jobs = Some(if rng.pm(100) { vec![] } else { job_list(rng, &p, 3) });
    }
    if p.config.is_none() && rng.pm(300) {
        p.config = Some((*rng.pick(&["requirements.toml", "conf/my.toml", "my.toml"])).to_owned());
    }
    if rng.coin() {
        tempt(&mut p);
    }
    // jobs that have run before
    for j in p.jobs.clone() {
        if rng.pm(300) {
            if let Some(d) = p.dest(&j) {
                p.decoys.insert(d, "earlier report".into());
            }
        }
    }
    let mut run = RunSpec {
        jobs: if rng.pm(200) { vec![] } else { job_list(rng, &p, 4) },
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    let root = cx.root();
    let mut s = Scenario::new("C06", p, run.clone());
    let p = &mut s.project;
    match rng.below(9) {
        0 | 1 => {
            let t = p.config_text(&root);
            let mut n = rng.below(t.len() + 1);
            if rng.coin() {
                // at the end of a line
                n = t[..t.char_indices().map(|c| c.0).filter(|c| *c <= n).last().unwrap_or(0)]
                    .rfind('\n')
                    .map_or(0, |p| p + 1);
            }
            p.config_raw = Some(Bytes(t.as_bytes()[..n].to_vec()));
        }
        2 => {
            let mut t = p.config_text(&root).into_bytes();
            for _ in 0..rng.range(1, 2) {
                let k = rng.below(t.len());
                t[k] = *rng.pick(&[b' ', b'"', b'[', b'=', b'\n', b'x', 0xff, 0, b'#', b'{', b'1']);
            }
            p.config_raw = Some(Bytes(t));
        }
        3 => {
            // lines dropped or repeated
            let t = p.config_text(&root);
            let mut l: Vec<&str> = t.split_inclusive('\n').collect();
            let k = rng.below(l.len());
            if rng.coin() {
                l.remove(k);
            } else {
                l.insert(k, l[k]);
            }
            p.config_raw = Some(Bytes(l.concat().into_bytes()));
        }
        4 => match rng.below(10) {
            0 => p.version = Some(rng.range(1, 3) as u32),
            1 => p.rels.push(Rel {
                upper: "nowhere".into(),
                lower: vec![p.arts[0].id.clone()],
            }),
            2 => {
                let u = p.arts[0].id.clone();
                let mut lower: Vec<String> = p.arts.iter().skip(1).map(|a| a.id.clone()).collect();
                lower.insert(rng.below(lower.len() + 1), "nowhere".into());
                p.rels.push(Rel { upper: u, lower });
            }
            3 => {
                let mut a = rng.pick(&p.arts).clone();
                match rng.below(4) {
                    0 => {} // the same once more
                    1 => a.ignore_derived = Some(!a.ignore_derived.unwrap_or(true)),
                    _ => {
                        a.paths = vec!["other.md".into()];
                        a.parser = Parser::Markdown;
                    }
                }
                a.files.clear();
                let k = rng.below(p.arts.len() + 1);
                p.arts.insert(k, a);
            }
            4 => {
                let mut d = p.default_jobs.clone().unwrap_or_default();
                d.insert(rng.below(d.len() + 1), "unknown".into());
                p.default_jobs = Some(d);
                if rng.coin() {
                    run.jobs.clear();
                }
            }
            5 => p.default_jobs = if rng.coin() { None } else { Some(vec![]) },
            6 => {
                let t = p.config_text(&root);
                let (a, b) = *rng.pick(&[
                    ("parser = \"Markdown\"", "parser = \"markdown\""),
                    ("query = \"Trace\"", "query = \"Tracing\""),
                    ("format = \"Json\"", "format = \"Yaml\""),
                    ("format = \"Json\"", "format = 3"),
                    ("paths = [", "paths = [1, "),
                    ("lower = [", "lower = [["),
                    ("file = ", "fiel = "),
                    ("id = ", "name = "),
                    ("upper = ", "uper = "),
                    ("[jobs.", "[job."),
                ]);
                p.config_raw = Some(Bytes(t.replacen(a, b, 1).into_bytes()));
            }
            7 => {
                let v = *rng.pick(&["version = -1\n", "version = \"0\"\n", "version = 99999999999\n", "version = 1.0\n", "version = 0\nversion = 0\n", "version = 4294967295\n"]);
                p.version = None;
                p.config_raw = Some(Bytes(format!("{v}{}", p.config_text(&root)).into_bytes()));
            }
            8 => p.config_raw = Some(Bytes(vec![])),
            _ => {
                // two jobs of one name
                let k = rng.below(p.jobs.len());
                let j = p.jobs[k].clone();
                p.jobs.push(j);
            }
        },
        5 | 6 => {
            // a name that is not there, anywhere in the list
            let n = *rng.pick(&["unknown", "TJ", "tj ", "", "t", "tjj", "default_jobs", "-", "*"]);
            for _ in 0..rng.range(1, 2) {
                // or almost one that is
                let j = &rng.pick(&p.jobs).name;
                let l = j.chars().count();
                let near = match rng.below(7) {
                    0 | 1 => j.chars().take(rng.range(1, l)).collect(),
                    2 => format!("{j}{}", rng.pick(&[" ", "x", "s", ".json", "\u{301}"])),
                    3 => j.to_uppercase(),
                    4 => j.to_lowercase(),
                    5 => j.chars().skip(1).collect(),
                    _ => j.replace(' ', "-").replace('ü', "u"),
                };
                let name = if rng.coin() && !near.starts_with('-') { near } else { n.to_owned() };
                run.jobs.insert(rng.below(run.jobs.len() + 1), name);
            }
        }
        7 => {
            run.jobs.clear();
        }
        _ => {}
    }
    if run.jobs.is_empty() && rng.pm(400) && s.project.config_raw.is_none() {
        s.project.default_jobs = None;
    }
    if rng.pm(60) {
        // not a command line at all
        match rng.below(3) {
            0 => run.jobs.push((*rng.pick(WITHOUT_VALUE)).into()),
            1 => run.jobs.insert(rng.below(run.jobs.len() + 1), (*rng.pick(BAD_OPTIONS)).into()),
            _ => run.args.push((*rng.pick(BAD_OPTIONS)).into()),
        }
    } else if rng.pm(50) {
        s.variant = "no file".into();
    } else if rng.pm(250) {
        let (o, _) = cx.fresh(&s.project, &run);
        let c = s.project.config_path();
        let st: Vec<&Step> = o
            .steps
            .iter()
            .filter(|x| x.path == c && matches!(x.kind.as_str(), "open" | "read") && x.tag != 'i')
            .collect();
        if !st.is_empty() {
            let x = *rng.pick(&st);
            run.faults.push(Fault {
                kind: x.kind.clone(),
                path: c,
                nth: x.nth,
                action: 'e',
                arg: i64::from(input_errno(rng, &x.kind)),
                persist: rng.coin(),
            });
        }
    }
    s.run = run;
    s
}

fn c06_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = &s.project;
    let mut tree = p.tree(&cx.root());
    let conf = p.config_path();
    let bytes = file(&tree, &conf).unwrap_or(b"").to_vec();
    if s.variant == "no file" {
        tree.remove(&conf);
    }
    cx.w.reset(&tree);
    let before = cx.w.snapshot();
    let modes = cx.w.modes();
    let o = cx.launch(p, &s.run);
    let after = cx.w.snapshot();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let hit = o.steps.iter().any(|x| x.tag == 'e' && x.path == conf);
    let reading = if s.variant == "no file" {
        Err("missing".to_owned())
    } else if hit && !obtained(&o, &conf, bytes.len()) {
        Err("unreadable".to_owned())
    } else {
        valid(&bytes)
    };
    // an error after the last byte: both are fine, but then consistently
    let either = hit && reading.is_ok() && o.code == Some(2);
    let reason = match &reading {
        _ if bad_command_line(&s.run) => Some("command line".to_owned()),
        Err(e) => Some(e.clone()),
        Ok(_) if either => Some("unreadable".to_owned()),
        Ok(c) => {
            let list: Vec<String> = if s.run.jobs.is_empty() {
                c.default_jobs.clone().unwrap_or_default()
            } else {
                s.run.jobs.clone()
            };
            let jobs = c.jobs.as_ref();
            if list.is_empty() {
                Some("no jobs".to_owned())
            } else {
                list.iter()
                    .find(|j| !jobs.map_or(false, |x| x.contains_key(*j)))
                    .map(|j| format!("unknown job {j:?}"))
            }
        }
    };
    if let Some(reason) = reason {
        cx.w.probe("rejected");
        if o.code != Some(2) || o.hung {
            return violation("not rejected", format!("{reason}: {} {err}", o.ending()));
        }
        if o.stderr.iter().all(u8::is_ascii_whitespace) {
            return violation("no explanation", format!("{reason}: standard error is empty"));
        }
        for st in &o.steps {
            if matches!(st.kind.as_str(), "create" | "trunc" | "unlink" | "rename" | "ESCAPE") && st.ret >= 0 {
                return violation("touched", format!("{reason}: {} of {}", st.kind, st.path));
            }
        }
        if before != after || modes != cx.w.modes() {
            let new: Vec<&String> = after.keys().filter(|k| before.get(*k) != after.get(*k)).collect();
            return violation("touched", format!("{reason}: {new:?} changed"));
        }
        if !o.stdout.is_empty() {
            return violation("touched", format!("{reason}: output on standard output"));
        }
        return Ok(());
    }
    cx.w.probe("accepted");
    let c = reading.unwrap();
    let list: Vec<String> = if s.run.jobs.is_empty() {
        c.default_jobs.clone().unwrap_or_default()
    } else {
        s.run.jobs.clone()
    };
    let jobs = c.jobs.as_ref().unwrap();
    let unsupported = list.iter().any(|j| match &jobs[j].format {
        CFormat::TemplateFile(_) | CFormat::TemplateString(_) => true,
        CFormat::Tags => jobs[j].query == CQuery::Trace,
        CFormat::GnuError => jobs[j].query == CQuery::Parse,
        _ => false,
    });
    let failing = o.steps.iter().any(|x| {
        x.kind == "ESCAPE" || (x.kind == "create" && x.ret < 0 && x.errno != libc::EINTR) || (x.kind == "mkdir" && x.ret < 0 && x.errno != libc::EEXIST && x.errno != libc::ENOENT)
    });
    match o.code {
        Some(0 | 1) if !unsupported => {}
        Some(2) if unsupported || failing => return Ok(()),
        _ => return violation("not run", format!("the configuration is valid, {} {err}", o.ending())),
    }
    let mut q = p.clone();
    q.arts.clear();
    for n in &list {
        let j = &jobs[n];
        if j.file == "-" {
            if matches!(j.format, CFormat::Json) && o.stdout.is_empty() {
                return violation("not run", format!("{n} wrote nothing to standard output"));
            }
            continue;
        }
        let f = j.file.strip_prefix(&format!("{}/", cx.root())).map_or(j.file.clone(), |x| format!("{{ROOT}}/{x}"));
        if f.starts_with('/') || f.contains("..") && p.base.matches('/').count() + 1 < f.matches("..").count() {
            continue;
        }
        let d = p.on_disk(&f);
        if !matches!(after.get(&d), Some(Node::File(_))) {
            return violation("not run", format!("{n}: there is no {d}"));
        }
        let last = list.iter().filter(|x| jobs[*x].file == j.file).last() == Some(n);
        if j.query == CQuery::Trace && matches!(j.format, CFormat::Json) && last {
            match reports::trace_json(file(&after, &d).unwrap()) {
                Err(e) => return violation("report", format!("{d}: {e}")),
                Ok(r) => {
                    let mut want: Vec<&String> = c.artefacts.iter().map(|a| &a.id).collect();
                    want.sort();
                    let got: Vec<&String> = r.arts.keys().collect();
                    if got != want || r.rels.iter().map(|x| &x.0).ne(c.relations.iter()) {
                        return violation("not as it stands", format!("artefacts {got:?}, configured {want:?}; relations {:?}", r.rels.iter().map(|x| &x.0).collect::<Vec<_>>()));
                    }
                }
            }
        }
    }
    Ok(())
}
