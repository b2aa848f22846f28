//! C08: every run ends by itself.

use super::outputs::{job_list, more_jobs, output_errno};
use super::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C08",
        quick: 12000,
        gen: c08_gen,
        judge: c08_judge,
        rule: "A case is a project whose files and configuration hold damaged, mixed-up, deeply nested or arbitrary bytes, any pair of query and format, and up to five failing, zero-length, short or interrupted calls anywhere, including standard output and standard error.",
        assumptions: &[
            "memory allocation does not fail; the stack is the usual 8 MiB; nesting beyond 200 levels is generated only as the listed known finding",
            "at most 200000 system calls and 10 s of processor time count as a bounded run",
        ],
    }]
}

fn soup(rng: &mut Rng) -> Vec<u8> {
    let tokens: &[&str] = &[
        "#", "# ", "## A1: t", "\n", "\n\n", "Covers:", "Covers: ", "Depends:", "Comment: ", "*   ", "-", ":", " ", "A1", ",", "=> X1: t", "=>", "\t", "\r\n", "é", "\u{301}",
        "\u{feff}", "{", "}", "[", "]", "\"", "null", "\"id\"", "1e999", "\\u0000", "\\ud800", "fn f() {", "impl X {", "mod m;", "requirement_covered!(", ")", "requirement_covered!(A1);", "//", "/*", "*/", "'", "r#\"",
        "#!", "#![x]", "\0", "Description:", "Aa:", "0", "-", "*", "<", ">", ";", "macro_rules! m {() => {}}", "const X: () = requirement_covered!(A1, \"t\");", "requirement_covered!(A1: \"t\", 3)",
        "requirement_covered!{A1}", "::", "$", "trait T { fn f() { requirement_covered!(B1); } }", "enum E { A = { requirement_covered!(Z1); 1 } }", "static S: [u8; { requirement_covered!(Q1); 3 }] = 0;", "impl<T> A for B<T> where T: C {",
        "struct S;", "type T = [u8; { requirement_covered!(Q2); 2 }];", "extern { fn x(); }", "union U { a: u8 }", "use a::b;", "async fn f() {}", "let x = 1", "|", "&", "..", "1", "1.5", "\"a\": [", "},", "{\"file\": \"x\", \"location_in_file\": null}",
    ];
    let mut s = String::new();
    for _ in 0..rng.range(0, 120) {
        s.push_str(rng.pick(tokens));
        if rng.pm(300) {
            s.push(*rng.pick(&[' ', '\n']));
        }
    }
    s.into_bytes()
}

fn nest(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.coin() { rng.range(5, 40) } else { rng.range(40, 200) };
    let (a, m, b) = *rng.pick(&[
        ("[", "", "]"),
        ("{\"a\":", "1", "}"),
        ("mod m { ", "fn f() { requirement_covered!(A1); }", " }"),
        ("fn f() { ", "requirement_covered!(A1);", " }"),
        ("fn f() { if true { ", "requirement_covered!(A1);", " } }"),
        ("impl X { const A: u8 = { fn f() { ", "requirement_covered!(A1);", " } 1 }; }"),
        ("# A1: t\n", "", "\n"),
        ("(", "1", ")"),
        ("&", "1", ""),
        ("-", "1", ""),
        ("if x {} else ", "{}", ""),
        ("Vec::<", "u8", ">::new()"),
    ]);
    // (each one is an error of its own)
    let n = if a.starts_with('#') { n.min(40) } else { n };
    let s = format!("{}{m}{}", a.repeat(n), b.repeat(n - rng.below(2)));
    if matches!(a, "(" | "&" | "-" | "if x {} else " | "Vec::<") {
        format!("fn f() {{ let x = {s}; }}").into_bytes()
    } else {
        s.into_bytes()
    }
}

fn damage(rng: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..rng.range(1, 4) {
        let n = b.len();
        match rng.below(7) {
            0 if n > 0 => {
                let k = rng.below(n);
                b[k] = rng.next() as u8;
            }
            1 => b.truncate(rng.below(n + 1)),
            2 if n > 0 => {
                let s = rng.below(n);
                let e = (s + rng.range(1, 30)).min(n);
                b.drain(s..e);
            }
            3 if n > 0 => {
                let s = rng.below(n);
                let e = (s + rng.range(1, 60)).min(n);
                let c = b[s..e].to_vec();
                let k = rng.below(n + 1);
                b.splice(k..k, c);
            }
            4 => {
                let k = rng.below(n + 1);
                let c = soup(rng);
                let m = rng.below(c.len() + 1);
                b.splice(k..k, c[..m].to_vec());
            }
            5 if !other.is_empty() => {
                let s = rng.below(other.len());
                let e = (s + rng.range(1, 200)).min(other.len());
                let k = rng.below(n + 1);
                b.splice(k..k, other[s..e].to_vec());
            }
            6 if n > 0 => {
                // a torn page
                let s = rng.below(n);
                let e = (s + rng.range(1, 512)).min(n);
                for x in &mut b[s..e] {
                    *x = 0;
                }
            }
            _ => {}
        }
    }
}

/// Each call of a small run fails in turn
fn c08_sweep(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    let pf = Profile {
        max_arts: 3,
        max_reqs: 3,
        unique: rng.coin(),
        format_error: 200,
        missing: 60,
        cut: 60,
        big: 0,
        large: 0,
        wild: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    more_jobs(rng, &mut p, false);
    let run = RunSpec {
        jobs: job_list(rng, &p, 3),
        log: log_level(rng),
        ..RunSpec::default()
    };
    let mut s = Scenario::new("C08", p, run);
    let (o, _) = cx.fresh(&s.project, &s.run);
    let of = |s: &&Step| matches!(s.kind.as_str(), "open" | "read" | "write" | "create" | "mkdir" | "opendir" | "readdir" | "stat");
    let mut steps: Vec<&Step> = o.steps.iter().filter(|s| s.tag != 'i').filter(of).collect();
    while steps.len() > 150 {
        let k = rng.below(steps.len());
        steps.remove(k);
    }
    for st in steps {
        let kind = st.kind.as_str();
        let out = matches!(kind, "write" | "create" | "mkdir");
        let e = if out { output_errno(rng, kind) } else { input_errno(rng, kind) };
        let mut r = s.run.clone();
        r.faults = vec![Fault {
            kind: st.kind.clone(),
            path: st.path.clone(),
            nth: st.nth,
            action: if matches!(kind, "read" | "write") && rng.pm(200) { 'z' } else { 'e' },
            arg: i64::from(e),
            persist: rng.coin(),
        }];
        s.runs.push(r);
    }
    s
}

fn c08_gen(rng: &mut Rng, cx: &mut Cx) -> Scenario {
    if rng.pm(20) {
        return c08_sweep(rng, cx);
    }
    let pf = Profile {
        unique: rng.coin(),
        cut: 200,
        missing: 100,
        big: 50,
        format_error: 200,
        wild: 100,
        ..Profile::default()
    };
    let mut p = gen(rng, &pf);
    more_jobs(rng, &mut p, false);
    for k in 0..rng.below(4) {
        p.jobs.push(JobSpec {
            name: if rng.coin() {
                format!("x{k}")
            } else {
                // long, with characters of all lengths at all offsets
                let c = ["a", "ä", "日", "𝔘", " ", ".", "\u{301}", "-", "\"", "\\"];
                format!("x{k}{}", (0..rng.range(3, 90)).map(|_| *rng.pick(&c)).collect::<String>())
            },
            query: (*rng.pick(&["Trace", "Parse"])).into(),
            format: (*rng.pick(&["Json", "Markdown", "GnuError", "Tags", "{ TemplateFile = \"t\" }", "{ TemplateString = \"t\" }"])).into(),
            file: (*rng.pick(&["-", "out/x", "/dev/null", "{ROOT}/x/y", "", ".", "..", "doc", "out/previous.txt/x", "a\u{301}/b"])).into(),
            set_rc: None,
        });
    }
    if rng.pm(100) && !p.arts.is_empty() {
        // an artefact of such a name
        let k = rng.below(p.arts.len());
        let new: String = (0..rng.range(0, 90)).map(|_| *rng.pick(&["a", "ä", "日", "𝔘", " ", "\n", "\t", "|", "%"])).collect();
        if !p.arts.iter().any(|a| a.id == new) {
            let old = std::mem::replace(&mut p.arts[k].id, new.clone());
            for r in p.rels.iter_mut() {
                for x in r.lower.iter_mut().chain([&mut r.upper]).filter(|x| **x == old) {
                    *x = new.clone();
                }
            }
        }
    }
    let root = cx.root();
    let mut contents: Vec<Vec<u8>> = p.files().map(|(_, f)| f.bytes()).collect();
    contents.push(p.config_text(&root).into_bytes());
    let mut p2 = p.clone();
    for a in p2.arts.iter_mut() {
        for f in a.files.iter_mut() {
            match rng.below(10) {
                0 => f.doc = Doc::Raw(Bytes(soup(rng))),
                1 => f.doc = Doc::Raw(Bytes(nest(rng))),
                2 => {
                    let n = rng.range(0, 300);
                    f.doc = Doc::Raw(Bytes((0..n).map(|_| rng.next() as u8).collect()));
                }
                3..=5 => {
                    let mut b = f.bytes();
                    let other = rng.pick(&contents).clone();
                    damage(rng, &mut b, &other);
                    f.doc = Doc::Raw(Bytes(b));
                }
                6 => f.doc = Doc::Raw(Bytes(rng.pick(&contents).clone())),
                _ => {}
            }
        }
        if rng.pm(60) {
            a.paths = match rng.below(8) {
                0 => vec![],
                1 => vec!["nothing/here.md".into()],
                2 => vec!["**".into()],
                3 => vec!["[".into()],
                4 => vec!["***/x".into(), "/".into()],
                5 => vec!["".into()],
                6 => vec![".".into(), "..".into()],
                _ => vec!["doc".into(), "src0/*".into(), "*/*.md".into()],
            };
        }
        if rng.pm(40) {
            a.parser = *rng.pick(&[Parser::Markdown, Parser::Rust, Parser::Json, Parser::MonoRequirement]);
        }
    }
    if rng.pm(100) {
        let mut b = p2.config_text(&root).into_bytes();
        let other = rng.pick(&contents).clone();
        damage(rng, &mut b, &other);
        p2.config_raw = Some(Bytes(b));
    }
    let mut run = RunSpec {
        jobs: job_list(rng, &p2, 4),
        knobs: knobs(rng),
        log: log_level(rng),
        ..RunSpec::default()
    };
    if rng.pm(60) {
        let odd: &[&str] = &["-q", "--help", "--version", "--nonsense", "-l", "-l=reqtrace=trace,x", "--", "-c", "-b/nonexistent", "-bä"];
        run.args.push((*rng.pick(odd)).to_owned());
    }
    if rng.pm(50) {
        run.jobs.clear();
    }
    if rng.pm(700) {
        let (o, _) = cx.fresh(&p2, &run);
        let steps: Vec<&Step> = o.steps.iter().filter(|s| s.tag != 'i' && s.kind != "ESCAPE").collect();
        for _ in 0..*rng.pick(&[1, 1, 2, 3, 5]) {
            if steps.is_empty() {
                break;
            }
            let mut st = *rng.pick(&steps);
            if rng.coin() {
                // evenly over kinds
                let kinds: BTreeSet<&str> = steps.iter().map(|s| s.kind.as_str()).collect();
                let kinds: Vec<&str> = kinds.into_iter().collect();
                let k = *rng.pick(&kinds);
                let of: Vec<&&Step> = steps.iter().filter(|s| s.kind == k).collect();
                st = *rng.pick(&of);
            }
            let kind = st.kind.as_str();
            if !matches!(kind, "open" | "read" | "write" | "create" | "mkdir" | "opendir" | "readdir" | "stat") {
                continue;
            }
            let out = matches!(kind, "write" | "create" | "mkdir");
            let e = if out { output_errno(rng, kind) } else { input_errno(rng, kind) };
            run.faults.push(Fault {
                kind: st.kind.clone(),
                path: st.path.clone(),
                nth: st.nth,
                action: if matches!(kind, "read" | "write") && rng.pm(200) { 'z' } else { 'e' },
                arg: i64::from(e),
                persist: rng.coin(),
            });
        }
        if rng.pm(150) {
            run.faults.push(Fault {
                kind: "write".into(),
                path: "<stderr>".into(),
                nth: rng.range(1, 3) as u32,
                action: *rng.pick(&['e', 'e', 'z']),
                arg: i64::from(output_errno(rng, "write")),
                persist: rng.coin(),
            });
        }
    }
    let mut s = Scenario::new("C08", p2, run);
    if rng.pm(2) {
        s.run.knobs = Knobs::default();
        s.run.faults.clear();
        if rng.coin() {
            s.extra.insert("rust_nest".into(), rng.range(20000, 30000).to_string());
        } else {
            s.extra.insert("config_nest".into(), rng.range(100_000, 120_000).to_string());
        }
    }
    s
}

/// nesting far beyond what anybody writes, by hand or by generator
fn deep(s: &Scenario, root: &str) -> Project {
    let mut p = s.project.clone();
    let n = |k: &str| s.extra.get(k).and_then(|x| x.parse::<usize>().ok());
    if let Some(n) = n("rust_nest") {
        for a in p.arts.iter_mut().filter(|a| a.parser == Parser::Rust) {
            for f in a.files.iter_mut().take(1) {
                let text = match n % 3 {
                    0 => format!("fn f() {}{}", "{".repeat(n), "}".repeat(n)),
                    1 => format!("fn f() {{ {}1{}; }}", "(".repeat(n), ")".repeat(n)),
                    _ => format!("{}{}", "mod m {".repeat(n), "}".repeat(n)),
                };
                f.doc = Doc::Raw(Bytes(text.into_bytes()));
                f.cut = None;
                f.missing = false;
            }
        }
    }
    if let Some(n) = n("config_nest") {
        let text = format!("x = {}{}\n{}", "[".repeat(n), "]".repeat(n), p.config_text(root));
        p.config_raw = Some(Bytes(text.into_bytes()));
    }
    p
}

pub fn is_deep(s: &Scenario) -> bool {
    let n = |k: &str| s.extra.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    n("rust_nest") >= 1000 || n("config_nest") >= 10000
}

fn c08_judge(s: &Scenario, cx: &mut Cx) -> Result<(), Violation> {
    let p = deep(s, &cx.root());
    c08_one(&p, &s.run, cx)?;
    for r in &s.runs {
        let mut r = r.clone();
        r.jobs = s.run.jobs.clone();
        c08_one(&p, &r, cx)?;
    }
    Ok(())
}

fn c08_one(p: &Project, run: &RunSpec, cx: &mut Cx) -> Result<(), Violation> {
    let (o, _) = cx.fresh(p, run);
    if o.hung {
        return violation("endless", format!("{} after {} calls", o.ending(), o.nsteps));
    }
    if let Some(sig) = o.signal {
        return violation("signal", format!("signal {sig}: {}", tail(&o.stderr)));
    }
    match o.code {
        Some(0..=2) => Ok(()),
        c => violation("exit", format!("exit {c:?}: {}", tail(&o.stderr))),
    }
}

fn tail(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(600)).collect()
}
