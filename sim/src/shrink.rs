//! Smaller variants of a scenario.

use crate::engine::{Op, Scenario};
use crate::project::{Doc, FileSpec, RsNode};
use crate::world::{Bytes, Knobs, RunSpec};

pub fn runs_mut(s: &mut Scenario) -> Vec<&mut RunSpec> {
    let mut v = vec![&mut s.run];
    v.extend(s.runs.iter_mut());
    for o in s.ops.iter_mut() {
        if let Op::Run(r) = o {
            v.push(r);
        }
    }
    v
}

fn pieces(n: usize) -> Vec<(usize, usize)> {
    // halves, quarters, ..., single ones
    let mut v = vec![];
    let mut size = n;
    while size > 0 {
        let mut at = 0;
        while at < n {
            let end = (at + size).min(n);
            if !(at == 0 && end == n && n > 1 && size == n) || n == 1 {
                v.push((at, end));
            }
            at += size;
        }
        if v.len() > if n > 10_000 { 16 } else { 128 } {
            break;
        }
        size /= 2;
    }
    v
}

fn file_variants(f: &FileSpec) -> Vec<FileSpec> {
    let mut v = vec![];
    let with = |doc: Doc| FileSpec { doc, ..f.clone() };
    if f.cut.is_some() {
        let mut x = f.clone();
        x.cut = None;
        v.push(x);
    }
    if !f.smash.is_empty() {
        let mut x = f.clone();
        x.smash.clear();
        v.push(x);
    }
    if f.link {
        let mut x = f.clone();
        x.link = false;
        v.push(x);
    }
    match &f.doc {
        Doc::Text(b) => {
            for (s, e) in pieces(b.len()) {
                let mut c = b.clone();
                c.drain(s..e);
                v.push(with(Doc::Text(c)));
            }
            if b.len() <= 6 {
                for (i, blk) in b.iter().enumerate() {
                    let lines: Vec<&str> = blk.split_inclusive('\n').collect();
                    if lines.len() > 1 {
                        for (s, e) in pieces(lines.len()) {
                            let mut l = lines.clone();
                            l.drain(s..e);
                            let mut c = b.clone();
                            c[i] = l.concat();
                            v.push(with(Doc::Text(c)));
                        }
                    }
                    // shorter lines
                    for (k, l) in lines.iter().enumerate() {
                        if l.chars().count() > 40 {
                            let mut ls: Vec<String> = lines.iter().map(|l| (*l).to_owned()).collect();
                            let n = l.chars().count();
                            ls[k] = l.chars().take(n / 2).collect::<String>() + "\n";
                            let mut c = b.clone();
                            c[i] = ls.concat();
                            v.push(with(Doc::Text(c)));
                        }
                    }
                }
            }
        }
        Doc::Json(j, pretty) => {
            for (s, e) in pieces(j.len()) {
                let mut c = j.clone();
                c.drain(s..e);
                v.push(with(Doc::Json(c, *pretty)));
            }
            if j.len() <= 6 {
                for (i, r) in j.iter().enumerate() {
                    for key in ["covers", "depends", "tags"] {
                        let n = r[key].as_array().map_or(0, Vec::len);
                        for k in 0..n {
                            let mut c = j.clone();
                            c[i][key].as_array_mut().unwrap().remove(k);
                            v.push(with(Doc::Json(c, *pretty)));
                        }
                    }
                    if r["attributes"].as_object().map_or(false, |o| !o.is_empty()) {
                        let mut c = j.clone();
                        c[i]["attributes"] = serde_json::json!({});
                        v.push(with(Doc::Json(c, *pretty)));
                    }
                }
            }
        }
        Doc::Rust(n) => {
            for c in node_lists(n) {
                v.push(with(Doc::Rust(c)));
            }
        }
        Doc::Raw(b) => {
            for (s, e) in pieces(b.0.len()).into_iter().take(200) {
                let mut c = b.0.clone();
                c.drain(s..e);
                v.push(with(Doc::Raw(Bytes(c))));
            }
        }
    }
    v
}

fn node_lists(n: &[RsNode]) -> Vec<Vec<RsNode>> {
    let mut v = vec![];
    for (s, e) in pieces(n.len()) {
        let mut c = n.to_vec();
        c.drain(s..e);
        v.push(c);
    }
    if n.len() <= 8 {
        for (i, x) in n.iter().enumerate() {
            for k in 0..x.marks.len() {
                let mut c = n.to_vec();
                c[i].marks.remove(k);
                v.push(c);
            }
            for ch in node_lists(&x.children) {
                let mut c = n.to_vec();
                c[i].children = ch;
                v.push(c);
            }
        }
    }
    v
}

pub fn candidates(s: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    let add = |v: &mut Vec<Scenario>, f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s {
            v.push(c);
        }
    };
    // history
    for (a, b) in pieces(s.ops.len()) {
        add(&mut v, &|c| {
            c.ops.drain(a..b);
        });
    }
    for (a, b) in pieces(s.runs.len()) {
        add(&mut v, &|c| {
            c.runs.drain(a..b);
        });
    }
    if s.property == "C22" && s.runs.len() > 1 {
        add(&mut v, &|c| c.run = c.runs.remove(0));
    }
    // schedules: fewer, and turns only where they matter
    if let Some(t) = s.extra.get("turns") {
        let list: Vec<&str> = t.split(';').collect();
        let put = |v: &mut Vec<Scenario>, x: String| {
            let mut c = s.clone();
            c.extra.insert("turns".into(), x);
            if c != *s {
                v.push(c);
            }
        };
        if list.len() > 1 {
            for x in &list {
                put(&mut v, (*x).to_owned());
            }
        } else if let Some(t) = crate::world::Turns::parse(t) {
            let span = t.to - t.from;
            if t.to == u32::MAX {
                for k in 3..20 {
                    put(&mut v, crate::world::Turns { to: t.from + (1 << k), ..t }.to_string());
                }
            } else {
                for d in [span / 2, span / 4, span / 16, span.min(1)] {
                    put(&mut v, crate::world::Turns { to: t.to - d, ..t }.to_string());
                    put(&mut v, crate::world::Turns { from: t.from + d, ..t }.to_string());
                }
            }
            for stay in [990, 900, 500] {
                if stay > t.stay {
                    put(&mut v, crate::world::Turns { stay, ..t }.to_string());
                }
            }
        }
    }
    // artefacts
    for i in 0..s.project.arts.len() {
        add(&mut v, &|c| {
            let a = c.project.arts.remove(i);
            for r in c.project.rels.iter_mut() {
                r.lower.retain(|l| *l != a.id);
            }
            c.project.rels.retain(|r| r.upper != a.id && !r.lower.is_empty());
            c.ops.retain(|o| !matches!(o, Op::Edit { art, .. } if *art == i));
            for o in c.ops.iter_mut() {
                if let Op::Edit { art, .. } = o {
                    if *art > i {
                        *art -= 1;
                    }
                }
            }
        });
    }
    for i in 0..s.project.rels.len() {
        add(&mut v, &|c| {
            c.project.rels.remove(i);
        });
        if s.project.rels[i].lower.len() > 1 {
            for k in 0..s.project.rels[i].lower.len() {
                add(&mut v, &|c| {
                    c.project.rels[i].lower.remove(k);
                });
            }
        }
    }
    // what is disturbed
    let mut probe = s.clone();
    let n = runs_mut(&mut probe).len();
    for i in 0..n {
        let r = {
            let mut p = s.clone();
            let r = runs_mut(&mut p)[i].clone();
            r
        };
        for k in 0..r.faults.len() {
            add(&mut v, &|c| {
                runs_mut(c)[i].faults.remove(k);
            });
        }
        for k in 0..r.edits.len() {
            add(&mut v, &|c| {
                runs_mut(c)[i].edits.remove(k);
            });
        }
        if r.knobs != Knobs::default() {
            add(&mut v, &|c| runs_mut(c)[i].knobs = Knobs::default());
            add(&mut v, &|c| runs_mut(c)[i].knobs.shortr = (0, 0));
            add(&mut v, &|c| runs_mut(c)[i].knobs.shortw = (0, 0));
            add(&mut v, &|c| runs_mut(c)[i].knobs.eintr = 0);
            add(&mut v, &|c| runs_mut(c)[i].knobs.clock = 0);
            add(&mut v, &|c| runs_mut(c)[i].knobs.dirshuf = false);
            add(&mut v, &|c| runs_mut(c)[i].knobs.mtime = false);
        }
        add(&mut v, &|c| runs_mut(c)[i].env.clear());
        if r.log.is_some() {
            add(&mut v, &|c| runs_mut(c)[i].log = Some("off".into()));
        }
        if matches!(s.property.as_str(), "C03" | "C04" | "C05" | "C08" | "C09" | "C10" | "C22") && r.jobs.len() > 1 {
            for k in 0..r.jobs.len() {
                add(&mut v, &|c| {
                    runs_mut(c)[i].jobs.remove(k);
                });
            }
        }
    }
    // inputs
    for a in 0..s.project.arts.len() {
        if s.project.arts[a].files.len() > 1 && !s.ops.iter().any(|o| matches!(o, Op::Edit { .. })) {
            for (from, to) in pieces(s.project.arts[a].files.len()) {
                add(&mut v, &|c| {
                    for x in c.project.arts[a].files.drain(from..to).collect::<Vec<_>>() {
                        if c.project.arts[a].paths.len() > 1 {
                            c.project.arts[a].paths.retain(|p| *p != x.path);
                        }
                    }
                });
            }
        }
        if s.project.arts[a].files.len() > 100 {
            continue;
        }
        for f in 0..s.project.arts[a].files.len() {
            for x in file_variants(&s.project.arts[a].files[f]) {
                let mut c = s.clone();
                c.project.arts[a].files[f] = x;
                v.push(c);
            }
        }
    }
    for (i, o) in s.ops.iter().enumerate() {
        if let Op::Edit { spec, .. } = o {
            for x in file_variants(spec) {
                let mut c = s.clone();
                if let Op::Edit { spec, .. } = &mut c.ops[i] {
                    *spec = x;
                }
                v.push(c);
            }
        }
    }
    if let Some(b) = &s.project.config_raw {
        if let Ok(t) = std::str::from_utf8(&b.0) {
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            for (x, y) in pieces(lines.len()) {
                let mut l = lines.clone();
                l.drain(x..y);
                let mut c = s.clone();
                c.project.config_raw = Some(Bytes(l.concat().into_bytes()));
                v.push(c);
            }
        }
    }
    // surroundings
    add(&mut v, &|c| c.project.decoys.clear());
    if s.project.base != "proj" {
        let old = format!("{}/", s.project.base);
        let base = s.project.base.clone();
        add(&mut v, &|c| {
            let to = |p: &mut String| {
                if let Some(r) = p.strip_prefix(&old) {
                    *p = format!("proj/{r}");
                } else if *p == base {
                    *p = "proj".into();
                }
            };
            c.project.base = "proj".into();
            for r in runs_mut(c) {
                for f in r.faults.iter_mut() {
                    to(&mut f.path);
                }
                for e in r.edits.iter_mut() {
                    to(&mut e.path);
                    to(&mut e.dst);
                }
            }
            for o in c.ops.iter_mut() {
                match o {
                    Op::Put { path, .. } | Op::Tear { path, .. } | Op::Remove { path } | Op::Touch { path, .. } => to(path),
                    _ => {}
                }
            }
        });
    }
    if s.project.invoke != 0 {
        add(&mut v, &|c| c.project.invoke = 0);
    }
    if let Some(conf) = &s.project.config {
        if *conf != format!("{}/requirements.toml", s.project.base) {
            add(&mut v, &|c| {
                let from = c.project.config_path();
                c.project.config = None;
                let to = c.project.config_path();
                c.project.decoys.remove(&to);
                for f in runs_mut(c).into_iter().flat_map(|r| r.faults.iter_mut()) {
                    if f.path == from {
                        f.path = to.clone();
                    }
                }
            });
        }
    }
    add(&mut v, &|c| c.project.version = None);
    add(&mut v, &|c| c.project.spell = 0);
    for bit in 0..11 {
        add(&mut v, &|c| c.project.spell &= !(1 << bit));
    }
    for a in 0..s.project.arts.len() {
        add(&mut v, &|c| c.project.arts[a].ignore_derived = None);
        add(&mut v, &|c| c.project.arts[a].with_title = None);
    }
    // one file on the disk cannot be two
    v.retain(|c| {
        let mut seen: std::collections::BTreeMap<String, (Vec<u8>, bool)> = Default::default();
        c.project.files().all(|(_, f)| {
            let d = c.project.on_disk(&f.path);
            let x = (f.bytes(), f.missing);
            match seen.get(&d) {
                Some(y) => *y == x,
                None => {
                    seen.insert(d, x);
                    true
                }
            }
        })
    });
    v
}
