//! Reading the program's reports back, each format on its own, and comparing them.

use crate::model::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct ArtRep {
    #[allow(dead_code)]
    pub files: Vec<String>,
    pub ignore_derived: bool,
    pub with_title: bool,
    pub reqs: Vec<Req>,
    pub errs: Vec<Err>,
}

#[derive(Clone, Debug)]
pub struct TraceRep {
    pub arts: BTreeMap<String, ArtRep>,
    pub rels: Vec<(Rel, Vec<Cov>, Vec<String>)>,
    pub derived: BTreeMap<String, Vec<String>>,
    pub errs: Vec<Err>,
}

#[derive(Clone, Debug)]
pub struct ParseRep {
    pub reqs: Vec<Req>,
    pub errs: Vec<Err>,
}

fn loc(v: &Value) -> Option<Loc> {
    serde_json::from_value::<Loc>(v.clone()).ok().map(Loc::normed)
}
fn s(v: &Value) -> Option<String> {
    v.as_str().map(str::to_owned)
}
fn rid(v: &Value) -> Option<String> {
    s(&v["id"])
}

pub fn error(v: &Value) -> Err {
    let other = || Err::Other(v.to_string());
    if let Some(k) = v.as_str() {
        return Err::Other(k.to_owned());
    }
    let Some((k, x)) = v.as_object().and_then(|o| o.iter().next()) else {
        return other();
    };
    let r = (|| -> Option<Err> {
        Some(match k.as_str() {
            "Io" => Err::Io(norm(x[0].as_str()?)),
            "Format" => Err::Format(loc(&x[0])?),
            "DuplicateRequirement" => dup(&rid(&x[0])?, &loc(&x[0]["location"])?, &loc(&x[1]["location"])?),
            "DuplicateAttribute" => Err::DuplicateAttribute(loc(&x[0])?, s(&x[1])?, s(&x[2])?),
            "Config" => Err::Config(s(x)?),
            "CoveredWithWrongTitle" => Err::CoveredWithWrongTitle(
                rid(&x["upper"])?,
                rid(&x["lower"])?,
                s(&x["wrong_title"])?,
                loc(&x["location"])?,
            ),
            "DependWithWrongTitle" => Err::DependWithWrongTitle(
                rid(&x["upper"])?,
                rid(&x["lower"])?,
                s(&x["wrong_title"])?,
                loc(&x["location"])?,
            ),
            "ReferencedWithoutTitle" => {
                Err::ReferencedWithoutTitle(rid(&x["referenced"])?, loc(&x["location"])?)
            }
            "RequirementWithoutTitle" => Err::RequirementWithoutTitle(rid(x)?),
            "DependOnUnknownRequirement" => Err::DependOnUnknown(rid(&x[0])?, s(&x[1])?, loc(&x[2])?),
            "CoversUnknownRequirement" => Err::CoversUnknown(rid(&x[0])?, s(&x[1])?, loc(&x[2])?),
            "UnusedRelation" => {
                let r: Rel = serde_json::from_value(x.clone()).ok()?;
                Err::UnusedRelation(r.upper, r.lower)
            }
            _ => return None,
        })
    })();
    r.unwrap_or_else(other)
}

fn errors(v: &Value) -> Result<Vec<Err>, String> {
    Ok(v.as_array().ok_or("no errors")?.iter().map(error).collect())
}

fn req(v: &Value) -> Result<Req, String> {
    serde_json::from_value::<Req>(v.clone())
        .map(Req::normed)
        .map_err(|e| format!("requirement {v}: {e}"))
}

pub fn trace_json(b: &[u8]) -> Result<TraceRep, String> {
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("not JSON: {e}"))?;
    let t = &v["trace"];
    let mut arts = BTreeMap::new();
    for (id, a) in t["artefacts"].as_object().ok_or("no artefacts")? {
        let mut reqs = vec![];
        for (k, r) in a["requirements"].as_object().ok_or("no requirements")? {
            let r = req(r)?;
            if &r.id != k {
                return Err(format!("requirement {} listed as {k}", r.id));
            }
            reqs.push(r);
        }
        if a["id"].as_str() != Some(id) {
            return Err(format!("artefact {id} has id {}", a["id"]));
        }
        arts.insert(
            id.clone(),
            ArtRep {
                files: a["files"]
                    .as_array()
                    .ok_or("no files")?
                    .iter()
                    .filter_map(|f| f.as_str().map(norm))
                    .collect(),
                ignore_derived: a["ignore_derived_requirements"].as_bool().ok_or("flag")?,
                with_title: a["reference_with_title"].as_bool().ok_or("flag")?,
                reqs,
                errs: errors(&a["errors"])?,
            },
        );
    }
    let mut rels = vec![];
    for r in t["traced_relations"].as_array().ok_or("no relations")? {
        let rel: Rel = serde_json::from_value(r.clone()).map_err(|e| e.to_string())?;
        let mut covs = vec![];
        for c in r["covered"].as_array().ok_or("no covered")? {
            covs.push(Cov {
                upper: s(&c["upper"]).ok_or("upper")?,
                lower: s(&c["lower"]).ok_or("lower")?,
                location: loc(&c["location"]).ok_or("location")?,
                upwards: match c["direction"].as_str() {
                    Some("Upwards") => true,
                    Some("Downwards") => false,
                    d => return Err(format!("direction {d:?}")),
                },
            });
        }
        let unc = r["uncovered"]
            .as_array()
            .ok_or("no uncovered")?
            .iter()
            .filter_map(s)
            .collect();
        rels.push((rel, covs, unc));
    }
    let mut derived = BTreeMap::new();
    for (k, d) in t["derived"].as_object().ok_or("no derived")? {
        derived.insert(k.clone(), d.as_array().ok_or("derived")?.iter().filter_map(s).collect());
    }
    Ok(TraceRep {
        arts,
        rels,
        derived,
        errs: errors(&t["errors"])?,
    })
}

pub fn parse_json(b: &[u8]) -> Result<ParseRep, String> {
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("not JSON: {e}"))?;
    let mut reqs = vec![];
    for r in v["requirements"].as_array().ok_or("no requirements")? {
        reqs.push(req(r)?);
    }
    Ok(ParseRep {
        reqs,
        errs: errors(&v["errors"])?,
    })
}

impl TraceRep {
    pub fn model_input(&self) -> (BTreeMap<String, ArtIn>, Vec<Rel>) {
        (
            self.arts
                .iter()
                .map(|(k, a)| {
                    (
                        k.clone(),
                        ArtIn {
                            reqs: a.reqs.clone(),
                            ignore_derived: a.ignore_derived,
                            with_title: a.with_title,
                        },
                    )
                })
                .collect(),
            self.rels.iter().map(|r| r.0.clone()).collect(),
        )
    }
    pub fn ids_unique(&self) -> bool {
        let mut seen = BTreeSet::new();
        self.arts.values().flat_map(|a| &a.reqs).all(|r| seen.insert(&r.id))
            && !self
                .arts
                .values()
                .flat_map(|a| &a.errs)
                .any(|e| matches!(e, Err::DuplicateRequirement(..)))
    }
    pub fn input_errs(&self) -> impl Iterator<Item = &Err> {
        self.arts.values().flat_map(|a| a.errs.iter())
    }
    /// does a Trace job have something to complain about, and a Parse job
    pub fn problems(&self) -> (bool, bool) {
        let parse = self.input_errs().next().is_some();
        let trace = parse
            || !self.errs.is_empty()
            || self.rels.iter().any(|r| !r.2.is_empty())
            || self.derived.values().any(|d| !d.is_empty());
        (trace, parse)
    }
}

// ---------------------------------------------------------------- text reports

/// does the text name exactly this path (or path and position)
pub fn names(text: &str, what: &str) -> bool {
    let mut from = 0;
    while let Some(p) = text[from..].find(what) {
        let at = from + p;
        let before = &text[..at];
        let stem = before.strip_suffix("./").unwrap_or(before);
        let ok_before = |s: &str| s.is_empty() || s.ends_with([' ', '[', '(', '\n', '"', '`']);
        let after = text[at + what.len()..].chars().next();
        let ok_after = !after.map_or(false, |c| c.is_alphanumeric() || c == '_');
        if (ok_before(before) || ok_before(stem)) && ok_after {
            return true;
        }
        from = at + what.chars().next().map_or(1, char::len_utf8);
    }
    false
}

fn has_loc(text: &str, l: &Loc) -> bool {
    match &l.location_in_file {
        Some(Pos::String(s)) => names(text, &l.file) && text.contains(s.as_str()),
        _ => names(text, &l.text()) && link_agrees(text, l),
    }
}

/// a link at a location with a line leads to this line, as far as it says
fn link_agrees(text: &str, l: &Loc) -> bool {
    let line = match &l.location_in_file {
        Some(Pos::Line(n) | Pos::LineAndColumn(n, _)) => n.to_string(),
        _ => return true,
    };
    let head = format!("{}](", l.text());
    text.match_indices(&head).all(|(i, _)| {
        let target = text[i + head.len()..].split(')').next().unwrap_or("");
        match target.rsplit_once("#L") {
            Some((_, n)) => n.chars().take_while(char::is_ascii_digit).collect::<String>() == line,
            None => true,
        }
    })
}

/// does this piece of a text report state this error
pub fn states(text: &str, e: &Err, gnu: bool) -> bool {
    let q = |t: &str| if gnu { format!("{t:?}") } else { t.to_owned() };
    match e {
        Err::Io(p) => names(text, p) && text.contains("IO Error"),
        Err::Format(l) => has_loc(text, l),
        Err::DuplicateAttribute(l, a, id) => {
            has_loc(text, l) && text.contains(a.as_str()) && text.contains(id.as_str()) && text.to_lowercase().contains("duplicate attribute")
        }
        Err::DuplicateRequirement(id, a, b) => {
            text.contains(id.as_str()) && has_loc(text, a) && has_loc(text, b) && text.contains("Duplicate Requirement")
        }
        Err::CoveredWithWrongTitle(u, l, t, at) => {
            text.contains(u.as_str()) && (gnu || text.contains(l.as_str())) && text.contains(&q(t)) && has_loc(text, at) && text.contains("covered with wrong title")
        }
        Err::DependWithWrongTitle(u, l, t, at) => {
            (gnu || text.contains(u.as_str())) && text.contains(l.as_str()) && text.contains(&q(t)) && has_loc(text, at) && text.contains("depended")
        }
        Err::ReferencedWithoutTitle(id, at) => {
            text.contains(id.as_str()) && has_loc(text, at) && (text.contains("without title") || text.contains("with title"))
        }
        Err::RequirementWithoutTitle(id) => text.contains(id.as_str()) && text.contains("without title"),
        Err::DependOnUnknown(r, id, at) => {
            text.contains(r.as_str()) && text.contains(&format!("unknown {}equirement {id}", if gnu { 'r' } else { 'R' })) && has_loc(text, at) && text.to_lowercase().contains("depends")
        }
        Err::CoversUnknown(r, id, at) => {
            text.contains(r.as_str()) && text.contains(&format!("unknown {}equirement {id}", if gnu { 'r' } else { 'R' })) && has_loc(text, at) && text.to_lowercase().contains("covers")
        }
        Err::UnusedRelation(u, l) => {
            if gnu {
                text.contains("UnusedRelation") && text.contains(&format!("{u:?}")) && l.iter().all(|x| text.contains(&format!("{x:?}")))
            } else {
                text.contains(&format!("{u} => [{}]", l.join(", ")))
            }
        }
        Err::Config(t) => {
            let t = if gnu { format!("{t:?}") } else { t.clone() };
            text.contains(&t) && (text.contains("Config") || text.contains("config"))
        }
        Err::Other(_) => true,
    }
}

#[derive(Clone, Debug, Default)]
pub struct TextTrace {
    pub input_errs: Vec<String>,
    pub trace_errs: Vec<String>,
    /// relation text, ids
    pub uncovered: BTreeMap<String, Vec<String>>,
    pub derived: BTreeMap<String, Vec<String>>,
    /// Markdown: artefact and text of each requirement's entry
    pub entries: Vec<(String, String)>,
}

/// id of `*   [ID](#...`
fn link_id(l: &str) -> Option<String> {
    let r = l.trim_start().strip_prefix("*   [")?;
    let e = r.find("](#")?;
    Some(r[..e].to_owned())
}

pub fn trace_md(text: &str) -> Result<TextTrace, String> {
    let mut t = TextTrace::default();
    let mut section = "";
    let mut group = String::new();
    for l in text.lines() {
        match l {
            "# Input Errors" | "# Tracing Errors" | "# Uncovered Requirements" | "# Derived Requirements"
            | "# Requirements"
                if section != "# Requirements" =>
            {
                section = l;
                group.clear();
                continue;
            }
            _ => {}
        }
        if section == "# Requirements" {
            if let Some(id) = l.strip_prefix("## ") {
                group = id.to_owned();
            } else if l.starts_with("### ") {
                t.entries.push((group.clone(), format!("{l}\n")));
            } else if let Some(e) = t.entries.last_mut() {
                e.1.push_str(l);
                e.1.push('\n');
            } else if !l.is_empty() {
                return Err(format!("text outside of an entry: {l}"));
            }
            continue;
        }
        if l.is_empty() {
            continue;
        }
        if let Some(g) = l.strip_prefix("## ") {
            group = g.to_owned();
            continue;
        }
        match section {
            "# Input Errors" | "# Tracing Errors" => {
                let v = if section == "# Input Errors" {
                    &mut t.input_errs
                } else {
                    &mut t.trace_errs
                };
                if l.starts_with("*   ") || v.is_empty() {
                    v.push(l.to_owned());
                } else {
                    let e = v.last_mut().unwrap();
                    e.push('\n');
                    e.push_str(l);
                }
            }
            "# Uncovered Requirements" | "# Derived Requirements" => {
                let id = link_id(l).ok_or_else(|| format!("unexpected line {l:?} in {section}"))?;
                let m = if section == "# Uncovered Requirements" {
                    &mut t.uncovered
                } else {
                    &mut t.derived
                };
                m.entry(group.clone()).or_default().push(id);
            }
            _ => return Err(format!("text outside of a section: {l}")),
        }
    }
    if section != "# Requirements" {
        return Err("no Requirements section".into());
    }
    Ok(t)
}

/// errors and requirement entries
pub fn parse_md(text: &str) -> Result<TextTrace, String> {
    let mut t = TextTrace::default();
    let mut in_errs = false;
    for l in text.lines() {
        if l == "# Input Errors" && t.entries.is_empty() {
            in_errs = true;
            continue;
        }
        if l.starts_with("### ") {
            in_errs = false;
            t.entries.push((String::new(), format!("{l}\n")));
        } else if let Some(e) = t.entries.last_mut() {
            e.1.push_str(l);
            e.1.push('\n');
        } else if in_errs {
            if l.is_empty() || l.starts_with("## ") {
                continue;
            }
            if l.starts_with("*   ") || t.input_errs.is_empty() {
                t.input_errs.push(l.to_owned());
            } else {
                let e = t.input_errs.last_mut().unwrap();
                e.push('\n');
                e.push_str(l);
            }
        } else if !l.is_empty() {
            return Err(format!("text outside of a section: {l}"));
        }
    }
    Ok(t)
}

pub fn trace_gnu(text: &str) -> Result<TextTrace, String> {
    let mut t = TextTrace::default();
    let mut section = 0;
    let mut group = String::new();
    for l in text.lines() {
        let next = match l {
            "# Parsing Errors" => 1,
            "# Tracing Errors" => 2,
            "# Uncovered Requirement" => 3,
            "Derived Requirement" => 4,
            _ => 0,
        };
        if next != 0 {
            if next != section + 1 {
                return Err(format!("section {l:?} out of place"));
            }
            section = next;
            continue;
        }
        if let (Some(g), true) = (l.strip_prefix("## "), section > 2) {
            group = g.to_owned();
            if section == 3 {
                t.uncovered.entry(group.clone()).or_default();
            } else {
                t.derived.entry(group.clone()).or_default();
            }
            continue;
        }
        match section {
            1 | 2 => {
                let v = if section == 1 {
                    &mut t.input_errs
                } else {
                    &mut t.trace_errs
                };
                if l.contains(": note: ") && !v.is_empty() {
                    let e = v.last_mut().unwrap();
                    e.push('\n');
                    e.push_str(l);
                } else {
                    v.push(l.to_owned());
                }
            }
            3 => {
                let x = l.strip_suffix(" Uncovered").ok_or_else(|| format!("unexpected line {l:?}"))?;
                t.uncovered
                    .entry(group.clone())
                    .or_default()
                    .push(x.strip_prefix("./").unwrap_or(x).to_owned());
            }
            4 => {
                let x = l.strip_suffix(" Derived").ok_or_else(|| format!("unexpected line {l:?}"))?;
                t.derived
                    .entry(group.clone())
                    .or_default()
                    .push(x.strip_prefix("./").unwrap_or(x).to_owned());
            }
            _ => return Err(format!("text outside of a section: {l}")),
        }
    }
    if section != 4 {
        return Err("sections missing".into());
    }
    Ok(t)
}

/// (id, file, line)
pub fn tags(text: &str) -> Result<Vec<(String, String, u64)>, String> {
    let mut v = vec![];
    let mut last: Option<&str> = None;
    for l in text.lines() {
        if l.starts_with("!_TAG_") {
            if !v.is_empty() {
                return Err("header after tags".into());
            }
            continue;
        }
        if let Some(p) = last {
            if p > l {
                return Err(format!("not sorted: {p:?} before {l:?}"));
            }
        }
        last = Some(l);
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() != 4 {
            return Err(format!("tag line {l:?}"));
        }
        let n = f[2].trim_end_matches(";\"").parse().map_err(|_| format!("tag line {l:?}"))?;
        v.push((f[0].to_owned(), norm(f[1]), n));
    }
    if !text.contains("!_TAG_FILE_SORTED\t1") {
        return Err("no header".into());
    }
    Ok(v)
}

// ---------------------------------------------------------------- agreement

/// every error is stated, and nothing else is
pub fn same_errors(pieces: &[String], errs: &[&Err], gnu: bool, counted: bool) -> Result<(), String> {
    for e in errs {
        if !pieces.iter().any(|p| states(p, e, gnu)) {
            return Err(format!("{e:?} is not stated in {pieces:?}"));
        }
    }
    for p in pieces {
        if !errs.iter().any(|e| states(p, e, gnu)) {
            return Err(format!("{p:?} is none of {errs:?}"));
        }
    }
    if counted && pieces.len() != errs.len() {
        return Err(format!("{} errors stated, {} found", pieces.len(), errs.len()));
    }
    Ok(())
}

fn rel_text(r: &Rel) -> String {
    format!("{} => [{}]", r.upper, r.lower.join(", "))
}

fn sorted(v: impl IntoIterator<Item = String>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().collect();
    v.sort();
    v
}

/// merge lists of relations that are written the same way
fn by_text(t: impl IntoIterator<Item = (String, Vec<String>)>) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in t {
        m.entry(k).or_default().extend(v);
    }
    for v in m.values_mut() {
        v.sort();
    }
    m.retain(|_, v| !v.is_empty());
    m
}

fn entry_basics(text: &str, r: &Req, art: Option<&str>, parse: bool) -> Result<(), String> {
    let head = match &r.title {
        Some(t) => format!("### {}: {t}\n", r.id),
        None if parse => format!("### {}: \n", r.id),
        None => format!("### {}\n", r.id),
    };
    if !text.starts_with(&head) {
        return Err(format!("expected heading {head:?} in {text:?}"));
    }
    let origin = text
        .lines()
        .find(|l| l.starts_with("Origin: "))
        .ok_or_else(|| format!("no origin in {text:?}"))?;
    if let Some(a) = art {
        if !origin.starts_with(&format!("Origin: {a}, ")) {
            return Err(format!("origin {origin:?} is not {a}"));
        }
    }
    if !has_loc(origin, &r.location) {
        return Err(format!("origin {origin:?} is not {:?}", r.location));
    }
    for (k, v) in &r.attributes {
        let v = v.trim();
        if v.is_empty() {
            continue;
        }
        let block = if k == "Description" { v.to_owned() } else { format!("\n{k}:\n{v}\n") };
        if !text.contains(&block) {
            return Err(format!("attribute {k} of {} is not in {text:?}", r.id));
        }
    }
    if parse {
        for (name, refs) in [("Covers", &r.covers), ("Depends", &r.depends)] {
            let mut block = format!("\n{name}:\n");
            for x in refs {
                match &x.title {
                    Some(t) => block.push_str(&format!("*   {}: {t}\n", x.id)),
                    None => block.push_str(&format!("*   {}\n", x.id)),
                }
            }
            if !refs.is_empty() && !text.contains(&block) {
                return Err(format!("{name} of {} is not in {text:?}", r.id));
            }
        }
    }
    Ok(())
}

/// (relation, id, location line) lists of one direction of an entry
fn links(text: &str, from: &str, to: &str) -> Vec<(String, String, String)> {
    let mut v: Vec<(String, String, String)> = vec![];
    let Some(p) = text.rfind(from) else { return v };
    let rest = &text[p + from.len()..];
    let rest = match rest.find(to) {
        Some(e) if !to.is_empty() => &rest[..e],
        _ => rest,
    };
    let mut rel = String::new();
    for l in rest.lines() {
        if let Some(r) = l.strip_prefix("*   ") {
            rel = r.to_owned();
        } else if let Some(r) = l.strip_prefix("        Reference: ") {
            if let Some(x) = v.last_mut() {
                x.2 = r.to_owned();
            }
        } else if l.starts_with("    *   [") {
            if let Some(id) = link_id(l) {
                v.push((rel.clone(), id, String::new()));
            }
        } else if l.starts_with("    *    UNCOVERED") {
            v.push((rel.clone(), "UNCOVERED".into(), String::new()));
        } else if l.starts_with("    *   Derived") {
            v.push((rel.clone(), "DERIVED".into(), String::new()));
        }
    }
    v
}

pub fn agree_trace_md(j: &TraceRep, text: &str) -> Result<(), String> {
    let m = trace_md(text)?;
    let ie: Vec<&Err> = j.input_errs().collect();
    same_errors(&m.input_errs, &ie, false, true).map_err(|e| format!("input errors: {e}"))?;
    let te: Vec<&Err> = j.errs.iter().collect();
    same_errors(&m.trace_errs, &te, false, false).map_err(|e| format!("tracing errors: {e}"))?;
    let unc = by_text(j.rels.iter().map(|r| (rel_text(&r.0), r.2.clone())));
    if by_text(m.uncovered.clone()) != unc {
        return Err(format!("uncovered: {:?}, expected {unc:?}", m.uncovered));
    }
    let der = by_text(j.derived.clone());
    if by_text(m.derived.clone()) != der {
        return Err(format!("derived: {:?}, expected {der:?}", m.derived));
    }
    let mut want: Vec<(String, &Req)> = vec![];
    for (a, x) in &j.arts {
        for r in &x.reqs {
            want.push((a.clone(), r));
        }
    }
    if want.len() != m.entries.len() {
        return Err(format!("{} requirement entries, expected {}", m.entries.len(), want.len()));
    }
    // of requirements with one id in several artefacts any one may be shown
    let mut times: BTreeMap<String, usize> = BTreeMap::new();
    for (_, r) in &want {
        *times.entry(r.id.clone()).or_default() += 1;
    }
    for (a, r) in want {
        if times[&r.id] > 1 {
            let begins = |t: &str| t.starts_with(&format!("### {}\n", r.id)) || t.starts_with(&format!("### {}: ", r.id));
            if !m.entries.iter().any(|(g, t)| *g == a && begins(t)) {
                return Err(format!("no entry for {} in {a}", r.id));
            }
            continue;
        }
        let head = match &r.title {
            Some(t) => format!("### {}: {t}\n", r.id),
            None => format!("### {}\n", r.id),
        };
        let Some((_, text)) = m.entries.iter().find(|(g, t)| *g == a && t.starts_with(&head)) else {
            return Err(format!("no entry {head:?} in {a}"));
        };
        entry_basics(text, r, Some(&a), false)?;
        let up = links(text, "\nUpwards Tracing:\n", "\nDownwards Tracing:\n");
        let down = links(text, "\nDownwards Tracing:\n", "");
        let mut want_up: Vec<(String, String, Loc)> = vec![];
        let mut want_down: Vec<(String, String, Loc)> = vec![];
        let mut want_unc = BTreeSet::new();
        for (rel, covs, unc) in &j.rels {
            for c in covs {
                if c.lower == r.id && rel.lower.contains(&a) {
                    want_up.push((rel_text(rel), c.upper.clone(), c.location.clone()));
                }
                if c.upper == r.id && rel.upper == a {
                    want_down.push((rel_text(rel), c.lower.clone(), c.location.clone()));
                }
            }
            if unc.contains(&r.id) && rel.upper == a {
                want_unc.insert(rel_text(rel));
            }
        }
        let got_up: Vec<_> = up.iter().filter(|x| x.1 != "DERIVED").collect();
        let got_down: Vec<_> = down.iter().filter(|x| x.1 != "UNCOVERED").collect();
        for (dir, got, want) in [("upwards", got_up, &want_up), ("downwards", got_down, &want_down)] {
            if got.len() != want.len() {
                return Err(format!("{} {dir}: {got:?}, expected {want:?}", r.id));
            }
            for (rel, id, l) in want {
                if !got.iter().any(|g| g.0 == *rel && g.1 == *id && has_loc(&g.2, l)) {
                    return Err(format!("{} {dir}: {rel} {id} {l:?} is not in {got:?}", r.id));
                }
            }
        }
        if up.iter().any(|x| x.1 == "DERIVED") != want_up.is_empty() {
            return Err(format!("{}: shown as derived: {up:?}", r.id));
        }
        let got_unc: BTreeSet<String> = down
            .iter()
            .filter(|x| x.1 == "UNCOVERED")
            .map(|x| x.0.clone())
            .collect();
        if got_unc != want_unc {
            return Err(format!("{}: shown as uncovered in {got_unc:?}, expected {want_unc:?}", r.id));
        }
    }
    Ok(())
}

pub fn agree_trace_gnu(j: &TraceRep, text: &str) -> Result<(), String> {
    let m = trace_gnu(text)?;
    let ie: Vec<&Err> = j.input_errs().collect();
    same_errors(&m.input_errs, &ie, true, true).map_err(|e| format!("input errors: {e}"))?;
    let te: Vec<&Err> = j.errs.iter().collect();
    same_errors(&m.trace_errs, &te, true, false).map_err(|e| format!("tracing errors: {e}"))?;
    let line = |a: &str, id: &String| -> String {
        j.arts[a]
            .reqs
            .iter()
            .find(|r| r.id == *id)
            .map_or_else(|| format!("?: {id}"), |r| format!("{}: {id}", r.location.text()))
    };
    let unc = by_text(
        j.rels
            .iter()
            .map(|r| (rel_text(&r.0), r.2.iter().map(|id| line(&r.0.upper, id)).collect())),
    );
    if by_text(m.uncovered.clone()) != unc {
        return Err(format!("uncovered: {:?}, expected {unc:?}", m.uncovered));
    }
    let der = by_text(
        j.derived
            .iter()
            .map(|(a, v)| (a.clone(), v.iter().map(|id| line(a, id)).collect())),
    );
    if by_text(m.derived.clone()) != der {
        return Err(format!("derived: {:?}, expected {der:?}", m.derived));
    }
    Ok(())
}

pub fn agree_parse_json(j: &TraceRep, p: &ParseRep) -> Result<(), String> {
    let mut a: Vec<&Req> = j.arts.values().flat_map(|x| &x.reqs).collect();
    let mut b: Vec<&Req> = p.reqs.iter().collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("requirements differ: {}", diff(&a, &b)));
    }
    let mut a: Vec<&Err> = j.input_errs().collect();
    let mut b: Vec<&Err> = p.errs.iter().collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("errors {b:?}, expected {a:?}"));
    }
    Ok(())
}

pub fn agree_parse_md(p: &ParseRep, text: &str) -> Result<(), String> {
    let m = parse_md(text)?;
    let ie: Vec<&Err> = p.errs.iter().collect();
    same_errors(&m.input_errs, &ie, false, true).map_err(|e| format!("input errors: {e}"))?;
    if m.entries.len() != p.reqs.len() {
        return Err(format!("{} requirement entries, expected {}", m.entries.len(), p.reqs.len()));
    }
    for r in &p.reqs {
        let mut last = Err(format!("no entry for {}", r.id));
        for (_, t) in &m.entries {
            if t.starts_with(&format!("### {}: ", r.id)) {
                last = entry_basics(t, r, None, true);
                if last.is_ok() {
                    break;
                }
            }
        }
        last?;
    }
    Ok(())
}

pub fn agree_tags(p: &ParseRep, text: &str) -> Result<(), String> {
    let mut got = tags(text)?;
    let mut want: Vec<(String, String, u64)> = p
        .reqs
        .iter()
        .filter_map(|r| r.location.line_no().map(|n| (r.id.clone(), r.location.file.clone(), n)))
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("tags {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn diff<T: std::fmt::Debug + PartialEq>(a: &[T], b: &[T]) -> String {
    let only_a: Vec<&T> = a.iter().filter(|x| !b.contains(x)).collect();
    let only_b: Vec<&T> = b.iter().filter(|x| !a.contains(x)).collect();
    format!("only first: {only_a:?}; only second: {only_b:?} ({} / {})", a.len(), b.len())
}

/// Is what the JSON report says about tracing what follows from its requirements
pub fn coverage_exact(j: &TraceRep) -> Result<(), String> {
    let (arts, rels) = j.model_input();
    let m = trace(&arts, &rels);
    for ((rel, covs, unc), (_, mc, mu)) in j.rels.iter().zip(&m.relations) {
        let got: BTreeSet<Cov> = covs.iter().cloned().collect();
        if &got != mc {
            let a: Vec<&Cov> = got.iter().collect();
            let b: Vec<&Cov> = mc.iter().collect();
            return Err(format!("covered along {}: {}", rel_text(rel), diff(&a, &b)));
        }
        if sorted(unc.clone()) != sorted(mu.iter().cloned()) {
            return Err(format!("uncovered along {}: {unc:?}, expected {mu:?}", rel_text(rel)));
        }
    }
    for (a, d) in &m.derived {
        let got = j.derived.get(a).cloned().unwrap_or_default();
        if sorted(got.clone()) != sorted(d.iter().cloned()) {
            return Err(format!("derived in {a}: {got:?}, expected {d:?}"));
        }
    }
    if j.derived.keys().any(|k| !m.derived.contains_key(k)) {
        return Err("derived for an unknown artefact".into());
    }
    Ok(())
}

pub fn references_exact(j: &TraceRep) -> Result<(), String> {
    let (arts, rels) = j.model_input();
    let m = trace(&arts, &rels);
    let mut known: BTreeSet<Err> = BTreeSet::new();
    let mut unknown: BTreeSet<(bool, String, String)> = BTreeSet::new();
    for e in &j.errs {
        match e {
            Err::CoversUnknown(r, id, l) | Err::DependOnUnknown(r, id, l) => {
                let up = matches!(e, Err::CoversUnknown(..));
                let key = (up, r.clone(), id.clone());
                match m.unknown.get(&key) {
                    None => return Err(format!("{e:?} is reported, but the reference is fine or not made")),
                    Some(ls) if !ls.contains(l) => {
                        return Err(format!("{e:?}: the reference is made at {ls:?}"))
                    }
                    _ => {}
                }
                unknown.insert(key);
            }
            e => {
                known.insert(e.clone());
            }
        }
    }
    for k in m.unknown.keys() {
        if !unknown.contains(k) {
            return Err(format!(
                "{} {} unknown {} is not reported",
                k.1,
                if k.0 { "covers" } else { "depends on" },
                k.2
            ));
        }
    }
    if known != m.errors {
        let a: Vec<&Err> = known.iter().collect();
        let b: Vec<&Err> = m.errors.iter().collect();
        return Err(format!("tracing errors, reported and expected: {}", diff(&a, &b)));
    }
    for (id, a) in &j.arts {
        let got: BTreeSet<String> = a
            .errs
            .iter()
            .filter_map(|e| match e {
                Err::RequirementWithoutTitle(r) => Some(r.clone()),
                _ => None,
            })
            .collect();
        let want: BTreeSet<String> = if a.with_title {
            a.reqs.iter().filter(|r| r.title.is_none()).map(|r| r.id.clone()).collect()
        } else {
            BTreeSet::new()
        };
        if got != want {
            return Err(format!("requirements without title in {id}: {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}
