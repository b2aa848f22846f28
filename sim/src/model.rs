//! The reference: what the inputs say, and what follows from it.
//! Requirements, locations and errors as data; parsers for the three text formats; the tracing
//! rules.

use regex::Regex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Pos {
    Line(u64),
    LineAndColumn(u64, u64),
    String(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Loc {
    pub file: String,
    pub location_in_file: Option<Pos>,
}

/// `./a`, `a` and `x/./a` are the same file
pub fn norm(p: &str) -> String {
    let abs = p.starts_with('/');
    let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    format!("{}{}", if abs { "/" } else { "" }, parts.join("/"))
}

impl Loc {
    pub fn line(file: &str, n: u64) -> Loc {
        Loc {
            file: norm(file),
            location_in_file: Some(Pos::Line(n)),
        }
    }
    pub fn normed(mut self) -> Loc {
        self.file = norm(&self.file);
        self
    }
    pub fn line_no(&self) -> Option<u64> {
        match &self.location_in_file {
            Some(Pos::Line(l)) => Some(*l),
            Some(Pos::LineAndColumn(l, _)) => Some(*l),
            _ => None,
        }
    }
    /// as printed in reports
    pub fn text(&self) -> String {
        match &self.location_in_file {
            None => self.file.clone(),
            Some(Pos::Line(l)) => format!("{}:{l}", self.file),
            Some(Pos::LineAndColumn(l, c)) => format!("{}:{l}:{c}", self.file),
            Some(Pos::String(s)) => format!("{}:{s}", self.file),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ref {
    pub id: String,
    pub title: Option<String>,
    pub location: Loc,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Req {
    pub id: String,
    pub title: Option<String>,
    pub location: Loc,
    pub covers: Vec<Ref>,
    pub depends: Vec<Ref>,
    pub tags: Vec<String>,
    pub attributes: BTreeMap<String, String>,
}

impl Req {
    pub fn new(id: &str, title: Option<&str>, location: Loc) -> Req {
        Req {
            id: id.to_owned(),
            title: title.map(str::to_owned),
            location,
            covers: vec![],
            depends: vec![],
            tags: vec![],
            attributes: BTreeMap::new(),
        }
    }
    /// for comparisons: paths in one form, white space around attribute texts does not count
    pub fn normed(mut self) -> Req {
        self.location = self.location.normed();
        for r in self.covers.iter_mut().chain(self.depends.iter_mut()) {
            r.location = r.location.clone().normed();
        }
        self.attributes = self
            .attributes
            .into_iter()
            .map(|(k, v)| (k, v.trim().to_owned()))
            .collect();
        self
    }
}

/// An error, reduced to what it must say
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Err {
    Io(String),
    Format(Loc),
    DuplicateAttribute(Loc, String, String),
    /// id and the two locations, in order of location
    DuplicateRequirement(String, Loc, Loc),
    Config(String),
    CoveredWithWrongTitle(String, String, String, Loc),
    DependWithWrongTitle(String, String, String, Loc),
    ReferencedWithoutTitle(String, Loc),
    RequirementWithoutTitle(String),
    DependOnUnknown(String, String, Loc),
    CoversUnknown(String, String, Loc),
    UnusedRelation(String, Vec<String>),
    Other(String),
}

impl Err {
    /// the path an input error names
    pub fn path(&self) -> Option<&str> {
        match self {
            Err::Io(p) => Some(p),
            Err::Format(l) | Err::DuplicateAttribute(l, _, _) => Some(&l.file),
            _ => None,
        }
    }
}

pub fn dup(id: &str, a: &Loc, b: &Loc) -> Err {
    if a <= b {
        Err::DuplicateRequirement(id.to_owned(), a.clone(), b.clone())
    } else {
        Err::DuplicateRequirement(id.to_owned(), b.clone(), a.clone())
    }
}

/// Result of reading one file completely
#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub reqs: Vec<Req>,
    pub errs: Vec<Err>,
    /// not readable as text or not syntactically a whole: some error is due, and what is listed
    /// in `reqs` may be missing from some point on
    pub damaged: bool,
}

pub struct Grammar {
    req: Regex,
    attr: Regex,
    item: Regex,
    arrow: Regex,
}

impl Default for Grammar {
    fn default() -> Self {
        Grammar {
            req: Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap(),
            attr: Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap(),
            item: Regex::new(r"\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap(),
            arrow: Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap(),
        }
    }
}

/// the longest prefix of whole lines that is text, and whether that is everything
fn valid_lines(bytes: &[u8]) -> (&str, bool) {
    match std::str::from_utf8(bytes) {
        Ok(s) => (s, true),
        Err(e) => {
            let good = &bytes[..e.valid_up_to()];
            let end = good.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
            (std::str::from_utf8(&bytes[..end]).unwrap(), false)
        }
    }
}

impl Grammar {
    /// A Markdown document: a requirement is a heading `ID: Title`, then description paragraphs,
    /// then attributes.
    pub fn markdown(&self, bytes: &[u8], file: &str) -> Parsed {
        let (text, whole) = valid_lines(bytes);
        let lines: Vec<(u64, &str)> = text
            .split_inclusive('\n')
            .enumerate()
            .map(|(i, l)| (i as u64 + 1, l))
            .collect();
        let mut out = Parsed {
            damaged: !whole,
            ..Parsed::default()
        };
        let mut i = 0;
        while i < lines.len() {
            // outside of requirements everything else is free text
            let Some(c) = self.req.captures(lines[i].1) else {
                i += 1;
                continue;
            };
            let mut req = Req::new(&c[2], Some(c[3].trim()), Loc::line(file, lines[i].0));
            let start = i + 1;
            let mut end = start;
            while end < lines.len() && !lines[end].1.starts_with('#') {
                end += 1;
            }
            let ok = self.body(&lines[start..end], file, &mut req, &mut out.errs);
            // a requirement whose text went wrong and that nothing follows is not reported
            if ok || end < lines.len() {
                out.reqs.push(req);
            }
            i = end;
        }
        if !whole {
            out.errs.push(Err::Io(norm(file)));
        }
        out
    }

    fn body(&self, lines: &[(u64, &str)], file: &str, req: &mut Req, errs: &mut Vec<Err>) -> bool {
        let blank = |l: &str| l == "\n";
        let mut i = 0;
        while i < lines.len() && blank(lines[i].1) {
            i += 1;
        }
        // description: starts with anything but an attribute, ends at an attribute after a blank line
        if i < lines.len() && !self.attr.is_match(lines[i].1) {
            let mut desc = String::new();
            let mut after_blank = false;
            while i < lines.len() && !(after_blank && self.attr.is_match(lines[i].1)) {
                desc.push_str(lines[i].1);
                after_blank = blank(lines[i].1);
                i += 1;
            }
            req.attributes.insert("Description".to_owned(), desc);
        }
        // attributes
        while i < lines.len() {
            if blank(lines[i].1) {
                i += 1;
                continue;
            }
            let Some(c) = self.attr.captures(lines[i].1) else {
                errs.push(Err::Format(Loc::line(file, lines[i].0)));
                return false;
            };
            let (no, name, first) = (lines[i].0, c[1].to_owned(), c[2].to_owned());
            i += 1;
            if name == "Covers" || name == "Depends" {
                let slot = if name == "Covers" {
                    &mut req.covers
                } else {
                    &mut req.depends
                };
                if !slot.is_empty() {
                    errs.push(Err::DuplicateAttribute(
                        Loc::line(file, no),
                        name.clone(),
                        req.id.clone(),
                    ));
                }
                let mut refs: Vec<Ref> = first
                    .split(',')
                    .map(str::trim)
                    .filter(|id| !id.is_empty())
                    .map(|id| Ref {
                        id: id.to_owned(),
                        title: None,
                        location: Loc::line(file, no),
                    })
                    .collect();
                let mut bad = None;
                while i < lines.len() {
                    let (no, l) = lines[i];
                    if blank(l) {
                        break;
                    }
                    i += 1;
                    if let Some(c) = self.item.captures(l) {
                        refs.push(Ref {
                            id: c[1].to_owned(),
                            title: c.get(2).map(|m| m.as_str().to_owned()),
                            location: Loc::line(file, no),
                        });
                    } else if l.trim().is_empty() {
                        break;
                    } else {
                        bad = Some(no);
                        break;
                    }
                }
                *slot = refs;
                if let Some(no) = bad {
                    errs.push(Err::Format(Loc::line(file, no)));
                    return false;
                }
            } else {
                if req.attributes.contains_key(&name) {
                    errs.push(Err::DuplicateAttribute(
                        Loc::line(file, no),
                        name.clone(),
                        req.id.clone(),
                    ));
                }
                let mut val = first;
                while i < lines.len() && !self.attr.is_match(lines[i].1) {
                    if !val.is_empty() && !val.ends_with('\n') {
                        val.push('\n');
                    }
                    val.push_str(lines[i].1);
                    i += 1;
                }
                req.attributes.insert(name, val);
            }
        }
        true
    }

    /// A file that is one requirement: named by the file, titled by its first line
    pub fn mono(&self, bytes: &[u8], file: &str) -> Parsed {
        let (text, whole) = valid_lines(bytes);
        let name = file.rsplit('/').next().unwrap_or(file);
        let stem = match name.rfind('.') {
            Some(p) if p > 0 => &name[..p],
            _ => name,
        };
        let mut req = Req::new(
            stem,
            None,
            Loc {
                file: norm(file),
                location_in_file: None,
            },
        );
        for (i, l) in text.lines().enumerate() {
            if i == 0 {
                req.title = Some(l.to_owned());
            } else if let Some(c) = self.arrow.captures(l) {
                req.depends.push(Ref {
                    id: c[1].to_owned(),
                    title: c.get(2).map(|m| m.as_str().to_owned()),
                    location: Loc::line(file, i as u64 + 1),
                });
            }
        }
        let mut out = Parsed {
            reqs: vec![req],
            errs: vec![],
            damaged: !whole,
        };
        if !whole {
            out.errs.push(Err::Io(norm(file)));
        }
        out
    }

    pub fn json(&self, bytes: &[u8], file: &str) -> Parsed {
        match serde_json::from_slice::<Vec<Req>>(bytes) {
            Ok(reqs) => Parsed {
                reqs,
                errs: vec![],
                damaged: false,
            },
            Err(_) => Parsed {
                reqs: vec![],
                errs: vec![Err::Format(Loc {
                    file: norm(file),
                    location_in_file: None,
                })],
                damaged: true,
            },
        }
    }
}

// ---------------------------------------------------------------- tracing

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Rel {
    pub upper: String,
    pub lower: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cov {
    pub upper: String,
    pub lower: String,
    pub location: Loc,
    /// the lower one claims it
    pub upwards: bool,
}

#[derive(Clone, Debug, Default)]
pub struct ArtIn {
    pub reqs: Vec<Req>,
    pub ignore_derived: bool,
    pub with_title: bool,
}

#[derive(Clone, Debug, Default)]
pub struct TraceOut {
    /// per relation: coverages and uncovered ids
    pub relations: Vec<(Rel, BTreeSet<Cov>, BTreeSet<String>)>,
    pub derived: BTreeMap<String, BTreeSet<String>>,
    pub errors: BTreeSet<Err>,
    /// unknown references may name any of these places
    pub unknown: BTreeMap<(bool, String, String), BTreeSet<Loc>>,
}

/// What follows from the requirements (ids are unique)
pub fn trace(arts: &BTreeMap<String, ArtIn>, rels: &[Rel]) -> TraceOut {
    let mut out = TraceOut::default();
    // (claimed upwards, referencing id, referenced id)
    let mut joined: BTreeSet<(bool, String, String)> = BTreeSet::new();
    let mut covering: BTreeSet<String> = BTreeSet::new();
    for rel in rels {
        let up = &arts[&rel.upper];
        let mut covs = BTreeSet::new();
        for u in &up.reqs {
            for lname in &rel.lower {
                let low = &arts[lname];
                for l in &low.reqs {
                    for d in u.depends.iter().filter(|d| d.id == l.id) {
                        covs.insert(Cov {
                            upper: u.id.clone(),
                            lower: l.id.clone(),
                            location: d.location.clone(),
                            upwards: false,
                        });
                        joined.insert((false, u.id.clone(), l.id.clone()));
                        match &d.title {
                            Some(t) if Some(t) != l.title.as_ref() => {
                                out.errors.insert(Err::DependWithWrongTitle(
                                    u.id.clone(),
                                    l.id.clone(),
                                    t.clone(),
                                    d.location.clone(),
                                ));
                            }
                            None if low.with_title => {
                                out.errors.insert(Err::ReferencedWithoutTitle(
                                    l.id.clone(),
                                    d.location.clone(),
                                ));
                            }
                            _ => {}
                        }
                    }
                    for c in l.covers.iter().filter(|c| c.id == u.id) {
                        covs.insert(Cov {
                            upper: u.id.clone(),
                            lower: l.id.clone(),
                            location: c.location.clone(),
                            upwards: true,
                        });
                        joined.insert((true, l.id.clone(), u.id.clone()));
                        match &c.title {
                            Some(t) if Some(t) != u.title.as_ref() => {
                                out.errors.insert(Err::CoveredWithWrongTitle(
                                    u.id.clone(),
                                    l.id.clone(),
                                    t.clone(),
                                    c.location.clone(),
                                ));
                            }
                            None if up.with_title => {
                                out.errors.insert(Err::ReferencedWithoutTitle(
                                    u.id.clone(),
                                    c.location.clone(),
                                ));
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        for c in &covs {
            covering.insert(c.lower.clone());
        }
        let uncovered: BTreeSet<String> = up
            .reqs
            .iter()
            .map(|r| r.id.clone())
            .filter(|id| !covs.iter().any(|c| &c.upper == id))
            .collect();
        if covs.is_empty() {
            out.errors
                .insert(Err::UnusedRelation(rel.upper.clone(), rel.lower.clone()));
        }
        out.relations.push((rel.clone(), covs, uncovered));
    }
    for (name, a) in arts {
        let mut d = BTreeSet::new();
        for r in &a.reqs {
            if !a.ignore_derived && !covering.contains(&r.id) {
                d.insert(r.id.clone());
            }
            for (upwards, refs) in [(true, &r.covers), (false, &r.depends)] {
                for x in refs {
                    let key = (upwards, r.id.clone(), x.id.clone());
                    if !joined.contains(&key) {
                        out.unknown.entry(key).or_default().insert(x.location.clone());
                    }
                }
            }
        }
        out.derived.insert(name.clone(), d);
    }
    out
}
