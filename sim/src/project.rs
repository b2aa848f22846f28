//! Projects: configuration, inputs, decoys; generated, rendered to a disk, and what they mean.

use crate::model::*;
use crate::rng::Rng;
use crate::world::{put, put_dirs, Bytes, Node, Tree};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Parser {
    Markdown,
    MonoRequirement,
    Json,
    Rust,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Doc {
    /// pieces of text (Markdown, mono requirement)
    Text(Vec<String>),
    /// requirements of a JSON list, and how it is printed (bits)
    Json(Vec<serde_json::Value>, u8),
    Rust(Vec<RsNode>),
    Raw(Bytes),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RsKind {
    Mod,
    Fn,
    /// impl Type
    Impl,
    /// impl Trait for Type
    ImplFor(String),
    Trait,
    /// a mark that is inside of nothing
    Mark,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RsMark {
    pub id: String,
    pub title: Option<String>,
    /// how it is written
    pub form: u8,
    /// more of it (bits)
    #[serde(default)]
    pub how: u32,
}

/// braces, or else brackets
const M_BRACE: u32 = 1;
const M_BRACKET: u32 = 2;
/// between the items of a mod, impl, trait
const M_ITEM: u32 = 4;
/// the title is a raw string, or else has escapes
const M_RAW: u32 = 8;
const M_ESCAPE: u32 = 16;
/// after the items inside
const M_AFTER: u32 = 32;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RsNode {
    pub kind: RsKind,
    pub name: String,
    pub marks: Vec<RsMark>,
    pub children: Vec<RsNode>,
    /// what else is around it (bits)
    #[serde(default)]
    pub deco: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    /// relative to the base directory, or absolute with {ROOT}
    pub path: String,
    pub doc: Doc,
    /// the file ends after so many bytes
    pub cut: Option<usize>,
    /// bytes overwritten
    pub smash: Vec<(usize, u8)>,
    pub missing: bool,
    /// the path is a symbolic link to a file elsewhere
    #[serde(default)]
    pub link: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Art {
    pub id: String,
    pub parser: Parser,
    pub paths: Vec<String>,
    pub ignore_derived: Option<bool>,
    pub with_title: Option<bool>,
    pub files: Vec<FileSpec>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct JobSpec {
    pub name: String,
    pub query: String,
    pub format: String,
    pub file: String,
    pub set_rc: Option<bool>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Project {
    /// directory below the root
    pub base: String,
    /// 0 started in the base directory, 1 from above with -b and -c, 2 absolute
    pub invoke: u8,
    pub arts: Vec<Art>,
    pub rels: Vec<Rel>,
    pub jobs: Vec<JobSpec>,
    pub default_jobs: Option<Vec<String>>,
    pub version: Option<u32>,
    /// files that are none of the program's business, relative to the root
    pub decoys: BTreeMap<String, String>,
    /// replaces the rendered configuration
    pub config_raw: Option<Bytes>,
    /// where the configuration lies, relative to the root, if not in the usual place
    #[serde(default)]
    pub config: Option<String>,
    /// how the configuration is spelled
    #[serde(default)]
    pub spell: u32,
}

const D_TAB: u32 = 1;
const D_ATTR: u32 = 2;
const D_DOC: u32 = 4;
const D_PUB: u32 = 8;
const D_QUAL: u32 = 32;
const D_GENERIC: u32 = 64;
const D_COMMENT: u32 = 128;
const D_NOISE: u32 = 256;
const D_TAIL: u32 = 512;
const D_BETWEEN: u32 = 1024;
const D_ODD: u32 = 2048;
const D_TOP_COMMENT: u32 = 4096;

// spellings of the configuration
const SP_LITERAL: u32 = 1;
const SP_LINES: u32 = 2;
const SP_REVERSED: u32 = 4;
const SP_TIGHT: u32 = 8;
const SP_INDENT: u32 = 16;
const SP_INLINE: u32 = 32;
const SP_JOBS_FIRST: u32 = 64;
const SP_COMMENTS: u32 = 128;
const SP_CRLF: u32 = 256;
const SP_PAD: u32 = 512;
const SP_PAD_MORE: u32 = 1024;

pub const CONFIG: &str = "requirements.toml";

// ---------------------------------------------------------------- rendering

fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl RsNode {
    fn symbol(&self) -> String {
        let ty = self
            .name
            .replace('<', " < ")
            .replace('>', " >")
            .replace("  ", " ");
        match &self.kind {
            RsKind::ImplFor(t) => format!(
                "({} as {})",
                ty.trim(),
                t.replace('<', " < ").replace('>', " >").replace("::", " :: ").trim()
            ),
            RsKind::Impl => ty.trim().to_owned(),
            _ => self.name.clone(),
        }
    }
}

struct RsOut {
    text: String,
    line: u64,
    col: u64,
    parsed: Parsed,
    /// top level items
    bounds: Vec<(usize, usize)>,
    /// a file that ends inside of these is no Rust
    broken: Vec<(usize, usize)>,
}

impl RsOut {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            self.text.push(c);
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
    }
    fn here(&self, file: &str) -> Loc {
        Loc {
            file: norm(file),
            location_in_file: Some(Pos::LineAndColumn(self.line, self.col)),
        }
    }
    fn node(&mut self, n: &RsNode, scope: &[String], depth: usize, parent: Option<&RsKind>, file: &str) {
        let member = matches!(parent, Some(RsKind::Impl | RsKind::ImplFor(_) | RsKind::Trait));
        let d = n.deco;
        let has = |x: u32| d & x != 0;
        let ind = if has(D_TAB) { "\t".repeat(depth) } else { "    ".repeat(depth) };
        self.put(&ind);
        if n.kind == RsKind::Mark {
            let loc = self.here(file);
            self.put(&match d % 4 {
                0 => format!("requirement_covered!({});\n", n.name),
                1 => format!("requirement_covered! {{ {} }}\n", n.name),
                2 => format!("requirement_covered![\"{}\"];\n", n.name),
                _ => format!("requirement_covered!({}, \"Title\");\n", n.name),
            });
            self.parsed.errs.push(Err::Format(loc));
            return;
        }
        if has(D_ATTR) {
            self.put(if has(D_ODD) { "#[doc = \"requirement_covered!(REQ_A) ü\"]\n" } else { "#[allow(dead_code)] " });
        }
        // (a file that ends after two slashes would be whole)
        if has(D_DOC) && (depth > 0 || has(D_ATTR)) {
            self.put("/// Covers: REQ_A 日本 requirement_covered!(REQ_A)\n");
            self.put(&ind);
        }
        if has(D_PUB)
            && !matches!(parent, Some(RsKind::Trait | RsKind::ImplFor(_)))
            && !matches!(n.kind, RsKind::Impl | RsKind::ImplFor(_))
        {
            self.put(if has(D_ODD) { "pub(crate) " } else { "pub " });
        }
        match &n.kind {
            RsKind::Mod => self.put("mod "),
            RsKind::Fn => {
                if has(D_QUAL) {
                    self.put(if has(D_ODD) { "const unsafe " } else { "async " });
                }
                self.put("fn ");
            }
            RsKind::Impl => self.put(if has(D_GENERIC) { "impl<'a, T: Clone> " } else { "impl " }),
            RsKind::ImplFor(t) => self.put(&format!("impl{} {t} for ", if has(D_GENERIC) { "<T>" } else { "" })),
            RsKind::Trait => self.put("trait "),
            RsKind::Mark => unreachable!(),
        }
        if has(D_COMMENT) {
            self.put("/* requirement_covered!(REQ_A) 日本\u{e9} */ ");
        }
        let loc = self.here(file);
        self.put(&n.name);
        match &n.kind {
            RsKind::Fn => {
                self.put(match (has(D_GENERIC), member) {
                    (false, false) => "()",
                    (false, true) => "(&self)",
                    (true, false) => "<'a, T: Into<String>, const N: usize>(x: &'a [T; 3], _: u8) -> Result<(), T> where T: 'a",
                    (true, true) => "<T>(&mut self, (a, b): (T, T)) -> impl Fn(u8) -> u8 + '_",
                });
            }
            RsKind::Trait if has(D_GENERIC) => self.put("<T>: Sized + Into<T>"),
            RsKind::Impl | RsKind::ImplFor(_) if has(D_GENERIC) && has(D_ODD) => self.put(" where T: Copy"),
            _ => {}
        }
        self.put(" {\n");
        let mut scope = scope.to_vec();
        scope.push(n.symbol());
        let id = scope.join("::");
        let mut req = Req::new(&id, None, loc);
        let item = n.kind != RsKind::Fn;
        self.noise(d, item);
        let mut at = None;
        for after in [false, true] {
            if after {
                for c in &n.children {
                    self.node(c, &scope, depth + 1, Some(&n.kind), file);
                }
            }
            for (i, m) in n.marks.iter().enumerate() {
                if (m.how & M_AFTER != 0 && !n.children.is_empty()) != after {
                    continue;
                }
                // without semicolon if it is the value of the body
                let tail = has(D_TAIL) && !item && i + 1 == n.marks.len() && (after || n.children.is_empty());
                self.mark(m, i, item, tail, &ind, file, &mut req);
                if has(D_BETWEEN) && !tail {
                    self.noise(d.rotate_left(5) | D_NOISE, item);
                }
            }
            if !req.covers.is_empty() && at.is_none() {
                at = Some(self.parsed.reqs.len());
                self.parsed.reqs.push(req.clone());
            }
        }
        if let Some(at) = at {
            self.parsed.reqs[at] = req;
        }
        self.put(&ind);
        self.put("}\n");
    }
    /// text that only looks like a mark
    fn noise(&mut self, d: u32, item: bool) {
        if d & D_NOISE == 0 {
            return;
        }
        let stmts: &[&str] = &[
            "// requirement_covered!(REQ_A);\n",
            "/* requirement_covered!(REQ_A); /* nested ü */ */ ",
            "let s = \"requirement_covered!(REQ_A); // }\";\n",
            "let s = r#\"fn x() { requirement_covered!(REQ_A); \"# ;\n",
            "println!(\"{}\", '\"');\n",
            "crate::requirement_covered!(REQ_A);\n",
            "not_requirement_covered!(REQ_A);\n",
            "let c: char = '}'; let l: &'static [u8] = b\"}\\\"\";\n",
            "let requirement_covered = 1; if requirement_covered != (2) {}\n",
        ];
        let items: &[&str] = &[
            "// requirement_covered!(REQ_A);\n",
            "/* requirement_covered!(REQ_A) 日本 */\n",
            "const S: &str = \"requirement_covered!(REQ_A)\";\n",
            "/** requirement_covered!(REQ_A) */ const T: u8 = b'}';\n",
        ];
        let k = (d >> 16) as usize;
        if item {
            self.put(items[k % items.len()]);
        } else {
            self.put(stmts[k % stmts.len()]);
        }
    }
    fn mark(&mut self, m: &RsMark, i: usize, item: bool, tail: bool, ind: &str, file: &str, req: &mut Req) {
        self.put(ind);
        let how = m.how;
        let brace = how & M_BRACE != 0;
        let (pre, post) = if item && how & M_ITEM != 0 {
            (String::new(), if brace { "\n" } else { ";\n" }.to_owned())
        } else if item {
            // inside mod, impl, trait: the value of a constant
            (format!("const C{i}: () = "), ";\n".to_owned())
        } else if tail {
            (String::new(), "\n".to_owned())
        } else if how >> 8 & 3 == 3 {
            match how >> 10 & 7 {
                0 => (format!("let _v{i} = (1, "), ");\n".to_owned()),
                1 => ("drop(".to_owned(), ");\n".to_owned()),
                2 => ("unsafe { ".to_owned(), " }\n".to_owned()),
                3 => ("while false { ".to_owned(), " }\n".to_owned()),
                4 => ("if true { return ".to_owned(), "; }\n".to_owned()),
                5 => (format!("let _v{i} = if true {{ "), " } else { () };\n".to_owned()),
                6 => (format!("let _v{i} = async move {{ "), " };\n".to_owned()),
                _ => (format!("static V{i}: [(); 1] = ["), "];\n".to_owned()),
            }
        } else {
            match m.form % 6 {
                1 => ("if true { ".to_owned(), "; }\n".to_owned()),
                2 => (format!("let _v{i} = || {{ "), "; };\n".to_owned()),
                3 => ("match 1 { 1 => ".to_owned(), ", _ => {} }\n".to_owned()),
                4 => ("loop { { ".to_owned(), "; } break; }\n".to_owned()),
                _ if brace => (String::new(), "\n".to_owned()),
                _ => (String::new(), ";\n".to_owned()),
            }
        };
        self.put(&pre);
        let loc = self.here(file);
        let plain = m
            .id
            .chars()
            .all(|c| c.is_ascii_alphanumeric() || c == '_')
            && !m.id.chars().next().map_or(true, |c| c.is_ascii_digit());
        let (open, close) = match how & 3 {
            1 => ("{ ", " }"),
            2 => ("[", "]"),
            _ => ("(", ")"),
        };
        let lit = |t: &str| rust_literal(t, how);
        let args = match (&m.title, plain) {
            (None, true) if m.form / 6 % 2 == 0 => m.id.clone(),
            (None, _) => format!("\"{}\"", m.id),
            (Some(t), _) if m.form / 6 % 2 == 0 => format!("{}, {}", m.id, lit(t)),
            (Some(t), _) => format!("{}: {}", m.id, lit(t)),
        };
        let text = format!("requirement_covered!{open}{args}{close}");
        if m.form == 255 {
            self.put("requirement_covered!()");
            self.parsed.errs.push(Err::Format(loc));
        } else if m.form == 254 {
            self.put(&format!("requirement_covered!({}, 17)", m.id));
            let mut l = loc;
            if let Some(Pos::LineAndColumn(_, c)) = &mut l.location_in_file {
                *c += "requirement_covered!(, ".len() as u64 + m.id.chars().count() as u64;
            }
            self.parsed.errs.push(Err::Format(l));
        } else {
            self.put(&text);
            req.covers.push(Ref {
                id: m.id.clone(),
                title: m.title.clone(),
                location: loc,
            });
        }
        self.put(&post);
    }
}

fn rust_literal(t: &str, how: u32) -> String {
    if how & M_RAW != 0 {
        let mut hashes = String::new();
        while t.contains(&format!("\"{hashes}")) {
            hashes.push('#');
        }
        return format!("r{hashes}\"{t}\"{hashes}");
    }
    let mut o = String::from("\"");
    for (i, c) in t.chars().enumerate() {
        let e = how & M_ESCAPE != 0 && (i as u32 + (how >> 13)) % 3 == 0;
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\'' if e => o.push_str("\\'"),
            c if e && c.is_ascii() && i % 2 == 0 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if e => o.push_str(&format!("\\u{{{:X}}}", c as u32)),
            c => o.push(c),
        }
        if how & M_ESCAPE != 0 && i == 2 && t.chars().nth(3).is_some_and(|c| !c.is_whitespace()) {
            // goes on in the next line
            o.push_str("\\\n     ");
        }
    }
    o.push('"');
    o
}

fn render_rust(nodes: &[RsNode], file: &str) -> RsOut {
    let mut o = RsOut {
        text: String::new(),
        line: 1,
        col: 0,
        parsed: Parsed::default(),
        bounds: vec![],
        broken: vec![],
    };
    for n in nodes {
        if n.deco & D_TOP_COMMENT != 0 {
            let s = o.text.len();
            o.broken.push((s, s + 2));
            o.put("// requirement_covered!(REQ_A); ü\n");
        }
        let s = o.text.len();
        o.node(n, &[], 0, None, file);
        // without the final newline
        o.bounds.push((s, o.text.len() - 1));
        o.broken.push((s, o.text.len() - 1));
        o.put("\n");
    }
    o
}

/// 1 lines and indentation, 2 ASCII only, 4 keys in reverse order, 32 slashes and such escaped,
/// 64 no null titles
fn json_list(o: &mut String, v: &[serde_json::Value], style: u8) {
    json_text(o, &serde_json::Value::Array(v.to_vec()), style, 0);
}
fn json_str(o: &mut String, s: &str, style: u8) {
    if style & (2 | 32) == 0 {
        o.push_str(&serde_json::to_string(s).unwrap());
        return;
    }
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '/' if style & 32 != 0 => o.push_str("\\/"),
            '\n' if style & 32 != 0 => o.push_str("\\n"),
            'R' if style & 32 != 0 => o.push_str("\\u0052"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (style & 2 != 0 && !c.is_ascii()) => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn json_text(o: &mut String, v: &serde_json::Value, style: u8, depth: usize) {
    let nl = |o: &mut String, depth: usize| {
        if style & 1 != 0 {
            o.push('\n');
            o.push_str(&"  ".repeat(depth));
        }
    };
    match v {
        serde_json::Value::String(s) => json_str(o, s, style),
        serde_json::Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                nl(o, depth + 1);
                json_text(o, x, style, depth + 1);
            }
            if !a.is_empty() {
                nl(o, depth);
            }
            o.push(']');
        }
        serde_json::Value::Object(m) => {
            o.push('{');
            let mut keys: Vec<&String> = m.keys().collect();
            if style & 4 != 0 {
                keys.reverse();
            }
            let mut first = true;
            for k in keys {
                if style & 64 != 0 && k == "title" && m[k].is_null() {
                    continue;
                }
                if !first {
                    o.push(',');
                }
                first = false;
                nl(o, depth + 1);
                json_str(o, k, style & !32);
                o.push_str(if style & 1 != 0 { " : " } else { ":" });
                json_text(o, &m[k], style, depth + 1);
            }
            if !first {
                nl(o, depth);
            }
            o.push('}');
        }
        other => o.push_str(&other.to_string()),
    }
}

impl FileSpec {
    pub fn new(path: &str, doc: Doc) -> FileSpec {
        FileSpec {
            path: path.to_owned(),
            doc,
            cut: None,
            smash: vec![],
            missing: false,
            link: false,
        }
    }
    pub fn whole(&self) -> Vec<u8> {
        match &self.doc {
            Doc::Text(b) => b.concat().into_bytes(),
            Doc::Json(v, style) => {
                let mut o = String::new();
                if style & 8 != 0 {
                    o.push_str("\n \t");
                }
                json_list(&mut o, v, *style);
                if style & 16 != 0 {
                    o.push_str("\r\n\n");
                }
                o.into_bytes()
            }
            Doc::Rust(n) => render_rust(n, "x").text.into_bytes(),
            Doc::Raw(b) => b.0.clone(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.whole();
        for (p, v) in &self.smash {
            if let Some(x) = b.get_mut(*p) {
                *x = *v;
            }
        }
        if let Some(c) = self.cut {
            b.truncate(c);
        }
        b
    }
    /// What the file says; `shown` is its path as it appears in reports
    pub fn parse(&self, g: &Grammar, parser: Parser, shown: &str) -> Parsed {
        if self.missing {
            return Parsed {
                reqs: vec![],
                errs: vec![Err::Io(norm(shown))],
                damaged: true,
            };
        }
        let b = self.bytes();
        match parser {
            Parser::Markdown => g.markdown(&b, shown),
            Parser::MonoRequirement => g.mono(&b, shown),
            Parser::Json => g.json(&b, shown),
            Parser::Rust => match &self.doc {
                Doc::Rust(nodes) => {
                    let o = render_rust(nodes, shown);
                    let whole = o.text.into_bytes();
                    if b == whole {
                        return o.parsed;
                    }
                    if whole.starts_with(&b) {
                        let inside = std::str::from_utf8(&b).is_err() || o.broken.iter().any(|(s, e)| b.len() > *s && b.len() < *e);
                        if !inside {
                            let n = o.bounds.iter().filter(|(_, e)| *e <= b.len()).count();
                            return render_rust(&nodes[..n], shown).parsed;
                        }
                        return Parsed {
                            reqs: vec![],
                            errs: vec![Err::Io(norm(shown))],
                            damaged: true,
                        };
                    }
                    // overwritten bytes: no statement, except that it must be text
                    Parsed {
                        reqs: o.parsed.reqs,
                        errs: vec![],
                        damaged: true,
                    }
                }
                _ => Parsed {
                    damaged: true,
                    ..Parsed::default()
                },
            },
        }
    }
}

/// a pattern and not just the path of one file
pub fn is_pattern(path: &str) -> bool {
    path.contains(['*', '?', '['])
}

impl Project {
    pub fn base_shown(&self, root: &str) -> String {
        match self.invoke {
            0 => ".".to_owned(),
            1 => self.base.clone(),
            _ => format!("{root}/{}", self.base),
        }
    }
    /// path of a configured file as reports show it, in normal form
    pub fn shown(&self, path: &str, root: &str) -> String {
        let p = path.replace("{ROOT}", root);
        if p.starts_with('/') {
            norm(&p)
        } else {
            norm(&format!("{}/{p}", self.base_shown(root)))
        }
    }
    /// path of a configured file on the disk, relative to the root
    pub fn on_disk(&self, path: &str) -> String {
        let full = if let Some(p) = path.strip_prefix("{ROOT}/") {
            p.to_owned()
        } else {
            format!("{}/{path}", self.base)
        };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                c => parts.push(c),
            }
        }
        parts.join("/")
    }
    pub fn config_text(&self, root: &str) -> String {
        let sp = self.spell;
        let q = |s: &str| -> String {
            if sp & SP_LITERAL != 0 && !s.chars().any(|c| c == '\'' || c.is_control()) {
                format!("'{s}'")
            } else {
                toml_str(s)
            }
        };
        let some_inline = sp & SP_INLINE != 0;
        let list = |v: &[String]| -> String {
            let v: Vec<String> = v.iter().map(|s| q(s)).collect();
            if sp & SP_LINES != 0 && !some_inline && !v.is_empty() {
                format!("[\n    {},\n]", v.join(",\n    "))
            } else {
                format!("[{}]", v.join(", "))
            }
        };
        type Keys = Vec<(&'static str, String)>;
        let keys = |mut v: Keys| {
            if sp & SP_REVERSED != 0 {
                v.reverse();
            }
            v
        };
        let eq = if sp & SP_TIGHT != 0 { "=" } else { " = " };
        let indent = if sp & SP_INDENT != 0 { "\t" } else { "" };
        let table = |head: &str, v: Keys| {
            let mut s = if sp & SP_TIGHT != 0 { format!("{head}\n") } else { format!("\n{head}\n") };
            for (k, v) in keys(v) {
                s.push_str(&format!("{indent}{k}{eq}{v}\n"));
            }
            s
        };
        let inline = |v: Keys| {
            let v: Vec<String> = keys(v).into_iter().map(|(k, v)| format!("{k}{eq}{v}")).collect();
            format!("  {{ {} }},\n", v.join(", "))
        };

        let mut top: Keys = vec![];
        if let Some(v) = self.version {
            top.push(("version", v.to_string()));
        }
        if let Some(d) = &self.default_jobs {
            top.push(("default_jobs", list(d)));
        }
        let arts: Vec<Keys> = self
            .arts
            .iter()
            .map(|a| {
                let paths: Vec<String> = a.paths.iter().map(|p| p.replace("{ROOT}", root)).collect();
                let mut v = vec![("id", q(&a.id)), ("paths", list(&paths)), ("parser", q(&format!("{:?}", a.parser)))];
                if let Some(b) = a.ignore_derived {
                    v.push(("ignore_derived_requirements", b.to_string()));
                }
                if let Some(b) = a.with_title {
                    v.push(("reference_with_title", b.to_string()));
                }
                v
            })
            .collect();
        let rels: Vec<Keys> = self
            .rels
            .iter()
            .map(|r| vec![("upper", q(&r.upper)), ("lower", list(&r.lower))])
            .collect();
        let mut sections: Vec<String> = vec![];
        for (name, tables) in [("artefacts", arts), ("relations", rels)] {
            if tables.is_empty() {
                top.push((name, "[]".to_owned()));
            } else if some_inline {
                let rows: String = tables.into_iter().map(inline).collect();
                top.push((name, format!("[\n{rows}]")));
            } else {
                sections.extend(tables.into_iter().map(|v| table(&format!("[[{name}]]"), v)));
            }
        }
        let mut jobs: Vec<String> = vec![];
        for j in &self.jobs {
            let format = if j.format.starts_with('{') { j.format.clone() } else { q(&j.format) };
            let mut v = vec![
                ("query", q(&j.query)),
                ("format", format),
                ("file", q(&j.file.replace("{ROOT}", root))),
            ];
            if let Some(b) = j.set_rc {
                v.push(("set_return_code", b.to_string()));
            }
            let bare = !j.name.is_empty() && j.name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
            let head = match sp & (SP_TIGHT | SP_LITERAL) {
                SP_TIGHT if bare => format!("[jobs.{}]", j.name),
                SP_LITERAL => format!("[ jobs . {} ]", q(&j.name)),
                _ => format!("[jobs.{}]", q(&j.name)),
            };
            jobs.push(table(&head, v));
        }
        if sp & SP_JOBS_FIRST != 0 {
            jobs.append(&mut sections);
            sections = jobs;
        } else {
            sections.append(&mut jobs);
        }
        let mut s = String::new();
        for (k, v) in keys(top) {
            s.push_str(&format!("{k}{eq}{v}\n"));
        }
        let pad = match sp & (SP_PAD | SP_PAD_MORE) {
            0 => 0,
            SP_PAD => 150,
            _ => 1200,
        };
        let last = sections.len().saturating_sub(1 + sp as usize % 3);
        for (n, section) in sections.iter().enumerate() {
            if sp & SP_COMMENTS != 0 {
                s.push_str("# [jobs.other] # \"quoted\" '\n");
            }
            if n == last {
                for k in 0..pad {
                    s.push_str(&format!("# {k}: explained at length, for whoever may read this some day\n"));
                }
            }
            s.push_str(section);
        }
        if sp & SP_COMMENTS != 0 {
            s.push_str("# end = \"no end of line");
        }
        if sp & SP_CRLF != 0 {
            s = s.replace('\n', "\r\n");
        }
        s
    }
    pub fn config_path(&self) -> String {
        match &self.config {
            Some(c) => c.clone(),
            None => format!("{}/{CONFIG}", self.base),
        }
    }
    pub fn tree(&self, root: &str) -> Tree {
        let mut t = Tree::new();
        let config = match &self.config_raw {
            Some(b) => b.0.clone(),
            None => self.config_text(root).into_bytes(),
        };
        put(&mut t, &self.config_path(), config);
        put_dirs(&mut t, &self.base);
        t.entry(self.base.clone()).or_insert(Node::Dir);
        for a in &self.arts {
            for f in &a.files {
                let p = self.on_disk(&f.path);
                put_dirs(&mut t, &p);
                if f.missing {
                    continue;
                }
                if f.link && !t.contains_key(&p) {
                    let at = format!("linked/{}", t.len());
                    put(&mut t, &at, f.bytes());
                    let up = "../".repeat(p.matches('/').count());
                    t.insert(p, Node::Link(format!("{up}{at}")));
                } else if !f.link {
                    put(&mut t, &p, f.bytes());
                }
            }
            // directories that patterns look into exist
            for p in &a.paths {
                if let Some((dir, _)) = p.split_once("/*") {
                    let d = self.on_disk(dir);
                    put_dirs(&mut t, &d);
                    t.entry(d).or_insert(Node::Dir);
                }
            }
        }
        for (p, c) in &self.decoys {
            if !t.contains_key(p) {
                put(&mut t, p, c.clone().into_bytes());
            }
        }
        t
    }
    pub fn cwd(&self) -> String {
        match self.invoke {
            0 => self.base.clone(),
            _ => String::new(),
        }
    }
    pub fn argv(&self, root: &str) -> Vec<String> {
        match self.invoke {
            0 => match &self.config {
                None => vec![],
                Some(c) => {
                    let up = "../".repeat(self.base.split('/').count());
                    let c = match c.strip_prefix(&format!("{}/", self.base)) {
                        Some(c) => c.to_owned(),
                        None => format!("{up}{c}"),
                    };
                    vec!["-c".into(), c]
                }
            },
            1 if self.config_path() == CONFIG => vec!["-b".into(), self.base.clone()],
            1 => vec![
                "-b".into(),
                self.base.clone(),
                "-c".into(),
                self.config_path(),
            ],
            _ => vec![
                format!("--base={root}/{}", self.base),
                format!("--config={root}/{}", self.config_path()),
            ],
        }
    }
    pub fn job(&self, name: &str) -> Option<&JobSpec> {
        self.jobs.iter().find(|j| j.name == name)
    }
    /// destination of a job, relative to the root; None for stdout
    pub fn dest(&self, j: &JobSpec) -> Option<String> {
        if j.file == "-" {
            None
        } else {
            Some(self.on_disk(&j.file))
        }
    }
    pub fn is_lower(&self, id: &str) -> bool {
        self.rels.iter().any(|r| r.lower.iter().any(|l| l == id))
    }
    pub fn ignores_derived(&self, a: &Art) -> bool {
        a.ignore_derived.unwrap_or(!self.is_lower(&a.id))
    }
    /// artefact and file for a path on the disk
    pub fn input(&self, disk: &str) -> Option<(&Art, &FileSpec)> {
        for a in &self.arts {
            for f in &a.files {
                if self.on_disk(&f.path) == disk {
                    return Some((a, f));
                }
            }
        }
        None
    }
    pub fn files(&self) -> impl Iterator<Item = (&Art, &FileSpec)> {
        self.arts
            .iter()
            .flat_map(|a| a.files.iter().map(move |f| (a, f)))
    }
    pub fn unique_ids(&self, g: &Grammar) -> bool {
        let mut seen = BTreeSet::new();
        for (a, f) in self.files() {
            for r in f.parse(g, a.parser, "x").reqs {
                let id = if a.parser == Parser::MonoRequirement {
                    g.mono(b"", &f.path).reqs[0].id.clone()
                } else {
                    r.id
                };
                if !seen.insert(id) {
                    return false;
                }
            }
        }
        true
    }
    /// What an undisturbed run reads: per artefact the requirements and errors (ids unique)
    #[allow(dead_code)]
    pub fn read_all(&self, g: &Grammar, root: &str) -> BTreeMap<String, (Vec<Req>, Vec<Err>)> {
        let mut m = BTreeMap::new();
        for a in &self.arts {
            let mut reqs = vec![];
            let mut errs = vec![];
            for f in &a.files {
                let p = f.parse(g, a.parser, &self.shown(&f.path, root));
                reqs.extend(p.reqs.into_iter().map(Req::normed));
                errs.extend(p.errs);
            }
            m.insert(a.id.clone(), (reqs, errs));
        }
        m
    }
}

// ---------------------------------------------------------------- generation

/// What kind of project to make
#[derive(Clone, Debug)]
pub struct Profile {
    pub parsers: Vec<Parser>,
    pub max_arts: usize,
    pub max_reqs: usize,
    pub unique: bool,
    /// everything covered, titles right, nothing derived
    pub clean: bool,
    /// per mille
    pub wrong_title: u32,
    pub unknown_ref: u32,
    pub format_error: u32,
    pub with_title: u32,
    pub covered: u32,
    /// lengthen some texts beyond buffer sizes
    pub big: u32,
    /// files cut at an arbitrary byte
    pub cut: u32,
    pub missing: u32,
    pub multi_file: bool,
    pub odd_text: bool,
    /// text files with lines that nearly mean something
    pub wild: u32,
    /// projects with many artefacts, requirements, references
    pub large: u32,
    /// relations that are there twice
    pub same_rel: u32,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            parsers: vec![
                Parser::Markdown,
                Parser::Markdown,
                Parser::Json,
                Parser::Rust,
                Parser::MonoRequirement,
            ],
            max_arts: 4,
            max_reqs: 5,
            unique: true,
            clean: false,
            wrong_title: 120,
            unknown_ref: 120,
            format_error: 60,
            with_title: 150,
            covered: 700,
            big: 60,
            cut: 0,
            missing: 0,
            multi_file: true,
            odd_text: true,
            wild: 0,
            large: 12,
            same_rel: 0,
        }
    }
}

const ID_STEMS: &[&str] = &[
    "REQ", "REQ_A", "REQ_AB", "DSG", "DSG_1", "DSG_10", "DSG_100", "req_a", "Req_A", "ARC_INIT", "XY", "ÄRGER_1",
    "Ωmega", "FMT_IMPORT_MARKDOWN", "A1", "A11", "A_1", "B_", "TEST_CASE_42", "日本語", "ÉÈ_2", "MAN_LOG", "CTRL",
    "CTRL_", "CTRL_X", "Z9", "REQ_B", "REQ_BA", "DSG_2", "DSG_20",
];
const WORDS: &[&str] = &[
    "Read", "all", "Inputs", "and", "report", "the", "Errors", "fast", "Übersicht", "naïve", "of", "one", "File",
    "日本", "per", "Requirement", "(optional)", "a/b", "x=1", "it's", "50%", "{json}", "C++", "v1.2", "e.g.", "über",
];

pub fn words(rng: &mut Rng, n: usize, odd: bool) -> String {
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let w = rng.pick(WORDS);
        if odd || w.is_ascii() {
            v.push((*w).to_owned());
        } else {
            v.push("word".to_owned());
        }
    }
    v.join(" ")
}

fn title(rng: &mut Rng, odd: bool) -> String {
    let n = if rng.pm(25) { rng.range(8, 60) } else { rng.range(1, 4) };
    let mut t = words(rng, n, odd);
    if rng.pm(40) {
        t = t.replacen(' ', "  ", rng.range(1, 2));
    }
    if odd && rng.pm(25) {
        // characters of all lengths at all offsets
        let n = rng.range(1, 90);
        let c: String = (0..n).map(|_| *rng.pick(&['a', 'ä', '日', '𝔘', 'é', 'z', '—'])).collect();
        t = if rng.coin() { c } else { format!("{c} {t}") };
    }
    if odd && rng.pm(120) {
        let extra: &[&str] = &[
            ": with colon", " \"quoted\"", " `code`", " [link](x)", " <b>", " a  b", " -> x", " => REQ_A", " #1", " 100 %s",
            " & more", ", comma", " \\n", " \u{1F354}",
        ];
        t.push_str(rng.pick(extra));
    }
    t
}

#[derive(Clone, Debug)]
struct Abs {
    id: String,
    title: Option<String>,
    covers: Vec<(String, Option<String>)>,
    depends: Vec<(String, Option<String>)>,
}

fn xid(id: &str) -> bool {
    !id.contains("::") && !id.contains(' ') && id.chars().count() >= 2
}

fn can_cover(p: Parser) -> bool {
    p != Parser::MonoRequirement
}
fn can_depend(p: Parser) -> bool {
    p != Parser::Rust
}
/// can a requirement read by `from` name this id
fn can_name(from: Parser, id: &str) -> bool {
    match from {
        Parser::Json | Parser::Markdown => true,
        Parser::MonoRequirement => xid(id),
        Parser::Rust => !id.contains('"') && !id.contains('\\'),
    }
}

pub fn gen(rng: &mut Rng, pf: &Profile) -> Project {
    let bases: &[&str] = &["proj", "proj", "proj", "my project", "p-ä", "p[1]", "a/b", "x*y", "q?"];
    let base = (*rng.pick(bases)).to_owned();
    let invoke = rng.below(3) as u8;
    let large = rng.pm(pf.large);
    let n = if large && rng.coin() { rng.range(pf.max_arts, 10) } else { rng.range(1, pf.max_arts) };
    // every reference shows up several times in the reports: large in one way at a time
    let max_reqs = match (large, n) {
        (false, _) => pf.max_reqs,
        (_, 1) => *rng.pick(&[30, 80]),
        (_, 2) => *rng.pick(&[12, 40]),
        (_, 3 | 4) => *rng.pick(&[10, 20]),
        _ => pf.max_reqs.min(5),
    };
    let mut arts: Vec<Art> = vec![];
    let mut reqs: Vec<Vec<Abs>> = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    let art_ids: &[&str] = &["readme", "requirements", "design", "code", "tests", "Formats", "b c", "ä", "arch", "a1"];
    let mut art_names: Vec<&str> = art_ids.to_vec();
    rng.shuffle(&mut art_names);
    let mut counter = 0;
    for i in 0..n {
        let parser = *rng.pick(&pf.parsers);
        let id = art_names[i].to_owned();
        let cnt = if parser == Parser::MonoRequirement {
            1
        } else if pf.clean {
            rng.range(1, max_reqs)
        } else {
            rng.range(0, max_reqs)
        };
        let mut v = vec![];
        for _ in 0..cnt {
            counter += 1;
            let mut rid = if !pf.unique && rng.pm(250) && !used.is_empty() && parser != Parser::Rust {
                let u: Vec<&String> = used.iter().filter(|u| xid(u)).collect();
                if u.is_empty() {
                    format!("REQ_{counter}")
                } else {
                    (*rng.pick(&u)).clone()
                }
            } else {
                let s = *rng.pick(ID_STEMS);
                if used.contains(s) {
                    format!("{s}{counter}")
                } else {
                    s.to_owned()
                }
            };
            if parser == Parser::MonoRequirement && !pf.odd_text {
                rid = format!("MONO_{counter}");
            }
            if parser == Parser::Json && rng.pm(150) {
                rid = format!("x::y{counter}");
            }
            if parser == Parser::Rust {
                rid = String::new(); // from the scopes
            } else {
                if pf.unique && used.contains(&rid) {
                    rid = format!("{rid}_{counter}");
                }
                used.insert(rid.clone());
            }
            let t = match parser {
                Parser::Rust => None,
                Parser::Json if rng.pm(150) && !pf.clean => None,
                Parser::Json | Parser::Markdown => Some(title(rng, pf.odd_text)),
                Parser::MonoRequirement => Some(title(rng, pf.odd_text)),
            };
            v.push(Abs {
                id: rid,
                title: t,
                covers: vec![],
                depends: vec![],
            });
        }
        arts.push(Art {
            id,
            parser,
            paths: vec![],
            ignore_derived: if rng.pm(200) { Some(rng.coin()) } else { None },
            with_title: if rng.pm(pf.with_title) { Some(rng.coin()) } else { None },
            files: vec![],
        });
        reqs.push(v);
    }

    // relations, from earlier to later artefacts, rarely otherwise
    let mut rels: Vec<Rel> = vec![];
    let mut rel_ix: Vec<(usize, Vec<usize>)> = vec![];
    if n > 1 {
        for _ in 0..rng.range(if pf.clean { 1 } else { 0 }, n) {
            let u = rng.below(n - 1);
            let mut lower = vec![];
            for l in u + 1..n {
                if rng.pm(600) {
                    lower.push(l);
                }
            }
            if lower.is_empty() {
                lower.push(rng.range(u + 1, n - 1));
            }
            if !pf.clean && rng.pm(60) {
                let extra = rng.below(n);
                if !lower.contains(&extra) {
                    lower.push(extra);
                }
            }
            if rng.coin() {
                rng.shuffle(&mut lower);
            }
            if rel_ix.contains(&(u, lower.clone())) && !rng.pm(pf.same_rel) {
                continue;
            }
            rel_ix.push((u, lower));
        }
    }

    if !pf.clean && rng.pm(if n == 1 { 250 } else { 40 }) {
        // an artefact above itself
        let u = rng.below(n);
        let mut lower = vec![u];
        if n > 1 && rng.coin() {
            let l = rng.below(n);
            if l != u {
                lower.insert(rng.below(2), l);
            }
        }
        if !rel_ix.contains(&(u, lower.clone())) {
            rel_ix.push((u, lower));
        }
    }
    if rng.pm(pf.same_rel / 4) && !rel_ix.is_empty() {
        let r = rng.pick(&rel_ix).clone();
        rel_ix.insert(rng.below(rel_ix.len() + 1), r);
    }
    if !pf.clean && rng.pm(40) {
        // a lower artefact named twice
        if let Some((_, l)) = rel_ix.last_mut() {
            let x = *rng.pick(l);
            l.push(x);
        }
    }

    // scopes of Rust requirements are decided first, so that they can be referenced
    let mut rust_nodes: Vec<Vec<(RsNode, Vec<String>)>> = vec![];
    for i in 0..n {
        let mut nodes = vec![];
        if arts[i].parser == Parser::Rust {
            for r in reqs[i].iter_mut() {
                counter += 1;
                let f = RsNode {
                    kind: RsKind::Fn,
                    name: format!("f{counter}"),
                    marks: vec![],
                    children: vec![],
deco: 0,
                };
                let f = RsNode {
                    deco: rs_deco(rng),
                    ..f
                };
                let shape = rng.below(9);
                let top = match shape {
                    0 | 1 => f,
                    2 => RsNode {
                        kind: RsKind::Mod,
                        name: format!("m{}", rng.below(3)),
                        marks: vec![],
                        children: vec![f],
deco: 0,
                    },
                    3 => RsNode {
                        kind: RsKind::Impl,
                        name: (*rng.pick(&["S", "Vec<u8>", "Widget"])).to_owned(),
                        marks: vec![],
                        children: vec![f],
deco: 0,
                    },
                    4 => RsNode {
                        kind: RsKind::Mod,
                        name: "outer".into(),
                        marks: vec![],
                        deco: 0,
                        children: vec![RsNode {
                            kind: RsKind::ImplFor("Tr".into()),
                            name: "S".into(),
                            marks: vec![],
                            children: vec![f],
deco: 0,
                        }],
                    },
                    6 => RsNode {
                        kind: RsKind::Fn,
                        name: format!("g{counter}"),
                        marks: vec![],
                        children: vec![f],
                        deco: rs_deco(rng),
                    },
                    7 => RsNode {
                        kind: RsKind::Mod,
                        name: "mods".into(),
                        marks: vec![],
                        deco: rs_deco(rng),
                        children: vec![RsNode {
                            kind: RsKind::Mod,
                            name: (*rng.pick(&["inner", "outer", "größe"])).into(),
                            marks: vec![],
                            deco: rs_deco(rng),
                            children: vec![RsNode {
                                kind: RsKind::ImplFor((*rng.pick(&["Tr<u8>", "a::Tr", "From<W<u8>>"])).into()),
                                name: (*rng.pick(&["S", "Box<S>"])).into(),
                                marks: vec![],
                                deco: rs_deco(rng),
                                children: vec![f],
                            }],
                        }],
                    },
                    8 => RsNode {
                        // the marks are in the module, the implementation, the trait itself
                        kind: rng.pick(&[RsKind::Mod, RsKind::Impl, RsKind::Trait]).clone(),
                        name: format!("K{counter}"),
                        marks: vec![],
                        children: vec![],
                        deco: rs_deco(rng),
                    },
                    _ => RsNode {
                        kind: RsKind::Trait,
                        name: format!("T{}", rng.below(2)),
                        marks: vec![],
                        children: vec![f],
deco: 0,
                    },
                };
                let mut scope = vec![];
                let mut x = &top;
                loop {
                    scope.push(x.symbol());
                    match x.children.first() {
                        Some(c) => x = c,
                        None => break,
                    }
                }
                r.id = scope.join("::");
                nodes.push((top, scope));
            }
        }
        rust_nodes.push(nodes);
    }

    // references
    let title_for = |rng: &mut Rng, target: &Option<String>, from: Parser, id: &str, need: bool| -> Option<String> {
        // Markdown short lists and Rust marks for odd ids take no title
        if (!xid(id) && from != Parser::Json) || (from == Parser::Rust && !id.is_ascii()) {
            return None;
        }
        if !need && rng.pm(400) {
            return None;
        }
        let t = if !pf.clean && rng.pm(pf.wrong_title) {
            match target {
                Some(t) if rng.pm(700) => match rng.below(9) {
                    0 => t.to_lowercase(),
                    3 => t.replacen(' ', "  ", 1),
                    4 => t.split_whitespace().collect::<Vec<_>>().join(" "),
                    5 => {
                        let c = if t.ends_with('x') { 'y' } else { 'x' };
                        t.chars().take(t.chars().count().saturating_sub(1)).chain([c]).collect()
                    }
                    6 => t.chars().skip(1).collect(),
                    7 => t.replace(|c: char| !c.is_ascii(), "?"),
                    8 => t.split_whitespace().next().unwrap_or("x").to_owned(),
                    1 => format!("{t}."),
                    2 => t.chars().take(t.chars().count().saturating_sub(1)).collect::<String>(),
                    _ => format!("{t} x"),
                },
                _ => "Another Title".to_owned(),
            }
        } else {
            target.clone()?
        };
        let t = t.trim().to_owned();
        if t.is_empty() {
            return None;
        }
        Some(t)
    };
    let mut dead: Vec<usize> = vec![];
    for (ri, (u, lower)) in rel_ix.iter().enumerate() {
        let mut any = false;
        for k in 0..reqs[*u].len() {
            if !pf.clean && !rng.pm(pf.covered) {
                continue;
            }
            let mut options = vec![];
            for l in lower {
                for m in 0..reqs[*l].len() {
                    if can_cover(arts[*l].parser) && can_name(arts[*l].parser, &reqs[*u][k].id) {
                        options.push((*l, m, true));
                    }
                    if can_depend(arts[*u].parser) && can_name(arts[*u].parser, &reqs[*l][m].id) {
                        options.push((*l, m, false));
                    }
                }
            }
            if options.is_empty() {
                continue;
            }
            let times = if large && rng.pm(30) {
                rng.range(3, 40)
            } else if rng.pm(300) {
                2
            } else {
                1
            };
            for _ in 0..times {
                let (l, m, up) = *rng.pick(&options);
                any = true;
                let (ut, uid) = (reqs[*u][k].title.clone(), reqs[*u][k].id.clone());
                let (lt, lid) = (reqs[l][m].title.clone(), reqs[l][m].id.clone());
                if up {
                    let need = pf.clean && arts[*u].with_title == Some(true);
                    let t = title_for(rng, &ut, arts[l].parser, &uid, need);
                    reqs[l][m].covers.push((uid, t));
                } else {
                    let need = pf.clean && arts[l].with_title == Some(true);
                    let t = title_for(rng, &lt, arts[*u].parser, &lid, need);
                    reqs[*u][k].depends.push((lid, t));
                }
            }
        }
        if !any && pf.clean {
            dead.push(ri);
        }
    }
    if pf.clean {
        for ri in dead.into_iter().rev() {
            rel_ix.remove(ri);
        }
        // whatever still covers nothing gets something to cover, or its artefact ignores that
        for i in 0..n {
            let is_lower = rel_ix.iter().any(|(_, l)| l.contains(&i));
            for m in 0..reqs[i].len() {
                let id = reqs[i][m].id.clone();
                let covers_something = rel_ix.iter().any(|(u, l)| {
                    l.contains(&i)
                        && (reqs[*u]
                            .iter()
                            .any(|x| x.depends.iter().any(|d| d.0 == id) || reqs[i][m].covers.iter().any(|c| c.0 == x.id)))
                });
                if covers_something {
                    continue;
                }
                let up: Vec<usize> = rel_ix.iter().filter(|(_, l)| l.contains(&i)).map(|(u, _)| *u).collect();
                let mut done = false;
                if can_cover(arts[i].parser) {
                    for u in up {
                        if let Some(x) = reqs[u].first().cloned() {
                            if can_name(arts[i].parser, &x.id) {
                                let need = arts[u].with_title == Some(true);
                                let t = title_for(rng, &x.title, arts[i].parser, &x.id, need);
                                reqs[i][m].covers.push((x.id, t));
                                done = true;
                                break;
                            }
                        }
                    }
                }
                if !done {
                    arts[i].ignore_derived = Some(true);
                }
            }
            if !is_lower && arts[i].ignore_derived == Some(false) {
                arts[i].ignore_derived = None;
            }
            if arts[i].parser == Parser::Rust {
                arts[i].with_title = None;
            }
        }
    }
    // references to nothing
    if !pf.clean {
        for i in 0..n {
            for r in reqs[i].iter_mut() {
                if rng.pm(pf.unknown_ref) {
                    let all: Vec<&String> = used.iter().collect();
                    let id = if rng.coin() && !all.is_empty() {
                        (*rng.pick(&all)).clone()
                    } else {
                        format!("UNKNOWN_{}", rng.below(3))
                    };
                    if !can_name(arts[i].parser, &id) {
                        continue;
                    }
                    let t = if rng.pm(300) && xid(&id) && (arts[i].parser != Parser::Rust || id.is_ascii()) {
                        Some("Some Title".to_owned())
                    } else {
                        None
                    };
                    if can_cover(arts[i].parser) && (rng.coin() || !can_depend(arts[i].parser)) {
                        r.covers.push((id, t));
                    } else if can_depend(arts[i].parser) {
                        r.depends.push((id, t));
                    }
                }
            }
        }
    }
    for (u, l) in &rel_ix {
        rels.push(Rel {
            upper: arts[*u].id.clone(),
            lower: l.iter().map(|x| arts[*x].id.clone()).collect(),
        });
    }

    // documents
    for i in 0..n {
        let a = &mut arts[i];
        let odd = pf.odd_text;
        match a.parser {
            Parser::Markdown => {
                let path = format!("{}{}.md", rng.pick(&["", "doc/", "doc/sub dir/", "", "doc/", "doc/sub dir/", "../shared/", "{ROOT}/abs in/"]), ["req", "design", "ärt", "d", "e", "f g", "h.i", "j", "K", "l"][i % 10]);
                let path = match rng.below(25) {
                    0 => path.replace(".md", ".markdown"),
                    1 => path.replace(".md", ".txt"),
                    2 => path.replace(".md", ".MD"),
                    3 => path.replace(".md", ""),
                    4 => path.replace(".md", "[1].md"),
                    5 => path.replace(".md", "?.md"),
                    6 => format!(".github/{i}.md"),
                    7 => format!("target/doc/.{i}.md"),
                    _ => path,
                };
                let mut blocks = vec![];
                if rng.coin() {
                    blocks.push(format!("# {}\n\n{}\n\n", title(rng, false), words(rng, 5, odd)));
                }
                for r in &reqs[i] {
                    let fe = if pf.clean { 0 } else { pf.format_error };
                    blocks.push(md_block(rng, r, odd, pf.big, fe));
                    if rng.pm(150) {
                        blocks.push(format!("## {}\n\n{}\n\n", words(rng, 2, false), words(rng, 6, odd)));
                    }
                }
                a.paths = vec![path.clone()];
                a.files = vec![FileSpec::new(&path, Doc::Text(blocks))];
            }
            Parser::MonoRequirement => {
                let r = &reqs[i][0];
                let dir = if pf.unique && rng.coin() { String::new() } else { format!("m{i}/") };
                let path = format!("{dir}{}.{}", r.id, rng.pick(&["md", "txt"]));
                let mut lines = vec![format!("{}\n", r.title.clone().unwrap())];
                for _ in 0..rng.below(3) {
                    lines.push(format!("{}{}\n", mono_lead(rng), words(rng, 6, odd)));
                }
                if rng.pm(pf.big) {
                    lines.push(format!("{}\n", "long text ".repeat(if rng.pm(6) { rng.range(105_000, 130_000) } else if rng.pm(30) { rng.range(7000, 14000) } else { rng.range(500, 2000) })));
                }
                for (id, t) in &r.depends {
                    let lead = match rng.below(8) {
                        0 => String::new(),
                        1 => words(rng, 40, odd),
                        _ => format!("{}{}", mono_lead(rng), words(rng, 2, odd)),
                    };
                    match t {
                        Some(t) => lines.push(format!("{lead} => {id}: {t}\n")),
                        None => lines.push(format!("{lead} => {id}\n")),
                    }
                    if rng.pm(300) {
                        lines.push("\n".to_owned());
                    }
                }
                if rng.pm(200) {
                    if let Some(l) = lines.last_mut() {
                        l.pop();
                    }
                }
                a.paths = vec![path.clone()];
                a.files = vec![FileSpec::new(&path, Doc::Text(lines))];
            }
            Parser::Json => {
                let path = format!("{}list{i}.json", rng.pick(&["", "import/", "", "import/", "../shared/", "{ROOT}/abs in/"]));
                let path = match rng.below(20) {
                    0 => path.replace(".json", ""),
                    1 => path.replace(".json", ".JSON"),
                    2 => path.replace("list", ".list"),
                    3 => path.replace(".json", "*.json"),
                    4 => path.replace(".json", ".md"),
                    _ => path,
                };
                let mut v = vec![];
                for (k, r) in reqs[i].iter().enumerate() {
                    v.push(json_req(rng, r, k, pf));
                }
                a.paths = vec![path.clone()];
                a.files = vec![FileSpec::new(&path, Doc::Json(v, json_style(rng)))];
            }
            Parser::Rust => {
                let nfiles = match pf.multi_file {
                    // more than a process may have open at once
                    true if large && rng.pm(100) => rng.range(1030, 1060),
                    true if large => rng.range(4, 9),
                    true => rng.range(1, 4),
                    false => 1,
                };
                let dir = match rng.below(12) {
                    0 => format!("../code{i}"),
                    1 => format!("{{ROOT}}/code {i}"),
                    _ => format!("src{i}"),
                };
                let deep = rng.coin();
                let mut files: Vec<FileSpec> = vec![];
                let usual = nfiles > 100 || rng.pm(700);
                for k in 0..nfiles {
                    let sub = if deep && rng.coin() {
                        if usual {
                            *rng.pick(&["sub/", "sub/deep/", "z/"])
                        } else {
                            *rng.pick(&["tests/", "target/", ".git/", "node_modules/x/", "a b/", "ü/", "vendor/", "a/b/c/d/e/f/"])
                        }
                    } else {
                        ""
                    };
                    let name = if usual || rng.pm(300) {
                        format!("f{k}.rs")
                    } else {
                        let n = *rng.pick(&["mod.rs", "lib.rs", "main.rs", "build.rs", ".f.rs", "test_a.rs", "a_test.rs", "a b.rs", "ä.rs", "F.rs", ".#f.rs", "f.gen.rs", "_.rs", "-f.rs", "f~.rs", "a.rs.rs"]);
                        match files.iter().any(|f| f.path == format!("{dir}/{sub}{n}")) {
                            true => format!("f{k}.rs"),
                            false => n.to_owned(),
                        }
                    };
                    files.push(FileSpec::new(&format!("{dir}/{sub}{name}"), Doc::Rust(vec![])));
                }
                let take = std::mem::take(&mut rust_nodes[i]);
                for (r, (mut node, scope)) in reqs[i].iter().zip(take) {
                    {
                        let mut x = &mut node;
                        for _ in 1..scope.len() {
                            x = x.children.first_mut().unwrap();
                        }
                        for (id, t) in &r.covers {
                            let form = (rng.below(12)) as u8;
                            x.marks.push(RsMark {
                                id: id.clone(),
                                title: t.clone(),
                                form,
                                how: rs_how(rng),
                            });
                        }
                        if !pf.clean && rng.pm(pf.format_error / 2) {
                            x.marks.push(RsMark {
                                id: "REQ_A".into(),
                                title: None,
                                form: if rng.coin() { 255 } else { 254 },
                                how: 0,
                            });
                        }
                        if x.marks.is_empty() && !pf.clean && rng.coin() {
                            x.marks.push(RsMark {
                                id: format!("UNKNOWN_{}", rng.below(3)),
                                title: None,
                                form: 0,
                                how: rs_how(rng),
                            });
                        }
                        if !x.marks.is_empty() && rng.pm(150) {
                            // an item inside, with or without marks of its own
                            counter += 1;
                            for m in x.marks.iter_mut() {
                                if rng.coin() {
                                    m.how |= M_AFTER;
                                }
                            }
                            let marks = if rng.pm(700) {
                                let n = rng.below(x.marks.len());
                                x.marks[n..].to_vec()
                            } else {
                                vec![]
                            };
                            x.children.push(RsNode {
                                kind: RsKind::Fn,
                                name: format!("n{counter}"),
                                marks,
                                children: vec![],
                                deco: rs_deco(rng),
                            });
                        }
                    }
                    let k = rng.below(files.len());
                    if let Doc::Rust(v) = &mut files[k].doc {
                        v.push(node);
                        if !pf.clean && rng.pm(pf.format_error / 3) {
                            v.push(RsNode {
                                kind: RsKind::Mark,
                                name: format!("REQ_{}", rng.pick(&["A", "B"])),
                                marks: vec![],
                                children: vec![],
                                deco: rng.below(4) as u32,
                            });
                        }
                        if rng.pm(200) {
                            v.push(RsNode {
                                kind: RsKind::Fn,
                                name: format!("plain{}", rng.below(100)),
                                marks: vec![],
                                children: vec![],
deco: 0,
                            });
                        }
                        if rng.pm(pf.big) {
                            let n = if rng.pm(6) {
                                rng.range(70_000, 75_000)
                            } else if rng.pm(30) {
                                rng.range(4000, 6000)
                            } else {
                                rng.range(100, 400)
                            };
                            for p in 0..n {
                                v.push(RsNode {
                                    kind: RsKind::Fn,
                                    name: format!("pad{p}"),
                                    marks: vec![],
                                    children: vec![],
deco: 0,
                                });
                            }
                        }
                    }
                }
                if deep {
                    a.paths = vec![format!("{dir}/**/*.rs")];
                } else if rng.pm(300) {
                    a.paths = files.iter().map(|f| f.path.clone()).collect();
                } else {
                    let pattern = if nfiles > 100 {
                        *rng.pick(&["*.rs", "f*.rs"])
                    } else if usual {
                        *rng.pick(&["*.rs", "*.rs", "*.rs", "*.rs", "f?.rs", "f[0-9].rs", "[!a-e]*.rs"])
                    } else {
                        "*.rs"
                    };
                    a.paths = vec![format!("{dir}/{pattern}")];
                }
                a.files = files;
            }
        }
        for f in a.files.iter_mut() {
            if !pf.clean && rng.pm(pf.wild) {
                if let Doc::Text(t) = &mut f.doc {
                    wild(rng, t, a.parser);
                }
            }
            f.link = rng.pm(40);
            if rng.pm(pf.missing) {
                f.missing = true;
            } else if rng.pm(pf.cut) {
                f.cut = Some(cut_at(rng, &f.whole()));
            }
        }
    }
    if pf.clean {
        // missing references may have left a file without requirement; that is fine
    }

    let mut decoys = BTreeMap::new();
    for (p, c) in [
        ("src0/notes.txt", "requirement_covered!(REQ_A)"),
        ("doc/old.md", "# OLD_1: Old\n\nCovers: REQ_A\n"),
        ("other/keep.me", "keep"),
        ("out/previous.txt", "previous"),
        (".hidden", "h"),
    ] {
        if rng.coin() {
            decoys.insert(format!("{base}/{p}"), c.to_owned());
        }
    }
    decoys.insert("elsewhere/file.txt".to_owned(), "not here".to_owned());

    // a configuration in another place, maybe with a tempting one in the usual places
    let mut config = None;
    if rng.pm(200) {
        let c = match rng.below(5) {
            0 => CONFIG.to_owned(),
            1 => format!("{base}/other.toml"),
            2 => "conf/my requirements.toml".to_owned(),
            3 => format!("{base}/conf/{CONFIG}"),
            _ => format!("{base}/requirements"),
        };
        for place in [CONFIG.to_owned(), format!("{base}/{CONFIG}"), format!("{base}/requirements.toml.bak")] {
            if place != c && rng.coin() {
                let mut t = String::from("default_jobs = [\"tj\"]\nartefacts = []\nrelations = []\n");
                for (name, q, f) in [("tj", "Trace", "Json"), ("pm", "Parse", "Markdown"), ("tg", "Trace", "GnuError"), ("unknown", "Parse", "Json")] {
                    t.push_str(&format!("[jobs.{name}]\nquery = \"{q}\"\nformat = \"{f}\"\nfile = \"decoy/{name}\"\n"));
                }
                decoys.insert(place, t);
            }
        }
        config = Some(c);
    }

    let mut p = Project {
        config,
        base,
        invoke,
        arts,
        rels,
        jobs: vec![],
        default_jobs: None,
        version: if rng.pm(200) { Some(0) } else { None },
        decoys,
        config_raw: None,
        spell: if rng.pm(300) {
            let (a, b) = (rng.below(512) as u32, rng.below(512) as u32);
            let pad = if rng.pm(40) { SP_PAD } else { 0 } | if rng.pm(40) { SP_PAD_MORE } else { 0 };
            (a & b) | pad
        } else {
            0
        },
    };
    p.jobs = std_jobs(rng);
    p
}

/// One job for each useful pair of query and format, each with a destination of its own
pub fn std_jobs(rng: &mut Rng) -> Vec<JobSpec> {
    let other_names = rng.pm(300);
    let places: &[&str] = &["out", "out/deep/er", "build", ".", "../reports", "{ROOT}/abs"];
    let mut v = vec![];
    for (name, q, f, file) in [
        ("tj", "Trace", "Json", "trace.json"),
        ("tm", "Trace", "Markdown", "trace.markdown"),
        ("tg", "Trace", "GnuError", "trace.err"),
        ("pj", "Parse", "Json", "parse.json"),
        ("pm", "Parse", "Markdown", "parse.markdown"),
        ("pt", "Parse", "Tags", "tags"),
    ] {
        let place = rng.pick(places);
        let file = if other_names {
            (*rng.pick(match name {
                "tj" => &["trace.js", "TRACE", "träce 1.json", "trace.json.txt"],
                "tm" => &["trace.md", "trace.html", ".trace", "README.md"],
                "tg" => &["trace.txt", "errors", "trace.log", "t"],
                "pj" => &["requirements.json", "p", "parse.json~", "parse.rs"],
                "pm" => &["parse.md", "requirements.md", "#parse#", "parse.txt"],
                _ => &["TAGS", ".tags", "tags.tmp", "tags.txt"],
            }))
            .to_owned()
        } else {
            file.to_owned()
        };
        v.push(JobSpec {
            name: name.to_owned(),
            query: q.to_owned(),
            format: f.to_owned(),
            file: if *place == "." {
                format!("rep.{file}")
            } else {
                format!("{place}/{file}")
            },
            set_rc: None,
        });
    }
    v
}

fn rs_how(rng: &mut Rng) -> u32 {
    if rng.coin() {
        return 0;
    }
    let h = rng.next() as u32;
    // either braces or brackets
    if h & 3 == 3 {
        h & !3
    } else {
        h
    }
}

fn rs_deco(rng: &mut Rng) -> u32 {
    if rng.coin() {
        0
    } else {
        (rng.next() & rng.next()) as u32
    }
}

fn text_lines(rng: &mut Rng, odd: bool, big: u32) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 3) {
        let n = rng.range(1, 8);
        let indent = if rng.pm(150) { "  " } else { "" };
        let mut w = words(rng, n, odd);
        if rng.pm(60) {
            w = format!("- {w}");
        }
        if rng.pm(60) {
            w = format!("note: {w}");
        }
        s.push_str(indent);
        s.push_str(&w);
        if rng.pm(60) {
            s.push_str("  ");
        }
        s.push('\n');
    }
    if rng.pm(big) {
        s.push_str(&words(rng, 1, odd));
        if rng.pm(40) {
            // more lines than a number of 16 bits counts
            s.push_str(&"\n".repeat(rng.range(65_500, 66_500)));
        }
        // now and then beyond every usual buffer
        let (n, nl) = if rng.pm(6) {
            (rng.range(130_000, 160_000), rng.coin())
        } else if rng.pm(30) { (rng.range(9000, 18000), rng.coin()) } else { (rng.range(100, 900), false) };
        for k in 0..n {
            s.push_str(" füller");
            if nl && k % 12 == 0 {
                s.push('\n');
            }
        }
        s.push('\n');
    }
    s
}

/// Lines that nearly mean something, and other ends of lines
fn wild(rng: &mut Rng, t: &mut Vec<String>, parser: Parser) {
    let text = t.concat();
    let mut lines: Vec<String> = text.split_inclusive('\n').map(str::to_owned).collect();
    let odd: &[&str] = &[
        "Note : x", "note: x", "Note2: x", "NOTE: x", "No-te: x", " Note: x", "\tNote: x", "Note:x", "Note:", "Notiz: ü", "Ärger: x", "N: x", "Nö: x",
        "Covers", "Covers :", "covers: REQ_A", "Covers:REQ_A", "Covers: ,REQ_A,,DSG_1 ,", "Covers: REQ_A: Title", "Cover: REQ_A", "COVERS: REQ_A",
        "Depends: REQ_A DSG_1", "Depend: X1", "Depends", "Descriptions: x", "description: x",
        "   ", "\t", "\u{a0}", "\u{2003}\u{2003}", "\u{feff}", "\r", " \r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}text", "x\u{0}y",
        "====", "----", "---", "***", "===", "- - -", "```", "```md", "~~~", "    code", "> # REQ_Q: quoted", "> quote", "<!-- # REQ_C: comment -->", "<!--", "-->",
        "| a | b |", "|---|", "[ref]: http://x", "![i](x)", "1. one", "a) b", "+ item", "* item", "*item", "- X1", "* X1: T", "*   X1:T", "*\tX1: T", "*  X1 : T", "* 1X: T",
        "* X: T", "*   X1, X2", "*   REQ_A: Title: more", "*   REQ_A:", "    * REQ_A: nested", "REQ_A: Title", " => REQ_A", "=> REQ_A: Title", "=>REQ_A:Title", "x => REQ_A => DSG_1: y",
        "= > REQ_A", "=> 1A", "=> REQ_A.", "=> REQ_A: ", "-> REQ_A", "x=>REQ_A:t  ", "=> REQ_A, DSG_1",
        "#", "##", "# ", "#REQ_N{}: No blank", "#\tREQ_N{}: Tab", "########## REQ_N{}: Deep", " # REQ_N{}: Blank before", "# REQ_N{} : Blank after", "# REQ_N{}", "# REQ_N{}:",
        "# REQ_N{}:\u{a0}", "# REQ_N{}:No blank", "# REQ_N{}: Title #", "# REQ_N{}: Title ##  ", "# REQ-N{}: Minus", "# 1REQ_N{}: Digit", "# _N{}: Under", "# REQ N{}: Two words",
        "# R: One letter", "# REQ_N{}:: Two colons", "# REQ_N{}: a: b: c", "# Title only", "#! REQ_N{}: x", "\\# REQ_N{}: x", "# **REQ_N{}**: x", "# REQ_N{}:\tTab", "# req_n{}: lower",
        "# ÄÖ_N{}: Umlaut", "# REQ_N{}\u{301}: Combining", "#\u{a0}REQ_N{}: Odd blank", "## REQ_N{}: \r",
    ];
    for k in 0..rng.range(1, 5) {
        let at = rng.below(lines.len() + 1);
        let mut l = rng.pick(odd).replace("{}", &format!("{}{k}", rng.below(1000)));
        if rng.pm(930) || at < lines.len() {
            l.push('\n');
        }
        match rng.below(8) {
            // other ends of lines, here or everywhere
            0 if !lines.is_empty() => {
                let k = rng.below(lines.len());
                lines[k] = lines[k].replace('\n', "\r\n");
            }
            1 if rng.pm(300) => {
                for x in lines.iter_mut() {
                    if !x.ends_with("\r\n") {
                        *x = x.replace('\n', "\r\n");
                    }
                }
            }
            // blanks around
            2 if !lines.is_empty() => {
                let k = rng.below(lines.len());
                let b = *rng.pick(&[" ", "\t", "\u{a0}", "   ", "\u{feff}"]);
                if rng.coin() {
                    lines[k].insert_str(0, b);
                } else {
                    let n = lines[k].trim_end_matches('\n').len();
                    lines[k].insert_str(n, b);
                }
            }
            // a blank line less or more, a line repeated
            3 if !lines.is_empty() => {
                let k = rng.below(lines.len());
                if lines[k] == "\n" {
                    lines.remove(k);
                } else if !lines[k].starts_with('#') && parser == Parser::Markdown {
                    let x = lines[k].clone();
                    lines.insert(k, x);
                }
            }
            4 => lines.insert(at, "\n".to_owned()),
            _ => {
                if at == lines.len() {
                    if let Some(x) = lines.last_mut() {
                        if !x.ends_with('\n') {
                            x.push('\n');
                        }
                    }
                }
                lines.insert(at, l);
            }
        }
    }
    // from one heading to the next
    let mut out: Vec<String> = vec![];
    for l in lines {
        if parser == Parser::MonoRequirement || l.starts_with('#') || out.is_empty() {
            out.push(l);
        } else {
            out.last_mut().unwrap().push_str(&l);
        }
    }
    *t = out;
}

fn md_block(rng: &mut Rng, r: &Abs, odd: bool, big: u32, fe: u32) -> String {
    let mut s = format!(
        "{} {}:{}{}{}\n",
        "#".repeat(rng.range(1, 4)),
        r.id,
        if rng.pm(100) { "   " } else { " " },
        r.title.clone().unwrap_or_else(|| "t".into()),
        if rng.pm(60) { "  " } else { "" },
    );
    if rng.pm(700) {
        s.push('\n');
    }
    let mut need_blank = false;
    if rng.pm(600) {
        for k in 0..rng.range(1, 3) {
            if k > 0 {
                s.push_str(if rng.pm(150) { "\n\n" } else { "\n" });
            }
            s.push_str(&text_lines(rng, odd, big));
        }
        need_blank = true;
    }
    let mut attrs: Vec<u8> = vec![];
    if !r.covers.is_empty() {
        attrs.push(0);
    }
    if !r.depends.is_empty() {
        attrs.push(1);
    }
    if rng.pm(250) {
        attrs.push(2);
    }
    if rng.pm(150) {
        attrs.push(3);
    }
    if rng.pm(fe) {
        attrs.push(4);
    }
    rng.shuffle(&mut attrs);
    for a in attrs {
        if need_blank {
            s.push('\n');
            if rng.pm(100) {
                s.push('\n');
            }
        }
        need_blank = true;
        match a {
            0 | 1 => {
                let (name, refs) = if a == 0 {
                    ("Covers", &r.covers)
                } else {
                    ("Depends", &r.depends)
                };
                // without title and first ones: short list; the rest: long list
                let mut short: Vec<String> = vec![];
                let mut long = vec![];
                for (id, t) in refs {
                    if !xid(id) || (t.is_none() && long.is_empty() && rng.coin()) {
                        short.push(id.clone());
                    } else {
                        long.push((id, t));
                    }
                }
                s.push_str(&format!("{name}:{}{}\n", if short.is_empty() { "" } else { " " }, short.join(", ")));
                for (id, t) in long {
                    let bullet = *rng.pick(&["*   ", "*   ", "* ", "-   "]);
                    match t {
                        Some(t) => s.push_str(&format!("{bullet}{id}: {t}\n")),
                        None => s.push_str(&format!("{bullet}{id}\n")),
                    }
                }
            }
            2 | 3 => {
                let name = if a == 2 {
                    *rng.pick(&["Comment", "Rationale", "Acceptancecriterionandevidence"])
                } else {
                    *rng.pick(&["Status", "Note", "Verificationmethodology", "Id"])
                };
                if rng.coin() {
                    s.push_str(&format!("{name}: {}{}\n", words(rng, 3, odd), rng.pick(&["", "", "", "  ", " \t"])));
                } else {
                    s.push_str(&format!("{name}:\n"));
                }
                if rng.coin() {
                    s.push_str(&text_lines(rng, odd, 0));
                }
                if rng.pm(200) {
                    s.push('\n');
                    s.push_str(&text_lines(rng, odd, 0));
                }
                need_blank = rng.coin();
            }
            _ => match rng.below(4) {
                0 => {
                    s.push_str("Covers:\n\nstray text!\n");
                }
                1 => {
                    s.push_str("Comment: one\nComment: two\n");
                }
                2 => {
                    s.push_str("Covers:\n*   REQ_A: x\nnot a reference!\n");
                }
                _ => {
                    s.push_str("Description: again\n");
                }
            },
        }
    }
    if rng.pm(900) {
        s.push('\n');
    }
    s
}

fn mono_lead(rng: &mut Rng) -> &'static str {
    *rng.pick(&["", "", "", "", "# ", "- ", "  ", "> ", "*   ", "\t", "// ", "| "])
}

/// Where a file ends: anywhere, or where the writer would have ended a piece of it
pub fn cut_at(rng: &mut Rng, whole: &[u8]) -> usize {
    if rng.coin() {
        return rng.below(whole.len() + 1);
    }
    let c = *rng.pick(&[b'\n', b'}', b']', b',', b'"', b'\n', b'}', b' ', b';', b':']);
    let at: Vec<usize> = (0..whole.len()).filter(|i| whole[*i] == c).collect();
    if at.is_empty() {
        return rng.below(whole.len() + 1);
    }
    *rng.pick(&at) + rng.below(2)
}

fn json_style(rng: &mut Rng) -> u8 {
    match rng.below(4) {
        0 => 0,
        1 => 1,
        _ => (rng.next() & 0x7f) as u8,
    }
}

fn json_req(rng: &mut Rng, r: &Abs, k: usize, pf: &Profile) -> serde_json::Value {
    let loc = |rng: &mut Rng, line: usize| -> serde_json::Value {
        let f = *rng.pick(&["origin/a.c", "b c.h", "ä.py"]);
        match rng.below(4) {
            0 => json!({"file": f, "location_in_file": null}),
            1 => json!({"file": f, "location_in_file": {"Line": line}}),
            2 => json!({"file": f, "location_in_file": {"LineAndColumn": [line, rng.below(90)]}}),
            _ => json!({"file": f, "location_in_file": {"String": format!("sec {line}")}}),
        }
    };
    let mut n = 10 * (k + 1);
    let mut refs = |rng: &mut Rng, v: &Vec<(String, Option<String>)>| -> Vec<serde_json::Value> {
        v.iter()
            .map(|(id, t)| {
                n += 1;
                json!({"id": id, "title": t, "location": loc(rng, n)})
            })
            .collect()
    };
    let covers = refs(rng, &r.covers);
    let depends = refs(rng, &r.depends);
    let mut attributes = serde_json::Map::new();
    for a in ["Description", "Comment", "x y", "comment", "Ä1"] {
        if rng.pm(250) {
            attributes.insert(a.to_owned(), json!(text_lines(rng, pf.odd_text, pf.big)));
        }
    }
    let mut tags = vec![];
    for t in ["t1", "ü"] {
        if rng.pm(200) {
            tags.push(t);
        }
    }
    let l = 10 * (k + 1);
    let location = loc(rng, l);
    json!({
        "id": r.id, "title": r.title, "location": location,
        "covers": covers, "depends": depends, "tags": tags, "attributes": attributes,
    })
}
