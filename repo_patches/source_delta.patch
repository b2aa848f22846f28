From 738874591f2f9ed6fbb498942aecd0553bb07be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 01/18] fix: report read errors of mono requirement files
 instead of panicking

---
 src/parsers/monoreq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..84326d9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -42,7 +42,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 96374d46fd17c22137adb38f3a22d57eb449b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 02/18] fix: do not panic on a one byte last line without
 newline

---
 src/parsers/markdown.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..e861b89 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,8 +90,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(1) if line.starts_with('\n') => {
                 evt = Event::Empty;
             } /* TODO: Win line Endings */
             Ok(_) => {
-- 
2.43.0


From 79e88a5961ea2cc20463166cd65a327ed61167db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 03/18] fix: keep the first line of every further description
 paragraph

---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index e861b89..58c515d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -163,11 +163,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 87e4aa611ae7f86967c85f51ad2cd03a9b111998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 04/18] fix: keep the line break after the first line of a text
 attribute

---
 src/parsers/markdown.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 58c515d..6e946eb 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -139,6 +139,7 @@ fn parse_state_empty(state: State, context: &mut Context<'_>) -> State {
         }
         State::LookForAttr => state,
         State::CollectTextAttr(attr, mut val) => {
+            end_first_line(&mut val);
             val.push('\n');
             State::CollectTextAttr(attr, val)
         }
@@ -190,6 +191,7 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
                 commit_attr(context, attr, val);
                 start_attribute(context, &attr_line)
             } else {
+                end_first_line(&mut val);
                 val.push_str(line);
                 State::CollectTextAttr(attr, val)
             }
@@ -295,6 +297,13 @@ fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<
     add_req(context, req_line)
 }
 
+/// The text on the line of `Attribute:` is captured without its newline, add it before more text
+fn end_first_line(val: &mut String) {
+    if !val.is_empty() && !val.ends_with('\n') {
+        val.push('\n');
+    }
+}
+
 fn commit_attr(context: &mut Context<'_>, attr: String, val: String) {
     context
         .req_under_construction
-- 
2.43.0


From 3ea7eb12152859fdc5995fb257de3845fb37a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 05/18] fix: do not lose the last requirement of a Markdown
 file if a heading follows it

---
 src/parsers/markdown.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 6e946eb..4254c3c 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -256,26 +256,22 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
 
 fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
     match state {
-        State::LookForReq => state,
-        State::LookForDesc => State::LookForReq,
+        State::LookForReq | State::LookForDesc | State::LookForAttr => {}
         State::CollectDesc(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
         State::CollectDescNl(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
-        State::LookForAttr => State::LookForReq,
         State::CollectTextAttr(attr, val) => {
             commit_attr(context, attr, val);
-            State::LookForReq
         }
         State::CollectRefLink(attr, vec) => {
             commit_link_attr(context, attr, vec);
-            State::LookForReq
         }
     }
+    maybe_commit_req(context); // the heading ends the requirement, there may not be another one
+    State::LookForReq
 }
 
 fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<'_>) -> State {
-- 
2.43.0


From e8d28cbdae38e6a8a6abb7951b799009591e0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 06/18] fix: detect errors when the rest of a report is written
 to stdout

---
 src/controller.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..7e68dab 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -392,6 +392,9 @@ impl Controller {
             }
         };
 
+        // stdout is buffered, what remains in the buffer at exit is lost silently if it can not be written
+        let write_res = write_res.and_then(|()| out.flush());
+
         write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
-- 
2.43.0


From cde13bcbbbc58ac4cecd21d23f225cfa7890a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 07/18] fix: run the remaining jobs if the output of one job
 can not be written

---
 src/controller.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 7e68dab..f2fb68f 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -294,18 +294,27 @@ impl Controller {
     ) -> Result<JobSuccess, ControllerError> {
         let start = Instant::now();
         let mut success = JobSuccess::Success;
+        let mut first_err = None;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-            match self.run(job, job_name)? {
-                JobSuccess::Success => {}
-                JobSuccess::ErrorsDetected => {
+            match self.run(job, job_name) {
+                Ok(JobSuccess::Success) => {}
+                Ok(JobSuccess::ErrorsDetected) => {
                     if job.set_return_code.unwrap_or(true) {
                         requirement_covered!(DSG_CTRL_RETURN_CODE);
                         success = JobSuccess::ErrorsDetected;
                     }
                 }
+                Err(err) => {
+                    log::error!("Job {job_name} failed: {err}");
+                    first_err.get_or_insert(err);
+                }
             }
         }
 
+        if let Some(err) = first_err {
+            return Err(err);
+        }
+
         log::info!(
             "ran {} jobs in {}ms, result: {:?}",
             job_names.len(),
-- 
2.43.0


From ce219fea97427f07de3e43d673783b1c0befd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 08/18] fix: keep the exit code if stderr can not be written

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e9f7a56..09accf1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -125,7 +125,8 @@ fn main_rc() -> i32 {
     match r {
         Err(e) => {
             log::error!("{}", e);
-            eprintln!("{e}");
+            // eprintln! would panic if stderr can not be written
+            let _ = writeln!(std::io::stderr(), "{e}");
             2
         }
         Ok(JobSuccess::Success) => 0,
-- 
2.43.0


From dd75b19c1f7b2b0f9a98de96dd248f783de81972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 09/18] fix: reject relations between unknown artefacts instead
 of panicking

---
 src/main.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 09accf1..05d3ff5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,20 @@ fn get_config(opt: &Arguments) -> Result<Config, Box<dyn std::error::Error>> {
         }
     }
 
+    for rel in &config.relations {
+        for id in std::iter::once(&rel.upper).chain(&rel.lower) {
+            if !config.artefacts.iter().any(|a| &a.id == id) {
+                return Err(format!(
+                    "{}: relation {} references unknown artefact {}",
+                    opt.config_file.display(),
+                    rel,
+                    id
+                )
+                .into());
+            }
+        }
+    }
+
     Ok(config)
 }
 
-- 
2.43.0


From d7671abcfa14a2ca7b2e7b9fd0c80cfb1ecfc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 10/18] fix: reject artefact ids that are used twice instead of
 dropping the first artefact

---
 src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 05d3ff5..0c74f7f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,17 @@ fn get_config(opt: &Arguments) -> Result<Config, Box<dyn std::error::Error>> {
         }
     }
 
+    for (i, artefact) in config.artefacts.iter().enumerate() {
+        if config.artefacts[..i].iter().any(|a| a.id == artefact.id) {
+            return Err(format!(
+                "{}: artefact {} is defined more than once",
+                opt.config_file.display(),
+                artefact.id
+            )
+            .into());
+        }
+    }
+
     for rel in &config.relations {
         for id in std::iter::once(&rel.upper).chain(&rel.lower) {
             if !config.artefacts.iter().any(|a| &a.id == id) {
-- 
2.43.0


From 4228a6751867fa86ac2739330fdfd1ca24b0e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 11/18] fix: report formats that are not available for a query
 instead of panicking

---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..734e575 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -18,6 +18,13 @@ mod tags;
 //     }
 // }
 
+fn unsupported(query: &str, format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("format {format:?} is not available for query {query}"),
+    )
+}
+
 pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write) -> io::Result<()> {
     requirement_covered!(DSG_FORMATTER);
     match format {
@@ -34,7 +41,7 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("Parse", format)),
     }
 }
 
@@ -52,6 +59,6 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported("Trace", format)),
     }
 }
-- 
2.43.0


From fcbefaa41edf339fa9bd3b55a9865f8fb0352b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 12/18] fix: report coverage marks outside of any named item
 instead of panicking

---
 src/parsers/rust.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..58c5aae 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -77,6 +77,17 @@ impl Parser<'_> {
         let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
+        if self.scope.is_empty() {
+            // e.g. in the value of a top level constant
+            let err = Error::Format(
+                macro_location,
+                "requirement_covered!() is not inside a function, impl, trait or module".to_owned(),
+            );
+            log::info!("found problem {:#?}", &err);
+            self.errors.push(err);
+            return true;
+        }
+
         if let Some((referenced_id, title)) = match tokens.len() {
             0 => {
                 // requirement_covered!()
-- 
2.43.0


From 55f7b6edfb94b537f539ae249d538ebdf18895d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 13/18] fix: find files if the path of the base directory
 contains glob characters

---
 src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index f2fb68f..2427aa5 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -39,7 +39,8 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 46358977c7e396f5b074b0f481667e9c4ee381bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 14/18] fix: parse the other files of an artefact if one
 directory can not be listed

---
 src/controller.rs | 68 +++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 2427aa5..b5ad2c6 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -44,14 +45,20 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
-        for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+        match glob {
+            Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
+            Ok(glob) => {
+                for entry in glob {
+                    match entry {
+                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+                        Ok(entry) => result.push(entry),
+                    }
+                }
+            }
         }
     }
 
-    Ok(result)
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -108,38 +115,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From 2854adb8813114c2f35dfe9eb94e25ada82a902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 15/18] fix: report missing files of Rust artefacts that are
 listed without wildcards

---
 src/controller.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index b5ad2c6..2966000 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -48,6 +48,11 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
         match glob {
             Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
             Ok(glob) => {
+                let mut glob = glob.peekable();
+                if glob.peek().is_none() && !path.contains(['*', '?', '[']) {
+                    // not a pattern, so the file is missing: let opening it report that
+                    result.push(base_dir.join(path));
+                }
                 for entry in glob {
                     match entry {
                         Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
-- 
2.43.0


From 9bc462404460871bebe3bab34b051744fe1591dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 16/18] fix: coverage marks in item position or with braces
 were ignored silently

---
 src/parsers/rust.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 58c5aae..a7e96dd 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -63,10 +63,10 @@ struct Parser<'a> {
 }
 
 impl Parser<'_> {
-    fn parse_macro(&mut self, node: &syn::ExprMacro) -> bool {
+    fn parse_macro(&mut self, node: &syn::Macro) -> bool {
         requirement_covered!(FMT_IMPORT_RUS_COV_MARK);
 
-        let seg = &node.mac.path.segments;
+        let seg = &node.path.segments;
         if seg.len() != 1 {
             return false;
         }
@@ -74,7 +74,7 @@ impl Parser<'_> {
             return false;
         }
 
-        let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
+        let tokens: Vec<_> = node.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
         if self.scope.is_empty() {
@@ -196,9 +196,10 @@ impl Parser<'_> {
 }
 
 impl<'ast> Visit<'ast> for Parser<'ast> {
-    fn visit_expr_macro(&mut self, node: &'ast syn::ExprMacro) {
+    // expressions and items
+    fn visit_macro(&mut self, node: &'ast syn::Macro) {
         if !self.parse_macro(node) {
-            visit::visit_expr_macro(self, node);
+            visit::visit_macro(self, node);
         }
     }
 
-- 
2.43.0


From 4e2dcc02e50daee4cf3aeef5c560b32db2d2679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 17/18] fix: escapes in titles of coverage marks were mangled,
 raw strings rejected

---
 src/parsers/rust.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index a7e96dd..cdd306b 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -104,11 +104,9 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
+                    if let Ok(id) = syn::parse_str::<syn::LitStr>(&tokens[0].to_string()) {
                         // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
-                        Some((id, None))
+                        Some((id.value(), None))
                     } else {
                         let err = Error::Format(
                             location_from_span(self.path, &tokens[0].span()),
@@ -125,10 +123,8 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
-                        Some((id.to_string(), Some(title)))
+                    if let Ok(title) = syn::parse_str::<syn::LitStr>(&tokens[2].to_string()) {
+                        Some((id.to_string(), Some(title.value())))
                     } else {
                         // requirement_covered!(IDENT,17)
                         let err = Error::Format(
-- 
2.43.0


From 5a75f40106c8d51514e00b5d645b16b1536fe9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 18/18] fix: marks after a nested item made a duplicate of the
 item they belong to

---
 src/parsers/rust.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index cdd306b..51bbe61 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -166,16 +166,27 @@ impl Parser<'_> {
 
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
+            let location = self.locations.last().unwrap();
+
+            // an item can go on after an item inside of it
+            let same_item = match self.requirements.last() {
+                Some(last) if last.id == id => Some(self.requirements.len() - 1),
+                _ => self
+                    .requirements
+                    .iter()
+                    .position(|r| r.id == id && r.location == *location),
+            };
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match same_item {
+                Some(i) => {
+                    let req = &mut self.requirements[i];
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: location.clone(),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0

