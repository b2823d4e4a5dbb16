From e6165d46d4eb10d41686339dbb9e80db2fff97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 01/26] fix: markdown: blank lines and one-character last lines

A last line of one character without newline made the parser panic, and lines
of nothing but whitespace (every empty line of a file with CRLF line endings)
were not taken as empty lines, so that attributes after them were lost or
reported as format errors.
---
 src/parsers/markdown.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..50a7d62 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,10 +90,9 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(_) if line.trim().is_empty() => {
                 evt = Event::Empty;
-            } /* TODO: Win line Endings */
+            }
             Ok(_) => {
                 if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
-- 
2.43.0


From 8f99563c58735c98395b6d5d630d79f27c523357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:54 +0000
Subject: [PATCH 02/26] fix: markdown: keep the first line of every description
 paragraph

The line that starts the second or a later paragraph was dropped.
---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 50a7d62..210e090 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -163,11 +163,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 107927f1fd83fb6cedb8cdc28c36b2e92392c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:39 +0000
Subject: [PATCH 03/26] fix: markdown: keep a requirement that is followed only
 by headings

A plain heading ended the requirement without committing it; if no other
requirement followed, it was lost.
---
 src/parsers/markdown.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 210e090..d06463e 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -254,26 +254,19 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
 
 fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
     match state {
-        State::LookForReq => state,
-        State::LookForDesc => State::LookForReq,
-        State::CollectDesc(desc) => {
+        State::LookForReq | State::LookForDesc | State::LookForAttr => {}
+        State::CollectDesc(desc) | State::CollectDescNl(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
-        State::CollectDescNl(desc) => {
-            commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
-        }
-        State::LookForAttr => State::LookForReq,
         State::CollectTextAttr(attr, val) => {
             commit_attr(context, attr, val);
-            State::LookForReq
         }
         State::CollectRefLink(attr, vec) => {
             commit_link_attr(context, attr, vec);
-            State::LookForReq
         }
     }
+    maybe_commit_req(context);
+    State::LookForReq
 }
 
 fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<'_>) -> State {
-- 
2.43.0


From a001ffc056e597ba37a732e518cb830e90f842a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:41 +0000
Subject: [PATCH 04/26] fix: markdown: only bullet points are references

The pattern was not anchored, so that any line that ends in a word, even the
next attribute (`Depends: X` directly below `Covers: Y`), was taken for
a reference of the current list.
---
 src/parsers/markdown.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index d06463e..7ac2810 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
@@ -206,9 +206,9 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
                     location,
                 });
                 State::CollectRefLink(attr, vec)
-            } else if line.trim().is_empty() {
+            } else if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_link_attr(context, attr, vec);
-                State::LookForAttr
+                start_attribute(context, &attr_line)
             } else {
                 commit_link_attr(context, attr, vec);
                 let err = Error::Format(
-- 
2.43.0


From 9be17ab8205c7bfc2a1f9e5b4b332d4073d747e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 05/26] fix: markdown: separate the first line of an attribute
 from the next

The value of `Comment: one` followed by a line `two` became `onetwo`.
---
 src/parsers/markdown.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 7ac2810..d957da9 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -390,7 +390,11 @@ fn start_attribute(context: &mut Context<'_>, attr_line: &Captures<'_>) -> State
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
             }
-            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
+            let mut val = first_line.trim_end().to_owned();
+            if !val.is_empty() {
+                val.push('\n');
+            }
+            State::CollectTextAttr(attr.to_owned(), val)
         }
     }
 }
-- 
2.43.0


From 113cc99f7e0a3e6ee721ee327417e40e95cbd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:24 +0000
Subject: [PATCH 06/26] fix: markdown: headings below the requirement's level
 belong to its text

As documented in FMT_MD_DESC and FMT_MD_DESC_HEADINGS. Such a heading ended
the requirement, and the attributes that followed were silently ignored.
---
 src/parsers/markdown.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index d957da9..f505a47 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -62,6 +62,19 @@ enum State {
     CollectRefLink(String, Vec<Reference>),
 }
 
+impl State {
+    /// Whether text, including headings below the requirement's, belongs to the requirement
+    fn is_text(&self) -> bool {
+        matches!(
+            self,
+            State::LookForDesc
+                | State::CollectDesc(_)
+                | State::CollectDescNl(_)
+                | State::CollectTextAttr(_, _)
+        )
+    }
+}
+
 pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
     let mut context = Context {
         path,
@@ -97,8 +110,12 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
                 if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
                     evt = Event::Req(&req_line);
-                } else if HEADING_LINE.is_match(&line) {
-                    evt = Event::Heading;
+                } else if let Some(heading) = HEADING_LINE.captures(&line) {
+                    if heading[1].len() > context.level && state.is_text() {
+                        evt = Event::Line(&line[context.level..]);
+                    } else {
+                        evt = Event::Heading;
+                    }
                 } else {
                     evt = Event::Line(&line);
                 }
-- 
2.43.0


From 7c4c6ecfbd61597d671d8a9d2bb6a3179c4ca460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:28 +0000
Subject: [PATCH 07/26] fix: markdown: replace encoding errors, keep what was
 read before a read error

As documented in FMT_FILE_ENCODINGS. One invalid byte made the parser stop
and drop the requirement it was reading and all that follow.
---
 src/parsers/markdown.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index f505a47..9720c83 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -85,20 +85,22 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
         level: 0,
     };
 
-    let mut line = String::new();
+    let mut bytes = Vec::new();
     let mut state = State::LookForReq;
     loop {
         let evt: Event<'_>;
         let req_line;
 
-        line.clear();
+        bytes.clear();
         context.line_number += 1;
-        match reader.read_line(&mut line) {
+        let read = reader.read_until(b'\n', &mut bytes);
+        let line = String::from_utf8_lossy(&bytes);
+        match read {
             Err(e) => {
                 let err = Error::Io(context.path.to_owned(), e.to_string());
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
-                break;
+                evt = Event::Eof;
             }
             Ok(0) => {
                 evt = Event::Eof;
-- 
2.43.0


From d9fa6829c67f392c18820993a64844a37c09d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:30 +0000
Subject: [PATCH 08/26] fix: monoreq: do not panic on read errors and invalid
 UTF-8

Read errors are reported and, as documented in FMT_FILE_ENCODINGS, encoding
errors are replaced.
---
 src/parsers/monoreq.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..6e4557c 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -23,11 +23,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
 
     requirement_covered!(FMT_IMPORT_MONO_REQ, "Single Requirement Per File");
 
-    for (no, line) in reader.lines().enumerate() {
+    for (no, line) in reader.split(b'\n').enumerate() {
         match line {
             Ok(line) => {
+                let line = String::from_utf8_lossy(&line);
                 if title.is_none() {
-                    title = Some(line);
+                    title = Some(line.trim_end_matches('\r').to_owned());
                 } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
@@ -42,7 +43,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 1b9305cf738df5615c76c933f8e9562bd4ba29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:53 +0000
Subject: [PATCH 09/26] fix: monoreq: title is the first line with word
 characters, trimmed

As documented in FMT_IMPORT_MONO_REQ: a leading empty line or the markup of
a heading was taken for (a part of) the title, and an arrow in the first line
was ignored.
---
 src/parsers/monoreq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 6e4557c..d4fb267 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -12,6 +12,7 @@ use crate::models::Reference;
 use crate::models::Requirement;
 
 lazy_static! {
+    static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
         Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
 }
@@ -28,8 +29,9 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
             Ok(line) => {
                 let line = String::from_utf8_lossy(&line);
                 if title.is_none() {
-                    title = Some(line.trim_end_matches('\r').to_owned());
-                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                    title = TITLE.find(&line).map(|m| m.as_str().to_owned());
+                }
+                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
-- 
2.43.0


From 1127b39cfed5af29f234895b15a7832c1d74576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:55 +0000
Subject: [PATCH 10/26] fix: monoreq: every id after an arrow is a reference

As documented in FMT_IMPORT_MONO_REQ. Only the last arrow of a line was
looked at, and only if nothing but a title followed it.
---
 src/parsers/monoreq.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d4fb267..eb63ce0 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -14,7 +14,7 @@ use crate::models::Requirement;
 lazy_static! {
     static ref TITLE: Regex = Regex::new(r"\w(?:.*\w)?").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"=>\s*(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?)\s*$)?").unwrap();
 }
 
 pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
@@ -31,17 +31,22 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 if title.is_none() {
                     title = TITLE.find(&line).map(|m| m.as_str().to_owned());
                 }
-                if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
-                    let id = ref_link[1].into();
-                    let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
-                    let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
+                let arrows: Vec<_> = line.match_indices("=>").map(|(pos, _)| pos).collect();
+                for (i, start) in arrows.iter().enumerate() {
+                    // a reference ends where the next one starts
+                    let end = arrows.get(i + 1).copied().unwrap_or(line.len());
+                    if let Some(ref_link) = REF_LINK_LINE.captures(&line[*start..end]) {
+                        let id = ref_link[1].into();
+                        let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
+                        let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
 
-                    let reference = Reference {
-                        id,
-                        title: referenced_title,
-                        location,
-                    };
-                    depends.push(reference);
+                        let reference = Reference {
+                            id,
+                            title: referenced_title,
+                            location,
+                        };
+                        depends.push(reference);
+                    }
                 }
             }
 
-- 
2.43.0


From f9ba7d7dd7d603e86720c8af10548794a294bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:29 +0000
Subject: [PATCH 11/26] fix: rust: do not panic on a mark outside of any
 function

A mark in the initializer of a top level constant, which has no enclosing
item with a path, made the parser panic. Such marks belong to the file.
---
 src/parsers/rust.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..53a8fce 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -158,7 +158,13 @@ impl Parser<'_> {
             };
 
             // TODO: add info from path of source file to make symbols unique
-            let id = self.scope.join("::").into();
+            // Marks outside of any item belong to the file
+            let id = if self.scope.is_empty() {
+                self.path.display().to_string()
+            } else {
+                self.scope.join("::")
+            };
+            let id = id.into();
 
             match self.requirements.last_mut() {
                 Some(last) if last.id == id => {
@@ -168,7 +174,11 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: self
+                            .locations
+                            .last()
+                            .cloned()
+                            .unwrap_or_else(|| Location::new_with_no_pos(self.path.into())),
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From 8ba9d82351f5527e207276eb74eb0088ea48474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:31 +0000
Subject: [PATCH 12/26] fix: rust: find marks that are not expressions

Marks with braces in a function, and marks between items, were silently
ignored because they are macro items, not macro expressions.
---
 src/parsers/rust.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 53a8fce..edc48d7 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -63,10 +63,10 @@ struct Parser<'a> {
 }
 
 impl Parser<'_> {
-    fn parse_macro(&mut self, node: &syn::ExprMacro) -> bool {
+    fn parse_macro(&mut self, node: &syn::Macro) -> bool {
         requirement_covered!(FMT_IMPORT_RUS_COV_MARK);
 
-        let seg = &node.mac.path.segments;
+        let seg = &node.path.segments;
         if seg.len() != 1 {
             return false;
         }
@@ -74,7 +74,7 @@ impl Parser<'_> {
             return false;
         }
 
-        let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
+        let tokens: Vec<_> = node.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
         if let Some((referenced_id, title)) = match tokens.len() {
@@ -195,9 +195,9 @@ impl Parser<'_> {
 }
 
 impl<'ast> Visit<'ast> for Parser<'ast> {
-    fn visit_expr_macro(&mut self, node: &'ast syn::ExprMacro) {
+    fn visit_macro(&mut self, node: &'ast syn::Macro) {
         if !self.parse_macro(node) {
-            visit::visit_expr_macro(self, node);
+            visit::visit_macro(self, node);
         }
     }
 
-- 
2.43.0


From 839435d864ea4cb81ba74f089d9b682e77dad6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:33 +0000
Subject: [PATCH 13/26] fix: rust: keep the marks of an item that follow those
 of a nested item

The marks after the nested item became a second requirement with the same id,
which was reported as a duplicate and dropped.
---
 src/parsers/rust.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index edc48d7..b5399b9 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -166,11 +166,11 @@ impl Parser<'_> {
             };
             let id = id.into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().find(|req| req.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From aa0929e5fe18361ff0fd40b2fe283c23a46fbc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 14/26] fix: state the title of DSG_REQ_FIELDS in its mark

Now that marks between items are read, the empty title is reported.
---
 src/models.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models.rs b/src/models.rs
index fd65980..1584920 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -246,8 +246,8 @@ pub struct Requirement {
     pub tags: Vec<String>,
     pub attributes: BTreeMap<String, String>,
 }
-requirement_covered!(DSG_REQ_FIELDS, ""); //TODO: turn this macro into an attribute that can be
-                                          //applied to any item
+requirement_covered!(DSG_REQ_FIELDS, "Requirement Fields"); //TODO: turn this macro into an attribute that can be
+                                                            //applied to any item
 
 impl fmt::Display for Requirement {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From 2e8aa3cd740ea478f0d2e41b9b41661bcf594fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 15/26] fix: rust: read string literals as Rust does

Quotes were stripped from the source text: titles with escapes were garbled
and hence reported as wrong, and raw strings were refused.
---
 src/parsers/rust.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index b5399b9..0c82875 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -92,31 +92,24 @@ impl Parser<'_> {
                 // requirement_covered!(IDENT)
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
+                } else if let Some(id) = string_literal(&tokens[0]) {
+                    // requirement_covered!("REQU_ID")
+                    Some((id, None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
-                        // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
-                        Some((id, None))
-                    } else {
-                        let err = Error::Format(
-                            location_from_span(self.path, &tokens[0].span()),
-                            "requirement_covered!() single argument is not an identifier"
-                                .to_owned(),
-                        );
-                        log::info!("found problem {:#?}", &err);
-                        self.errors.push(err);
-                        None
-                    }
+                    let err = Error::Format(
+                        location_from_span(self.path, &tokens[0].span()),
+                        "requirement_covered!() single argument is not an identifier".to_owned(),
+                    );
+                    log::info!("found problem {:#?}", &err);
+                    self.errors.push(err);
+                    None
                 }
             }
 
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -269,6 +262,13 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+/// value of a string literal
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    syn::parse2::<syn::LitStr>(token.to_token_stream())
+        .ok()
+        .map(|literal| literal.value())
+}
+
 fn location_from_span(path: &Path, span: &Span) -> Location {
     let start = span.start();
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
-- 
2.43.0


From 511063c3b26aefe4aa314082734e1bcf65ccc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:18 +0000
Subject: [PATCH 16/26] fix: refuse relations with unknown artefacts without a
 panic

The tool panicked; now jobs fail with a configuration error, for which the
CLI's return code is 2.
---
 src/controller.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..2736e42 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -183,35 +183,38 @@ pub struct Controller {
     traced_graph: TracedGraph,
     jobs: BTreeMap<String, Job>,
     default_jobs: Vec<String>,
+    /// Mistakes in the config because of which no job can be run
+    config_errors: Vec<String>,
 }
 
 impl Controller {
     pub fn new(config: Config, base_dir: &Path) -> Self {
         let mut artefacts: BTreeMap<ArtefactId, Rc<Artefact>> = BTreeMap::new();
 
-        let relations: Vec<Relation> = config.relations;
+        let mut relations: Vec<Relation> = config.relations;
+
+        let mut config_errors: Vec<String> = Vec::new();
 
         let mut is_root: BTreeMap<&ArtefactId, bool> =
             config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
 
         for rel in &relations {
             if is_root.get(&rel.upper).is_none() {
-                let err = Error::Config(format!(
+                config_errors.push(format!(
                     "Relation.upper references unknown artefact {}",
                     &rel.upper
                 ));
-                todo!("log error {err}");
             }
 
             for lower in &rel.lower {
-                if is_root.get(&lower).is_none() {
-                    let err = Error::Config(format!(
+                if let Some(root) = is_root.get_mut(lower) {
+                    *root = false;
+                } else {
+                    config_errors.push(format!(
                         "Relation.lower references unknown artefact {}",
                         &lower
                     ));
-                    todo!("log error {err}");
                 }
-                *is_root.get_mut(&lower).unwrap() = false;
             }
         }
         for ac in &config.artefacts {
@@ -241,6 +244,11 @@ impl Controller {
             artefacts.insert(ac.id.clone(), a);
         }
 
+        relations.retain(|rel| {
+            artefacts.contains_key(&rel.upper)
+                && rel.lower.iter().all(|lower| artefacts.contains_key(lower))
+        });
+
         let graph = Graph {
             artefacts,
             relations,
@@ -255,6 +263,7 @@ impl Controller {
             traced_graph,
             jobs: config.jobs.unwrap_or_default(),
             default_jobs: config.default_jobs.unwrap_or_default(),
+            config_errors,
         }
     }
 
@@ -292,6 +301,12 @@ impl Controller {
         jobs: &[&Job],
         job_names: &[String],
     ) -> Result<JobSuccess, ControllerError> {
+        if !self.config_errors.is_empty() {
+            let err = ControllerError::Config(self.config_errors.join(", "));
+            log::info!("found problem {:#?}", &err);
+            return Err(err);
+        }
+
         let start = Instant::now();
         let mut success = JobSuccess::Success;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-- 
2.43.0


From 075e657d27b97979f0568cd62627715c59c0781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:20 +0000
Subject: [PATCH 17/26] fix: refuse two artefacts with the same id

The first was silently replaced by the second: neither its requirements nor
its errors appeared anywhere.
---
 src/controller.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 2736e42..e9f678c 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -195,8 +195,12 @@ impl Controller {
 
         let mut config_errors: Vec<String> = Vec::new();
 
-        let mut is_root: BTreeMap<&ArtefactId, bool> =
-            config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
+        let mut is_root: BTreeMap<&ArtefactId, bool> = BTreeMap::new();
+        for ac in &config.artefacts {
+            if is_root.insert(&ac.id, true).is_some() {
+                config_errors.push(format!("Artefact {} is defined twice", &ac.id));
+            }
+        }
 
         for rel in &relations {
             if is_root.get(&rel.upper).is_none() {
-- 
2.43.0


From 7284d481535e8021a4c8ff17a935d284b247874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 18/26] fix: report unavailable formats instead of panicking

---
 src/formatters/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..27b3732 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,7 +34,9 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(io::Error::other(format!(
+            "Format {format:?} is not available for query Parse"
+        ))),
     }
 }
 
@@ -52,6 +54,8 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(io::Error::other(format!(
+            "Format {format:?} is not available for query Trace"
+        ))),
     }
 }
-- 
2.43.0


From 9e3dbd08f35d2fb2ac340a7dc10a077669060968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:31 +0000
Subject: [PATCH 19/26] fix: notice when the end of a report cannot be written
 to stdout

stdout buffers what follows the last newline, for JSON the last brace, and
ignores errors when it is flushed at exit.
---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index e9f678c..6853707 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -411,7 +411,9 @@ impl Controller {
             }
         };
 
-        write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
+        write_res
+            .and_then(|()| out.flush())
+            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
             JobSuccess::Success => {
-- 
2.43.0


From fdde0cfc7022cd18da7e11defee7dfc8de624f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 20/26] fix: import the JSON that is exported

As documented in FMT_IMPORT_JSON, an object with version and requirements.
Only plain lists of requirements were accepted.
---
 src/controller.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 6853707..26924b0 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -53,6 +53,28 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
     Ok(result)
 }
 
+/// Requirements of a JSON file, which is an object like the one that is exported or a plain list
+fn parse_json(mut reader: impl io::Read) -> Result<Vec<Rc<Requirement>>, String> {
+    #[derive(serde::Deserialize)]
+    struct RequirementsFile {
+        version: u32,
+        requirements: Vec<Rc<Requirement>>,
+    }
+
+    let mut json = Vec::new();
+    reader.read_to_end(&mut json).map_err(|e| e.to_string())?;
+
+    if json.trim_ascii_start().starts_with(b"{") {
+        let file: RequirementsFile = serde_json::from_slice(&json).map_err(|e| e.to_string())?;
+        if file.version != 0 {
+            return Err(format!("unknown version {}", file.version));
+        }
+        Ok(file.requirements)
+    } else {
+        serde_json::from_slice(&json).map_err(|e| e.to_string())
+    }
+}
+
 fn parse_single_file(
     config: &ArtefactConfig,
     base_dir: &Path,
@@ -80,11 +102,10 @@ fn parse_single_file(
             let (reqs, errs) = match &config.parser {
                 ArtefactParser::Markdown => parsers::markdown::parse(&mut r, &path),
                 ArtefactParser::MonoRequirement => parsers::monoreq::parse(&mut r, &path),
-                ArtefactParser::Json => match serde_json::from_reader(r) {
+                ArtefactParser::Json => match parse_json(r) {
                     Ok(reqs) => (reqs, vec![]),
                     Err(err) => {
-                        let err =
-                            Error::Format(Location::new_with_no_pos(path.clone()), err.to_string());
+                        let err = Error::Format(Location::new_with_no_pos(path.clone()), err);
                         log::info!("found problem {:#?}", &err);
 
                         (vec![], vec![err])
-- 
2.43.0


From eeb283e7a40d7f3b60d86018da4f4face2938a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:29 +0000
Subject: [PATCH 21/26] fix: find files when the base directory's name looks
 like a pattern

Artefacts with patterns were silently empty if the base directory's name has
one of the characters `[]*?`.
---
 src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 26924b0..ace51f6 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -39,7 +39,8 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 00f0859bd9df88fd5ca33a7e63d2f1d2037f2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:31 +0000
Subject: [PATCH 22/26] fix: read the other files when one pattern is bad or
 one directory unreadable

All files of the artefact were dropped, contrary to REQ_LATE_ERROR.
---
 src/controller.rs | 68 +++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index ace51f6..1c8e404 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -44,14 +45,20 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
-        for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+        match glob {
+            Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
+            Ok(glob) => {
+                for entry in glob {
+                    match entry {
+                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+                        Ok(entry) => result.push(entry),
+                    }
+                }
+            }
         }
     }
 
-    Ok(result)
+    (result, errors)
 }
 
 /// Requirements of a JSON file, which is an object like the one that is exported or a plain list
@@ -129,38 +136,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From 9d51c26283f3cab1e014ebd01bac9679429ece0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 23/26] fix: report paths of multi file artefacts that match no
 file

A missing file of such an artefact was silently ignored, while it is an error
for all others.
---
 src/controller.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 1c8e404..32e6d30 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -48,12 +48,17 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
         match glob {
             Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
             Ok(glob) => {
+                let mut empty = true;
                 for entry in glob {
+                    empty = false;
                     match entry {
                         Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
                         Ok(entry) => result.push(entry),
                     }
                 }
+                if empty {
+                    errors.push(Error::Io(PathBuf::from(path), "No such file".to_owned()));
+                }
             }
         }
     }
-- 
2.43.0


From e1439ed0c229359c3dff30606f2544883f1c5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 24/26] fix: read a file once even if several patterns match it

It was read once per pattern, and all its requirements were reported as
duplicates of themselves.
---
 src/controller.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/controller.rs b/src/controller.rs
index 32e6d30..b0bb268 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -53,6 +53,7 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
                     empty = false;
                     match entry {
                         Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+                        Ok(entry) if result.contains(&entry) => {}
                         Ok(entry) => result.push(entry),
                     }
                 }
-- 
2.43.0


From 20892e6bff32eafc75691a37a04db79e72e335a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:32 +0000
Subject: [PATCH 25/26] fix: markdown: a title of blanks or of the line's end
 is none

---
 src/parsers/markdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9720c83..e0092df 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -15,10 +15,10 @@ use crate::models::Requirement;
 lazy_static! {
     static ref HEADING_LINE: Regex = Regex::new(r"^(#+)").unwrap();
     static ref REQUIREMENT_LINE: Regex =
-        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
+        Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(\S.*?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(\S.*?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From 244e2f581ba8942f1a007bbabb96f1bfaa228a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:53 +0000
Subject: [PATCH 26/26] fix: location: only ASCII digits are line and column
 numbers

---
 src/models.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models.rs b/src/models.rs
index 1584920..d398070 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -161,7 +161,7 @@ pub struct Location {
 }
 
 lazy_static::lazy_static! {
-    static ref LOCATION_RE: Regex = Regex::new(r"^(?P<file>.+?)(?::(?P<line>\d+))?(?::(?P<column>\d+))?$").unwrap();
+    static ref LOCATION_RE: Regex = Regex::new(r"^(?P<file>.+?)(?::(?P<line>[0-9]+))?(?::(?P<column>[0-9]+))?$").unwrap();
 }
 
 impl Location {
-- 
2.43.0

