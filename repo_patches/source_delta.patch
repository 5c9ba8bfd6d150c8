From d8092082d6ac5f91e8e123e960026c64705a3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 01/34] fix: parse texts that the start rule rejects

The parser panicked on them, now the file node with an error is built.
---
 fall/parse/src/syn_engine/expr.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..873187e 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,7 +20,19 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => leftover,
+        None => {
+            // The file node is there even if the start rule does not match.
+            let file_ty = match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => ty,
+                _ => unreachable!(),
+            };
+            parser.start(file_ty);
+            parser.finish();
+            pos
+        }
+    };
     if !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
-- 
2.43.0


From 96c856fffd89539dece6bebb17d52870d07c618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 02/34] fix: operators, replacements and injections inside
 lookahead

No events are recorded in the predicate mode, so there is nothing to patch:
the parser panicked or changed an unrelated event.
---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..d6109e0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -150,6 +150,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -158,6 +161,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From 8a6233ce72cd146e9c7e26bcd91ae94339f558a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 03/34] fix: arguments of a call are evaluated in the scope of
 the caller

Arguments were bound one after another, so that <f b a> inside of f(a, b) lost
an argument, and an argument that mentions a parameter of a recursive rule
referred to itself.
---
 fall/parse/src/syn_engine/expr.rs   | 16 ++++++++++++----
 fall/parse/src/syn_engine/parser.rs |  8 +++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 873187e..61a2f1c 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -333,15 +333,18 @@ fn parse_call<'g>(
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
     let old = p.args;
+    let frame = p.frames.len() as u32;
+    p.frames.push(old);
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
-            _ => arg
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
+            _ => (arg, frame)
         };
 
         p.args[arg_pos.0 as usize] = Some(arg);
     }
     let result = parse_expr(p, body, tokens);
+    p.frames.pop();
     p.args = old;
     result
 }
@@ -350,8 +353,13 @@ fn parse_var<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     i: Arg,
 ) -> Option<Pos> {
-    let expr = p.args[i.0 as usize].unwrap();
-    parse_expr(p, expr, tokens)
+    let (expr, frame) = p.args[i.0 as usize].unwrap();
+    // Parameters inside of an argument are those of the caller.
+    let old = p.args;
+    p.args = p.frames[frame as usize];
+    let result = parse_expr(p, expr, tokens);
+    p.args = old;
+    result
 }
 
 fn parse_prev_is<'g>(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index d6109e0..293cf9f 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -17,10 +17,15 @@ pub(crate) struct Parser<'g> {
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: [bool; 16],
-    pub args: [Option<ExprRef>; 16],
+    pub args: Args,
+    /// Arguments in effect at the sites of active calls.
+    pub frames: Vec<Args>,
     pub prev: Option<NodeType>,
 }
 
+/// An argument is an expression and the frame of the call site.
+pub(crate) type Args = [Option<(ExprRef, u32)>; 16];
+
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Pos(u32, u32);
 
@@ -71,6 +76,7 @@ impl<'g> Parser<'g> {
             predicate_mode: false,
             contexts: [false; 16],
             args: [None; 16],
+            frames: Vec::new(),
             prev: None,
         };
         (parser, pos)
-- 
2.43.0


From 559d25657d863a800734607568e8a3e647e570fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 04/34] fix: abandoned alternatives and lookahead do not change
 the previous node

Rolling back forgot only the events: the previously finished node and the
pending replacement of a failed attempt stayed visible.
---
 fall/parse/src/syn_engine/expr.rs   |  2 ++
 fall/parse/src/syn_engine/parser.rs | 30 ++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 61a2f1c..fcdb610 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -60,7 +60,9 @@ pub(crate) fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<P
 fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<Pos> {
     let old_mode = p.predicate_mode;
     p.predicate_mode = true;
+    let mark = p.mark();
     let result = parse_expr(p, expr, tokens);
+    p.rollback(mark);
     p.predicate_mode = old_mode;
     result
 }
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 293cf9f..e5b7514 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -39,7 +39,13 @@ impl Pos {
     }
 }
 
-pub(crate) struct Mark(u32);
+/// A point to go back to.
+#[derive(Copy, Clone)]
+pub(crate) struct Mark {
+    pos: u32,
+    prev: Option<NodeType>,
+    replacement: Option<NodeTypeRef>,
+}
 
 impl<'g> Parser<'g> {
     pub fn new(
@@ -125,8 +131,8 @@ impl<'g> Parser<'g> {
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.0 + 1);
-            match self.events[mark.0 as usize] {
+            let len = self.events.len() as u32 - (mark.pos + 1);
+            match self.events[mark.pos as usize] {
                 Event::Cached { ref mut n_events, .. } => *n_events = len,
                 _ => unreachable!(),
             }
@@ -143,7 +149,11 @@ impl<'g> Parser<'g> {
     }
 
     pub fn mark(&self) -> Mark {
-        Mark(self.events.len() as u32)
+        Mark {
+            pos: self.events.len() as u32,
+            prev: self.prev,
+            replacement: self.replacement,
+        }
     }
 
     pub fn rollback(&mut self, mark: Mark) {
@@ -152,7 +162,9 @@ impl<'g> Parser<'g> {
             unsafe { xs.set_len(len) }
         }
 
-        truncate_fast(&mut self.events, mark.0 as usize);
+        truncate_fast(&mut self.events, mark.pos as usize);
+        self.prev = mark.prev;
+        self.replacement = mark.replacement;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
@@ -160,7 +172,7 @@ impl<'g> Parser<'g> {
             return;
         }
         let ty = self[ty_idx];
-        match self.events[mark.0 as usize] {
+        match self.events[mark.pos as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
             _ => unreachable!()
         }
@@ -170,9 +182,9 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
+        match self.events[child.pos as usize] {
             Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
+                *forward_parent = Some(parent.pos - child.pos),
             _ => unreachable!(),
         }
     }
@@ -224,7 +236,7 @@ impl<'g> Parser<'g> {
     }
 
     fn start_ty(&mut self, ty: NodeType) -> Mark {
-        let mark = Mark(self.events.len() as u32);
+        let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
         mark
     }
-- 
2.43.0


From 73400400be0a6dfac7a066a3a9b0f8fbf914036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 05/34] fix: a replaceable rule does not discard the
 replacement of an enclosing one

---
 fall/parse/src/syn_engine/expr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index fcdb610..a6baf5b 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -143,15 +143,18 @@ fn parse_pub<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
 ) -> Option<Pos> {
+    let outer_replacement = p.replacement;
     if replaceable {
         p.replacement = None;
     }
     let mark = p.start(ty_idx);
     let ts = parse_expr(p, body, tokens)?;
-    if let (true, Some(ty)) = (replaceable, p.replacement) {
-        p.replacement = None;
-        p.replace(mark, ty)
-    };
+    if replaceable {
+        if let Some(ty) = p.replacement {
+            p.replace(mark, ty)
+        }
+        p.replacement = outer_replacement;
+    }
     p.finish();
     p.prev = Some(p[ty_idx]);
     Some(ts)
-- 
2.43.0


From 300a307bbe943ccd10fdf64cdc204abe32dace1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 06/34] fix: cached rules as operands, in injections, in
 lookahead and at the end of a file

All of these made the parser panic.
---
 fall/parse/src/syn_engine/parser.rs | 32 ++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index e5b7514..c16eb48 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -112,10 +112,15 @@ impl<'g> Parser<'g> {
     }
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
+        if pos.is_empty() {
+            return None;
+        }
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if !self.predicate_mode {
+                    self.add_cached_events(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
@@ -123,6 +128,17 @@ impl<'g> Parser<'g> {
         return None;
     }
 
+    fn add_cached_events(&mut self, events: &[Event]) {
+        for (i, &event) in events.iter().enumerate() {
+            self.events.push(match event {
+                // The parent is not a part of the cached segment.
+                Event::Start { ty, forward_parent: Some(fwd) } if i + fwd as usize >= events.len() =>
+                    Event::Start { ty, forward_parent: None },
+                _ => event,
+            });
+        }
+    }
+
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
         self.event(Event::Cached { key: expr.0, n_events: 0 });
@@ -182,13 +198,23 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.pos as usize] {
+        let child = self.start_event(child);
+        let parent = self.start_event(parent);
+        match self.events[child as usize] {
             Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.pos - child.pos),
+                *forward_parent = Some(parent - child),
             _ => unreachable!(),
         }
     }
 
+    fn start_event(&self, mark: Mark) -> u32 {
+        let mut pos = mark.pos;
+        while let Event::Cached { .. } = self.events[pos as usize] {
+            pos += 1;
+        }
+        pos
+    }
+
     pub fn bump(&mut self, pos: Pos) -> Option<(NodeType, Pos)> {
         if pos.is_empty() {
             return None;
-- 
2.43.0


From e2f7f69cd3a4441092e182cc1adeeb60c2cc3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 07/34] fix: a cached rule is reused only where parsing it
 would give the same

---
 fall/parse/src/syn_engine/expr.rs   |  15 ++-
 fall/parse/src/syn_engine/mod.rs    |  41 +++++---
 fall/parse/src/syn_engine/parser.rs | 147 +++++++++++++++++++++++-----
 3 files changed, 160 insertions(+), 43 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index a6baf5b..10023b6 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -238,9 +238,9 @@ fn parse_not<'g>(
 }
 
 fn parse_eof<'g>(
-    _: &mut Parser<'g>, tokens: Pos,
+    p: &mut Parser<'g>, tokens: Pos,
 ) -> Option<Pos> {
-    if tokens.is_empty() { Some(tokens) } else { None }
+    if p.at_end(tokens) { Some(tokens) } else { None }
 }
 
 fn parse_layer<'g>(
@@ -359,6 +359,7 @@ fn parse_var<'g>(
     i: Arg,
 ) -> Option<Pos> {
     let (expr, frame) = p.args[i.0 as usize].unwrap();
+    p.use_frame(frame);
     // Parameters inside of an argument are those of the caller.
     let old = p.args;
     p.args = p.frames[frame as usize];
@@ -397,10 +398,8 @@ fn parse_inject<'g>(
 }
 
 fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> Option<Pos> {
-
-    let mark = p.start_cached(expr);
-    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos))?;
-    p.finish_cached(mark);
-
-    Some(result)
+    let mark = p.start_cached(expr, pos);
+    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos));
+    p.finish_cached(mark, result);
+    result
 }
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..a19c638 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
+use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, ERROR};
 use crate::lex_engine::Token;
 use crate::{Expr, ExprRef};
 
@@ -34,7 +34,18 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    Cached { key: u32, n_events: u32, deps: Option<Deps> },
+}
+
+/// What the result of parsing a cached rule depends on, besides the rule and
+/// the text at the beginning of the segment.
+#[derive(Copy, Clone, Debug)]
+pub(crate) struct Deps {
+    /// Length of the text examined, lookahead included.
+    pub extent: TextUnit,
+    pub contexts: u16,
+    pub prev_before: Option<NodeType>,
+    pub prev_after: Option<NodeType>,
 }
 
 pub(crate) fn salvage_segments(
@@ -79,7 +90,7 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events } => {
+            Event::Cached { key, n_events, deps } => {
                 let start = text_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
@@ -93,21 +104,25 @@ pub(crate) fn salvage_segments(
                         _ => (),
                     }
                 }
-                if has_error {
-                    start_event += n_events;
-                    continue
-                }
+                let deps = match deps {
+                    Some(deps) if !has_error => deps,
+                    _ => {
+                        start_event += n_events;
+                        continue
+                    }
+                };
 
-                let end = text_pos;
-                let range = TextRange::from_to(start, end);
+                let end = start + deps.extent;
 
                 let mut inserted = tu(0);
                 for op in edit.ops.iter() {
                     match *op {
-                        TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
-                            let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
-                        } else {
+                        TextEditOp::Copy(copy) => {
+                            // The last token may change together with the text after it.
+                            if copy.start() <= start && end < copy.end() {
+                                let fixed_start = inserted + (start - copy.start());
+                                result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            }
                             inserted += copy.len()
                         }
                         TextEditOp::Insert(ref text) => inserted += text.as_text().len(),
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index c16eb48..872c6f0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
-use crate::syn_engine::{Grammar, Event};
+use crate::syn_engine::{Grammar, Event, Deps};
 use crate::{NodeTypeRef, ExprRef};
 
 pub(crate) struct Parser<'g> {
@@ -21,6 +21,37 @@ pub(crate) struct Parser<'g> {
     /// Arguments in effect at the sites of active calls.
     pub frames: Vec<Args>,
     pub prev: Option<NodeType>,
+    pub footprint: Footprint,
+}
+
+/// What has been looked at to get the current result.
+#[derive(Copy, Clone)]
+pub(crate) struct Footprint {
+    /// End of the examined text.
+    text: TextUnit,
+    /// Farthest end of the available tokens that has been noticed.
+    limit: Option<u32>,
+    /// The outermost frame whose argument has been used.
+    frame: u32,
+}
+
+impl Footprint {
+    fn empty() -> Footprint {
+        Footprint { text: tu(0), limit: None, frame: !0 }
+    }
+
+    fn merge(&mut self, other: Footprint) {
+        self.text = self.text.max(other.text);
+        self.limit = self.limit.max(other.limit);
+        self.frame = self.frame.min(other.frame);
+    }
+}
+
+/// State at the beginning of a cached rule.
+pub(crate) struct CachedMark {
+    mark: Mark,
+    pos: Pos,
+    footprint: Footprint,
 }
 
 /// An argument is an expression and the frame of the call site.
@@ -84,6 +115,7 @@ impl<'g> Parser<'g> {
             args: [None; 16],
             frames: Vec::new(),
             prev: None,
+            footprint: Footprint::empty(),
         };
         (parser, pos)
     }
@@ -115,17 +147,36 @@ impl<'g> Parser<'g> {
         if pos.is_empty() {
             return None;
         }
-        if let Some((ref cache, events)) = self.cache {
+        let (start_event, n_events, n_tokens) = {
+            let (ref cache, _) = self.cache.as_ref()?;
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
-            if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                if !self.predicate_mode {
-                    self.add_cached_events(&events[start_event as usize..(start_event + n_events) as usize]);
-                }
-                return Some(Pos(pos.0 + n_tokens, pos.1));
-            }
+            *cache.get(&(text_pos, expr))?
+        };
+        let (_, events) = *self.cache.as_ref()?;
+        let deps = match events[start_event as usize - 1] {
+            Event::Cached { deps: Some(deps), .. } => deps,
+            _ => return None,
+        };
+        let end = self.non_ws_indexes[pos.0 as usize].0 + deps.extent;
+        let is_cut = match self.non_ws_indexes.get(pos.1 as usize) {
+            Some(&(limit, _)) => limit < end,
+            None => false,
+        };
+        if is_cut || deps.contexts != self.context_set() || deps.prev_before != self.prev {
+            return None;
         }
 
-        return None;
+        self.footprint.text = self.footprint.text.max(end);
+        self.prev = deps.prev_after;
+        if !self.predicate_mode {
+            self.add_cached_events(&events[start_event as usize..(start_event + n_events) as usize]);
+        }
+        Some(Pos(pos.0 + n_tokens, pos.1))
+    }
+
+    fn context_set(&self) -> u16 {
+        self.contexts.iter().enumerate()
+            .fold(0, |set, (i, &on)| if on { set | 1 << i } else { set })
     }
 
     fn add_cached_events(&mut self, events: &[Event]) {
@@ -139,19 +190,46 @@ impl<'g> Parser<'g> {
         }
     }
 
-    pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
+    pub fn start_cached(&mut self, expr: ExprRef, pos: Pos) -> CachedMark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
-        mark
+        self.event(Event::Cached { key: expr.0, n_events: 0, deps: None });
+        let footprint = self.footprint;
+        self.footprint = Footprint::empty();
+        self.replacement = None;
+        CachedMark { mark, pos, footprint }
     }
 
-    pub fn finish_cached(&mut self, mark: Mark) {
-        if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.pos + 1);
-            match self.events[mark.pos as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
-                _ => unreachable!(),
+    pub fn finish_cached(&mut self, start: CachedMark, result: Option<Pos>) {
+        let footprint = self.footprint;
+        self.footprint = start.footprint;
+        self.footprint.merge(footprint);
+
+        let is_closed = self.replacement.is_none()
+            && footprint.limit < Some((start.pos).1)
+            && footprint.frame >= self.frames.len() as u32;
+        if self.replacement.is_none() {
+            self.replacement = start.mark.replacement;
+        }
+
+        if self.predicate_mode || result.is_none() {
+            return;
+        }
+
+        let contexts = self.context_set();
+        let prev_after = self.prev;
+        let extent = match self.non_ws_indexes.get((start.pos).0 as usize) {
+            Some(&(text_pos, _)) if footprint.text > text_pos => footprint.text - text_pos,
+            _ => tu(0),
+        };
+        let len = self.events.len() as u32 - (start.mark.pos + 1);
+        match self.events[start.mark.pos as usize] {
+            Event::Cached { ref mut n_events, ref mut deps, .. } => {
+                *n_events = len;
+                if is_closed {
+                    *deps = Some(Deps { extent, contexts, prev_before: start.mark.prev, prev_after });
+                }
             }
+            _ => unreachable!(),
         }
     }
 
@@ -216,7 +294,7 @@ impl<'g> Parser<'g> {
     }
 
     pub fn bump(&mut self, pos: Pos) -> Option<(NodeType, Pos)> {
-        if pos.is_empty() {
+        if self.at_end(pos) {
             return None;
         }
         let ty = self[pos].ty;
@@ -224,22 +302,42 @@ impl<'g> Parser<'g> {
         Some((ty, pos.next()))
     }
 
+    /// Is there nothing at `pos`?
+    pub fn at_end(&mut self, pos: Pos) -> bool {
+        if pos.is_empty() {
+            self.footprint.limit = self.footprint.limit.max(Some(pos.1));
+            return true;
+        }
+        let end = self.non_ws_indexes[pos.0 as usize].0 + self[pos].len;
+        self.footprint.text = self.footprint.text.max(end);
+        if self[pos].ty == ::fall_tree::ERROR {
+            // Any later text may turn it into something else.
+            self.footprint.limit = Some(!0);
+        }
+        false
+    }
+
     pub fn bump_by_text(&mut self, tokens: Pos, text: &str, ty_idx: NodeTypeRef) -> Option<Pos> {
-        if tokens.is_empty() {
+        if self.at_end(tokens) {
             return None;
         }
         let start = self.non_ws_indexes[tokens.0 as usize].0;
         let current_text = self.text.slice(TextSuffix::from(start));
+        let text_len = tu(text.len() as u32);
+        if current_text.len() < text_len {
+            self.footprint.limit = Some(!0);
+        }
+        self.footprint.text = self.footprint.text.max(start + text_len);
 
         if !current_text.starts_with(text) {
             return None;
         }
 
-        let mut leftover = tu(text.len() as u32);
+        let mut leftover = text_len;
         let mut n_tokens = 0;
         let mut pos = tokens;
         while leftover > tu(0) {
-            if pos.is_empty() {
+            if self.at_end(pos) {
                 return None;
             }
             let cur_len = self[pos].len;
@@ -261,6 +359,11 @@ impl<'g> Parser<'g> {
         Pos(tokens.0, suffix.0)
     }
 
+    /// Note that an argument of a call from `frame` has been used.
+    pub fn use_frame(&mut self, frame: u32) {
+        self.footprint.frame = self.footprint.frame.min(frame);
+    }
+
     fn start_ty(&mut self, ty: NodeType) -> Mark {
         let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
-- 
2.43.0


From 2421f45d112186923aefc081508f8663271580b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 08/34] fix: raw strings with more than thirty hashes

---
 lang/fall/syntax/src/fall.fall | 6 ++----
 lang/fall/syntax/src/fall.rs   | 6 ++----
 lang/rust/syntax/src/rust.fall | 6 ++----
 lang/rust/syntax/src/rust.rs   | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..10f27fa 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -250,10 +250,8 @@ verbatim r#########"
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
 "#########
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..f111002 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -188,10 +188,8 @@ pub fn language() -> &'static rt::Language {
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
 use self::rt::AstNode;
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..0f9f814 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1293,10 +1293,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
 fn parse_block_comment(s: &str) -> Option<usize> {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..bdc036e 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -571,10 +571,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
     let mut s = &s[2..];
-- 
2.43.0


From 478751c21b38f4663c142f1a06801f408f3f859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 09/34] fix: an empty text range is equal to itself, not less

---
 fall/text/src/text_range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 1b87fc4..72fa95c 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -113,12 +113,12 @@ impl ops::Index<TextRange> for String {
 
 impl PartialOrd for TextRange {
     fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
-        if self.end() <= other.start() {
+        if self == other {
+            Some(Ordering::Equal)
+        } else if self.end() <= other.start() {
             Some(Ordering::Less)
         } else if other.end() <= self.start() {
             Some(Ordering::Greater)
-        } else if self == other {
-            Some(Ordering::Equal)
         } else {
             None
         }
-- 
2.43.0


From 1423cbb9f750cc0ed71bd42b136d57bcdddfdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 10/34] fix: keep all texts inserted after a node, also if it
 is replaced

---
 fall/tree/src/edit.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fall/tree/src/edit.rs b/fall/tree/src/edit.rs
index 02e0b6e..b12c3f8 100644
--- a/fall/tree/src/edit.rs
+++ b/fall/tree/src/edit.rs
@@ -60,6 +60,13 @@ impl<'f> FileEdit<'f> {
     }
 
     fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
+        self.change_node(node, edit_builder);
+        for &(_, ref text) in self.inserted.iter().filter(|&&(n, _)| n == node) {
+            edit_builder.insert(node.range().end(), text.as_ref());
+        }
+    }
+
+    fn change_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
         if self.deleted.iter().find(|&&n| n == node).is_some() {
             edit_builder.delete(node.range());
             return;
@@ -73,9 +80,5 @@ impl<'f> FileEdit<'f> {
         for child in node.children() {
             self.text_edit_for_node(child, edit_builder);
         }
-
-        if let Some(&(_, ref replacement)) = self.inserted.iter().find(|&&(n, _)| n == node) {
-            edit_builder.insert(node.range().end(), replacement.as_ref());
-        }
     }
 }
-- 
2.43.0


From 99f9db04bc1ae6c61cd9f5131eb671b6db27b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 11/34] fix: do not offer to add braces to a renaming import

---
 lang/rust/src/editor/actions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/actions.rs b/lang/rust/src/editor/actions.rs
index 8fc6b10..aa78a95 100644
--- a/lang/rust/src/editor/actions.rs
+++ b/lang/rust/src/editor/actions.rs
@@ -1,7 +1,7 @@
 use fall_tree::{File, TextUnit, FileEdit, AstNode};
-use fall_tree::search::ast;
+use fall_tree::search::{ast, child_of_type};
 use fall_editor::actions::ActionResult;
-use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
+use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl, ALIAS};
 
 
 pub const ACTIONS: &[(&str, fn(&File, TextUnit, bool) -> Option<ActionResult>)] = &[
@@ -13,7 +13,7 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
     let use_decl: UseDecl = ast::node_at_offset(file.root(), offset)?;
     let path = use_decl.path()?;
     let last_segment = path.segment()?.node();
-    if use_decl.spec().is_some() {
+    if use_decl.spec().is_some() || child_of_type(use_decl.node(), ALIAS).is_some() {
         return None;
     }
     if !apply {
-- 
2.43.0


From 5829c73f7c408c30772e4f169cf6ddce5b954545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 12/34] fix: do not offer to extract the body of a rule

---
 lang/fall/src/editor/actions/extract_rule.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lang/fall/src/editor/actions/extract_rule.rs b/lang/fall/src/editor/actions/extract_rule.rs
index c314338..c9feb2d 100644
--- a/lang/fall/src/editor/actions/extract_rule.rs
+++ b/lang/fall/src/editor/actions/extract_rule.rs
@@ -15,11 +15,16 @@ pub fn extract_rule(file: &File, range: TextRange, apply: bool) -> Option<Action
         return None;
     }
 
+    let rule = ast::ancestor::<SynRule>(expr)?.node();
+    if expr.parent() == Some(rule) {
+        // The body of a rule is a block, a reference does not do.
+        return None;
+    }
+
     if !apply {
         return Some(ActionResult::Available)
     }
 
-    let rule = ast::ancestor_exn::<SynRule>(expr).node();
     let range = range_to_extract(expr, range);
 
     let new_rule = format!("\n\nrule new_rule {{\n  {}\n}}", file.text().slice(range));
-- 
2.43.0


From 4ee4cbe3a3774b65f9b10ee1f5ce7251086f9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 13/34] fix: the formatter treats each gap once and ignores
 empty nodes

---
 lang/fall/src/editor/formatter.rs | 59 ++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index c951fa9..0838b13 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -1,5 +1,4 @@
-use fall_tree::{Node, NodeType, File, TextEdit, FileEdit, tu};
-use fall_tree::search::{sibling, Direction};
+use fall_tree::{Node, NodeType, File, TextEdit, FileEdit};
 use crate::syntax::{PIPE, L_ANGLE, R_ANGLE, WHITESPACE};
 
 pub fn reformat(file: &File) -> TextEdit {
@@ -41,33 +40,45 @@ struct Spacer<'r> {
 }
 
 impl<'r> Spacer<'r> {
+    /// Fixes the spaces between the children of the node.
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
-        for &rule in self.rules {
-            let (spaces, ws_node, before_ws_node) =
-                match (rule, sibling(node, Direction::Right), sibling(node, Direction::Left)) {
-                    (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
-                        (spaces, next, node)
-                    }
-                    (Rule::Before(rty, spaces), _, Some(prev)) if rty == node.ty() => {
-                        (spaces, prev, prev)
-                    }
-                    _ => continue
-                };
-
-            if ws_node.text().contains("\n") {
-                continue
-            }
-
-            match (spaces, ws_node.ty() == self.ws_type) {
-                (Spaces::None, true) => edit.delete(ws_node),
-                (Spaces::Single, false) => edit.insert_text_after(before_ws_node, " ".to_owned()),
-                (Spaces::Single, true) if ws_node.text().len() != tu(1) => {
-                    edit.replace_with_text(ws_node, " ".to_owned())
+        let mut children = node.children().filter(|child| !child.range().is_empty());
+        let mut left = match children.next() {
+            Some(left) => left,
+            None => return,
+        };
+        while let Some(next) = children.next() {
+            let (ws, right) = if next.ty() == self.ws_type {
+                (Some(next), children.next())
+            } else {
+                (None, Some(next))
+            };
+
+            match (self.spaces_between(left, right), ws) {
+                (Some(_), Some(ws)) if ws.text().contains("\n") => (),
+                (Some(Spaces::None), Some(ws)) => edit.delete(ws),
+                (Some(Spaces::Single), None) => edit.insert_text_after(left, " ".to_owned()),
+                (Some(Spaces::Single), Some(ws)) if ws.text() != " " => {
+                    edit.replace_with_text(ws, " ".to_owned())
                 }
-                _ => continue
+                _ => (),
+            }
+            match right {
+                Some(right) => left = right,
+                None => return,
             }
         }
     }
+
+    fn spaces_between(&self, left: Node, right: Option<Node>) -> Option<Spaces> {
+        self.rules.iter()
+            .filter_map(|&rule| match rule {
+                Rule::After(ty, spaces) if ty == left.ty() => Some(spaces),
+                Rule::Before(ty, spaces) if right.map(|node| node.ty()) == Some(ty) => Some(spaces),
+                _ => None,
+            })
+            .next()
+    }
 }
 
 
-- 
2.43.0


From 17fe10250e71f216c96091c9ee5baa1d9aae9033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 14/34] fix: analysis of rules without body and tree views
 without name

---
 fall/gen/src/generate/codegen.rs              | 55 +++++++++++--------
 .../src/analysis/query/ast_node_traits.rs     |  2 +-
 .../fall/src/analysis/query/resolve_method.rs |  4 +-
 .../analysis/query/resolve_pratt_variant.rs   | 11 ++--
 lang/fall/src/editor/references/mod.rs        |  4 +-
 lang/fall/syntax/src/ast_ext.rs               |  8 +--
 lang/fall/syntax/src/fall.fall                | 15 ++---
 lang/fall/syntax/src/fall.rs                  | 31 ++++++-----
 8 files changed, 71 insertions(+), 59 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..1980201 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -72,16 +72,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
-        let verbatim = self.file().verbatim_def().map(|v| v.contents());
+        let verbatim = self.file().verbatim_def().and_then(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
 
         if let Some(ast) = self.file().ast_def() {
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
+                let name = node.name().ok_or(format_err!("Missing name of a node"))?;
                 Ok(CtxAstNode {
-                    struct_name: camel(node.name()),
-                    node_type_name: scream(node.name()),
+                    struct_name: camel(name),
+                    node_type_name: scream(name),
                     methods: node.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -89,15 +90,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_classes", &ast.ast_classes().map(|class| {
-                CtxAstClass {
-                    enum_name: camel(class.name()),
+                let name = class.name().ok_or(format_err!("Missing name of a class"))?;
+                Ok(CtxAstClass {
+                    enum_name: camel(name),
                     variants: class.variants().map(|variant| (scream(variant), camel(variant))).collect(),
-                }
-            }).collect::<Vec<_>>());
+                })
+            }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_traits", &ast.ast_traits().map(|trait_| {
+                let name = trait_.name().ok_or(format_err!("Missing name of a trait"))?;
                 Ok(CtxAstTrait {
-                    trait_name: camel(trait_.name()),
+                    trait_name: camel(name),
                     methods: trait_.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -105,7 +108,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         .filter(|&node| {
                             self.analysis.ast_node_traits(node).contains(&trait_)
                         })
-                        .map(|node| camel(node.name()))
+                        .filter_map(|node| node.name())
+                        .map(camel)
                         .collect(),
                 })
             }).collect::<Result<Vec<_>>>()?);
@@ -149,7 +153,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = rule.body().ok_or(format_err!("Missing body of a rule"))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
@@ -366,25 +371,31 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
+                let ty = match kind {
+                    ChildKind::AstNode(n) => n.name(),
+                    ChildKind::AstClass(n) => n.name(),
+                    ChildKind::Token(t) => Some(t.node_type()),
+                };
+                let ty = camel(ty.ok_or(format_err!("Missing name of a node"))?);
                 match (kind, arity) {
-                    (ChildKind::AstNode(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstNode(..), Arity::Single) =>
+                        (format!("{}<'f>", ty),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(..), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", ty),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstNode(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstNode(..), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", ty),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
-                    (ChildKind::AstClass(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                    (ChildKind::AstClass(..), Arity::Single) =>
+                        (format!("{}<'f>", ty),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(..), Arity::Optional) =>
+                        (format!("Option<{}<'f>>", ty),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
-                    (ChildKind::AstClass(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                    (ChildKind::AstClass(..), Arity::Many) =>
+                        (format!("rt::AstChildren<'f, {}<'f>>", ty),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::Token(lex_rule), arity) => {
diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..7ed7730 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -9,7 +9,7 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits().filter_map(|trait_| Some((trait_.name()?, trait_))).collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..72bb135 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -29,10 +29,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == Some(selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == Some(selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..34a8695 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -32,10 +32,11 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return rule.body().map(PratVariant::Atom);
         }
 
-        let args = match rule.body() {
+        let body = rule.body()?;
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +62,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +76,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +89,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..27ac78b 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
diff --git a/lang/fall/syntax/src/ast_ext.rs b/lang/fall/syntax/src/ast_ext.rs
index 2f1e0bb..73c8536 100644
--- a/lang/fall/syntax/src/ast_ext.rs
+++ b/lang/fall/syntax/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,10 +123,6 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
-    }
-
     pub fn variants<'a>(&'a self) -> Box<dyn Iterator<Item=Text<'f>> + 'a> {
         Box::new(children_of_type(self.node(), IDENT).skip(1).map(|it| it.text()))
     }
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 10f27fa..6e92cca 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -325,7 +325,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
@@ -349,7 +349,7 @@ ast {
   node attribute_value { }
 
   node verbatim_def {
-    literal_string hash_string.text
+    literal_string hash_string?.text
   }
 
   node ast_def {
@@ -359,19 +359,20 @@ ast {
   }
 
   node ast_node_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_trait_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_class_def {
-    name_ident ident
+    name_ident ident?
+    name ident?.text
   }
 
   node method_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index f111002..da46e22 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -302,8 +302,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
@@ -449,8 +449,8 @@ impl<'f> rt::AstNode<'f> for VerbatimDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> VerbatimDef<'f> {
-    pub fn literal_string(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), HASH_STRING).text()
+    pub fn literal_string(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), HASH_STRING).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for VerbatimDef<'f> {
@@ -503,11 +503,11 @@ impl<'f> rt::AstNode<'f> for AstNodeDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstNodeDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -533,11 +533,11 @@ impl<'f> rt::AstNode<'f> for AstTraitDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstTraitDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -563,8 +563,11 @@ impl<'f> rt::AstNode<'f> for AstClassDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstClassDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
+    }
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for AstClassDef<'f> {
-- 
2.43.0


From e67163c3a8f42c8dafd774dbfe9f5ce10eb69acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 15/34] fix: report all diagnostics, whatever has been asked
 before, in a fixed order

---
 lang/fall/src/analysis/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..e24081f 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -1,4 +1,4 @@
-use fall_tree::{File, AstNode};
+use fall_tree::{File, AstNode, TextUnit};
 use fall_tree::visitor::{visitor, process_subtree_bottom_up};
 use fall_editor::{Diagnostic, Severity};
 
@@ -66,14 +66,20 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
-        result.sort_by_key(|d| {
-            let priority = match d.severity {
-                Severity::Error => 0,
-                Severity::Warning => 1,
-            };
-            (priority, d.range.start(), d.range.end())
+        // The order of queries should not show.
+        result.sort_by(|a, b| {
+            fn key(d: &Diagnostic) -> (i32, TextUnit, TextUnit, &str) {
+                let priority = match d.severity {
+                    Severity::Error => 0,
+                    Severity::Warning => 1,
+                };
+                (priority, d.range.start(), d.range.end(), &d.message)
+            }
+            key(a).cmp(&key(b))
         });
         result
     }
-- 
2.43.0


From dbece8a84d74057de0f5917c6f6798559ec78aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 16/34] fix: the mark of an empty error stays inside of the
 text

---
 fall/editor/src/hl.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/fall/editor/src/hl.rs b/fall/editor/src/hl.rs
index 292d02a..09a7016 100644
--- a/fall/editor/src/hl.rs
+++ b/fall/editor/src/hl.rs
@@ -1,5 +1,6 @@
 use fall_tree::{TextRange, NodeType, Node, tu, ERROR as ERROR_TY};
 
+use fall_tree::search::ancestors;
 use fall_tree::visitor::{Visit, VisitorBuilder};
 
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Serialize, Deserialize)]
@@ -30,12 +31,7 @@ impl<'f> Visit<'f> for HlVisitor {
 
     fn visit(&mut self, node: Node<'f>, ctx: &mut Highlights) {
         if node.ty() == ERROR_TY {
-            let range = if node.range().is_empty() {
-                TextRange::from_len(node.range().start(), tu(1))
-            } else {
-                node.range()
-            };
-            ctx.push((range, ERROR));
+            ctx.push((error_range(node), ERROR));
             return;
         }
         for &(tag, tys) in self.0.iter() {
@@ -49,6 +45,22 @@ impl<'f> Visit<'f> for HlVisitor {
     }
 }
 
+/// An empty error is shown at the character next to it.
+fn error_range(node: Node) -> TextRange {
+    let range = node.range();
+    if !range.is_empty() {
+        return range;
+    }
+    let text = ancestors(node).last().unwrap().text().to_cow();
+    let (before, after) = text.split_at(range.start().utf8_len());
+    let len = |c: char| tu(c.len_utf8() as u32);
+    match (after.chars().next(), before.chars().next_back()) {
+        (Some(c), _) => TextRange::from_len(range.start(), len(c)),
+        (None, Some(c)) => TextRange::from_to(range.start() - len(c), range.start()),
+        (None, None) => range,
+    }
+}
+
 pub fn hl(node: Node, tag: HlTag, highlights: &mut Highlights) {
     highlights.push((node.range(), tag))
 }
-- 
2.43.0


From f73b6996a4011752333877c84feb43f4e06721b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 17/34] fix: typing help and breadcrumbs of Rust at the start
 of a file and in broken code

---
 lang/rust/src/editor/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..8da5939 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset == tu(0) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -44,18 +47,23 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
+        let before = TextRange::from_to(tu(0), offset);
+        if !self.file.text().slice(before).ends_with(".pd$") {
+            return None;
+        }
         let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
             .left_biased()?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
+        let stmt_range = expr.node().range();
+        if stmt_range.start() >= offset - tu(4) || stmt_range.end() != offset - tu(1) {
+            return None;
+        }
         let mut edit = FileEdit::new(&self.file);
         let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
+            TextRange::from_to(stmt_range.start(), offset - tu(4)),
         );
         edit.replace_substring(
-            TextRange::from_to(expr.node().range().start(), offset),
+            TextRange::from_to(stmt_range.start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
         );
         let edit = edit.into_text_edit();
@@ -63,7 +71,7 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
-        let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
+        let leaf = match find_leaf_at_offset(self.file.root(), offset).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
         };
-- 
2.43.0


From 1a191af41bb9721258acd10593fada65e4c1ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 18/34] fix: report mistakes in grammars instead of panicking
 or generating a wrong parser

---
 fall/gen/src/generate/codegen.rs | 105 +++++++++++++++++++++++++------
 fall/gen/src/util.rs             |   5 +-
 lang/fall/src/lib.rs             |   1 +
 3 files changed, 91 insertions(+), 20 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 1980201..4655293 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -1,10 +1,14 @@
 use serde_json;
 use tera::Context;
 
-use fall_tree::{Text, AstNode};
+use regex::Regex;
+
+use fall_tree::{Text, AstNode, ERROR};
+use fall_tree::search::subtree;
 use lang_fall::syntax::{FallFile, SynRule, LexRule, Expr, BlockExpr,
                         MethodDef, Parameter};
-use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind};
+use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind,
+               Severity};
 
 use fall_parse as dst;
 
@@ -13,6 +17,9 @@ use crate::util::{scream, camel};
 
 pub type Result<T> = std::result::Result<T, ::failure::Error>;
 
+/// How many contexts and parameters the parser supports.
+const LIMIT: usize = 16;
+
 pub(super) struct Codegen<'a, 'f: 'a> {
     analysis: &'a Analysis<'f>,
     node_types: Vec<(Text<'f>, bool)>,
@@ -20,6 +27,17 @@ pub(super) struct Codegen<'a, 'f: 'a> {
     expressions: Vec<dst::Expr>,
 }
 
+fn params(rule: SynRule) -> usize {
+    rule.parameters().map_or(0, |p| p.parameters().count())
+}
+
+fn context_ref(idx: u32) -> Result<dst::Context> {
+    if idx as usize >= LIMIT {
+        return Err(format_err!("More than {} contexts", LIMIT));
+    }
+    Ok(dst::Context(idx))
+}
+
 impl<'a, 'f> Codegen<'a, 'f> {
     pub fn new(analysis: &'a Analysis<'f>) -> Codegen<'a, 'f> {
         let node_types = {
@@ -48,6 +66,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     pub fn generate(&mut self) -> Result<Context> {
+        self.validate()?;
         let mut context = Context::new();
         context.insert("node_types", &self.node_types);
 
@@ -67,6 +86,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
             .filter(|r| !r.is_contextual())
             .map(|r| {
                 let re = r.token_re().ok_or(format_err!("Bad token"))?;
+                Regex::new(&re).map_err(|e| format_err!("Bad token `{}`: {}", r.node_type(), e))?;
                 Ok(CtxLexRule { ty: r.node_type(), re: format!("{:?}", re), f: r.extern_fn() })
             }).collect::<Result<Vec<_>>>()?;
 
@@ -118,6 +138,35 @@ impl<'a, 'f> Codegen<'a, 'f> {
         Ok(context)
     }
 
+    /// Reports mistakes for which there is no parser.
+    fn validate(&self) -> Result<()> {
+        let file = self.file();
+        if let Some(error) = subtree(file.node()).find(|n| n.ty() == ERROR) {
+            return Err(format_err!("Syntax error at {}", error.range()));
+        }
+        for d in self.analysis.collect_all_diagnostics() {
+            if let Severity::Error = d.severity {
+                return Err(format_err!("{}: {}", file.node().text().slice(d.range), d.message));
+            }
+        }
+        match file.syn_rules().next() {
+            Some(rule) if rule.ty_name().is_some() && !rule.is_replaces() && params(rule) == 0 => (),
+            _ => return Err(format_err!("The first rule must be public and have no parameters")),
+        }
+        if file.syn_rules().map(params).sum::<usize>() > LIMIT {
+            return Err(format_err!("More than {} parameters", LIMIT));
+        }
+        let mut names = vec!["ERROR".to_owned()];
+        for &(name, _) in self.node_types.iter() {
+            let constant = scream(name);
+            if names.contains(&constant) {
+                return Err(format_err!("Duplicate node type `{}`", name));
+            }
+            names.push(constant);
+        }
+        Ok(())
+    }
+
     fn file(&self) -> FallFile<'f> {
         self.analysis.ast()
     }
@@ -159,11 +208,17 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
             }
-            (true, _) => unreachable!(),
+            (true, _) => return Err(format_err!("Bad pratt spec")),
             (false, body) => self.gen_expr(body)?
         };
 
-        let body = match (self.syn_rule_ty(rule), rule.is_replaces(), rule.is_cached()) {
+        let ty = self.syn_rule_ty(rule);
+        if ty.is_none() {
+            if let Some(name) = rule.ty_name() {
+                return Err(format_err!("Unknown node type `{}`", name));
+            }
+        }
+        let body = match (ty, rule.is_replaces(), rule.is_cached()) {
             (Some(ty), true, _) => dst::Expr::PubReplace {
                 ty,
                 body,
@@ -189,7 +244,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) => return Err(format_err!("A rule that replaces must be public")),
         };
 
         Ok(body)
@@ -207,9 +262,14 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 dst::Expr::Or(block.alts().map(|e| self.gen_expr(e)).collect::<Result<Vec<_>>>()?),
 
             Expr::SeqExpr(seq) => {
-                fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
-                }
+                let analysis = self.analysis;
+                let is_commit = |part: Expr<'f>| match part {
+                    Expr::CallExpr(call) => match analysis.resolve_call(call) {
+                        Some(CallKind::Commit) => true,
+                        _ => false,
+                    },
+                    _ => false,
+                };
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
                     .filter(|&p| !is_commit(p))
@@ -236,7 +296,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             dst::Expr::Token(ty_ref)
                         }
                     }
-                    RefKind::RuleReference(rule) => return Ok(self.syn_rule_ref(rule)),
+                    RefKind::RuleReference(rule) => {
+                        if params(rule) > 0 {
+                            return Err(format_err!("Missing arguments of `{}`", expr.node().text()));
+                        }
+                        return Ok(self.syn_rule_ref(rule));
+                    }
                     RefKind::Param(p) => dst::Expr::Var(self.param_ref(p)),
                 }
             }
@@ -249,15 +314,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::Eof => dst::Expr::Eof,
                     CallKind::Any => dst::Expr::Any,
                     CallKind::Enter(idx, expr) => dst::Expr::Enter(
-                        dst::Context(idx as u32),
+                        context_ref(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::Exit(idx, expr) => dst::Expr::Exit(
-                        dst::Context(idx as u32),
+                        context_ref(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::IsIn(idx) => dst::Expr::IsIn(
-                        dst::Context(idx as u32)
+                        context_ref(idx)?
                     ),
                     CallKind::Not(expr) => dst::Expr::Not(self.gen_expr(expr)?),
                     CallKind::Layer(e1, e2) => dst::Expr::Layer(
@@ -279,9 +344,11 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("Unknown node type")))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("<commit> must be a part of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
@@ -294,9 +361,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
     fn gen_pratt(&mut self, ast: BlockExpr<'f>) -> Result<dst::PrattTable> {
         fn alt_to_rule<'f>(analysis: &Analysis<'f>, alt: Expr<'f>) -> Result<SynRule<'f>> {
             match alt {
-                Expr::SeqExpr(expr) => match expr.parts().next() {
-                    Some(Expr::RefExpr(ref_)) => match analysis.resolve_reference(ref_) {
-                        Some(RefKind::RuleReference(rule)) => Ok(rule),
+                Expr::SeqExpr(expr) => match (expr.parts().next(), expr.parts().nth(1)) {
+                    (Some(Expr::RefExpr(ref_)), None) => match analysis.resolve_reference(ref_) {
+                        Some(RefKind::RuleReference(rule)) if params(rule) == 0 => Ok(rule),
                         _ => return Err(format_err!("Bad pratt spec")),
                     },
                     _ => return Err(format_err!("Bad pratt spec"))
@@ -367,7 +434,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many => return Err(format_err!("Bad method `{}`", method.node().text())),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -407,7 +474,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many => return Err(format_err!("Bad method `{}`", method.node().text())),
                         }
                     }
                 }
diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..c53aa12 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,9 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
-        .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
+        .flat_map(|w| {
+            let first = w.chars().next().map(|c| c.to_ascii_uppercase());
+            first.into_iter().chain(w.chars().skip(1))
+        })
         .collect()
 }
diff --git a/lang/fall/src/lib.rs b/lang/fall/src/lib.rs
index fa0c0b5..5398f67 100644
--- a/lang/fall/src/lib.rs
+++ b/lang/fall/src/lib.rs
@@ -14,6 +14,7 @@ mod analysis;
 
 pub use self::analysis::{Analysis, FileWithAnalysis, CallKind, RefKind, PratVariant, PrattOp,
                          MethodKind, Arity, ChildKind};
+pub use fall_editor::Severity;
 
 pub fn parse<S: Into<String>>(text: S) -> File {
     syntax::lang_fall().parse(text.into())
-- 
2.43.0


From 61cec93c2f1d81e47467bcb8f6a21055e5517247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 19/34] fix: a contextual token has no skipped tokens inside

---
 fall/parse/src/syn_engine/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 872c6f0..368a154 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -341,7 +341,9 @@ impl<'g> Parser<'g> {
                 return None;
             }
             let cur_len = self[pos].len;
-            if leftover < cur_len {
+            // There is nothing to skip inside of a token.
+            let adjacent = self.non_ws_indexes[pos.0 as usize].0 == start + (text_len - leftover);
+            if leftover < cur_len || !adjacent {
                 return None;
             }
             leftover -= cur_len;
-- 
2.43.0


From ea9ee11ba4acb10774db907c0a54d6677216af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 20/34] fix: quotes and hashes in the text of a contextual
 token

---
 fall/gen/src/generate/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 4655293..09af57f 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -77,7 +77,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
             let expr = self.gen_rule(r)?;
             self.expressions[i] = expr;
         }
-        let parser = serde_json::to_string(&self.expressions).unwrap();
+        let parser = serde_json::to_string(&self.expressions).unwrap()
+            .replace("\"##", "\"\\u0023#"); // It would end the string literal.
         context.insert("parser_json", &parser);
 
         let lex_rules = self.file().tokenizer_def()
-- 
2.43.0


From 5794edc69621a70ec16f920c079642ab941ffd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 21/34] fix: operands of operators are expressions of their
 pratt rule

---
 fall/gen/src/generate/codegen.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 09af57f..66e10f0 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -206,7 +206,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
         let body = rule.body().ok_or(format_err!("Missing body of a rule"))?;
         let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
-                let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
+                let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(rule, block)?));
                 self.push_expr(pratt)
             }
             (true, _) => return Err(format_err!("Bad pratt spec")),
@@ -359,7 +359,31 @@ impl<'a, 'f> Codegen<'a, 'f> {
         Ok(self.push_expr(result))
     }
 
-    fn gen_pratt(&mut self, ast: BlockExpr<'f>) -> Result<dst::PrattTable> {
+    /// Are the operands of `operator` expressions of `pratt`, the only ones which are parsed?
+    fn has_own_operands(&self, pratt: SynRule<'f>, operator: SynRule<'f>) -> bool {
+        let parts = match operator.body() {
+            Some(Expr::BlockExpr(block)) => match block.alts().next() {
+                Some(Expr::SeqExpr(seq)) => seq.parts().collect::<Vec<_>>(),
+                _ => return false,
+            },
+            _ => return false,
+        };
+        let operands = match self.analysis.resolve_pratt_variant(operator) {
+            Some(PratVariant::Prefix(_)) => &parts[1..],
+            Some(PratVariant::Postfix(_)) => &parts[..1],
+            Some(PratVariant::Bin(_)) => &parts[..],
+            _ => return true,
+        };
+        operands.iter().step_by(2).all(|&part| match part {
+            Expr::RefExpr(ref_) => match self.analysis.resolve_reference(ref_) {
+                Some(RefKind::RuleReference(rule)) => rule.node() == pratt.node(),
+                _ => false,
+            },
+            _ => false,
+        })
+    }
+
+    fn gen_pratt(&mut self, pratt: SynRule<'f>, ast: BlockExpr<'f>) -> Result<dst::PrattTable> {
         fn alt_to_rule<'f>(analysis: &Analysis<'f>, alt: Expr<'f>) -> Result<SynRule<'f>> {
             match alt {
                 Expr::SeqExpr(expr) => match (expr.parts().next(), expr.parts().nth(1)) {
@@ -387,6 +411,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
             let prat_kind = self.analysis.resolve_pratt_variant(rule)
                 .ok_or(format_err!("pratt rule without attributes"))?;
 
+            if !self.has_own_operands(pratt, rule) {
+                return Err(format_err!("An operand of `{}` is not its pratt rule", rule.name().unwrap()));
+            }
+
             match prat_kind {
                 PratVariant::Atom(_) =>
                     result.atoms.push(self.syn_rule_ref(rule)),
-- 
2.43.0


From 874e439cdaad321dfe4b9b40eb6008c358690a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 22/34] fix: report names which the generated code can not have

---
 fall/gen/src/generate/codegen.rs | 77 +++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 5 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 66e10f0..af4ee94 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -31,6 +31,37 @@ fn params(rule: SynRule) -> usize {
     rule.parameters().map_or(0, |p| p.parameters().count())
 }
 
+const KEYWORDS: &'static [&'static str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else",
+    "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod",
+    "move", "mut", "override", "priv", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait",
+    "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+/// Adds `name` to the names of items of the generated code.
+fn declare(names: &mut Vec<String>, name: String) -> Result<()> {
+    let is_ident = name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !name.chars().next().map_or(true, |c| c.is_ascii_digit())
+        && name != "_";
+    if !is_ident || KEYWORDS.contains(&name.as_str()) {
+        return Err(format_err!("`{}` is not a name in Rust", name));
+    }
+    if names.contains(&name) {
+        return Err(format_err!("`{}` is already used", name));
+    }
+    names.push(name);
+    Ok(())
+}
+
+fn validate_methods<'f>(methods: impl Iterator<Item=MethodDef<'f>>) -> Result<()> {
+    // These are used by the generated code.
+    let mut names = vec!["node".to_owned(), "wrap".to_owned()];
+    for method in methods {
+        declare(&mut names, method.name().to_string())?;
+    }
+    Ok(())
+}
+
 fn context_ref(idx: u32) -> Result<dst::Context> {
     if idx as usize >= LIMIT {
         return Err(format_err!("More than {} contexts", LIMIT));
@@ -157,13 +188,49 @@ impl<'a, 'f> Codegen<'a, 'f> {
         if file.syn_rules().map(params).sum::<usize>() > LIMIT {
             return Err(format_err!("More than {} parameters", LIMIT));
         }
-        let mut names = vec!["ERROR".to_owned()];
+        // `LANG` is used by the generated code.
+        let mut types = vec!["ERROR".to_owned(), "LANG".to_owned()];
         for &(name, _) in self.node_types.iter() {
-            let constant = scream(name);
-            if names.contains(&constant) {
-                return Err(format_err!("Duplicate node type `{}`", name));
+            declare(&mut types, scream(name))?;
+        }
+        types.retain(|name| name != "LANG");
+        self.validate_ast(&types)
+    }
+
+    fn validate_ast(&self, types: &[String]) -> Result<()> {
+        let ast = match self.file().ast_def() {
+            Some(ast) => ast,
+            None => return Ok(()),
+        };
+        // These are used by the generated code.
+        let mut used: Vec<String> = ["AstNode", "Option", "Box", "Default", "Sync", "Send"]
+            .iter().map(|&name| name.to_owned()).collect();
+        for trait_ in ast.ast_traits() {
+            declare(&mut used, trait_.name().map_or(String::new(), camel))?;
+            validate_methods(trait_.methods())?;
+        }
+        let mut views = Vec::new();
+        for node in ast.ast_nodes() {
+            let constant = node.name().map_or(String::new(), scream);
+            if !types.contains(&constant) {
+                return Err(format_err!("Unknown node type `{}`", constant));
+            }
+            views.push(node.name().map_or(String::new(), camel));
+            declare(&mut used, views[views.len() - 1].clone())?;
+            validate_methods(node.methods())?;
+        }
+        for class in ast.ast_classes() {
+            declare(&mut used, class.name().map_or(String::new(), camel))?;
+            views.push(class.name().map_or(String::new(), camel));
+        }
+        for class in ast.ast_classes() {
+            let mut variants = Vec::new();
+            for variant in class.variants() {
+                if !views.contains(&camel(variant)) {
+                    return Err(format_err!("Unknown ast node `{}`", variant));
+                }
+                declare(&mut variants, camel(variant))?;
             }
-            names.push(constant);
         }
         Ok(())
     }
-- 
2.43.0


From bf64ba6784fa84f6bec3e0edc2538d3674db9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 23/34] fix: watch the roots before scanning them

---
 indxr/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..3325ffe 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -65,20 +65,26 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
-    let initial_indexing_start = ::std::time::Instant::now();
-    for path in index.file_set.roots.iter() {
-        index.change(path)
-    }
-    let elapsed = initial_indexing_start.elapsed();
-    info!("indexing took = {}s", elapsed.as_secs());
     let (tx, rx) = channel();
 
+    // Start watching before the initial scan, so as not to miss the changes
+    // which happen during it.
     let _watchers = index.file_set.roots.iter().map(|path| {
         let tx = tx.clone();
         let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
+        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
+            error!("can't watch {}: {:?}", path.display(), e);
+        }
         watcher
     }).collect::<Vec<_>>();
+
+    let initial_indexing_start = ::std::time::Instant::now();
+    for path in index.file_set.roots.iter() {
+        index.change(path)
+    }
+    let elapsed = initial_indexing_start.elapsed();
+    info!("indexing took = {}s", elapsed.as_secs());
+
     loop {
         match rx.recv() {
             Ok(event) => {
-- 
2.43.0


From 0ece4a7e92384c42edb37db29c55912dcd6d0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 24/34] fix: forget the files of directories which were
 removed, renamed or replaced

---
 indxr/src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 3325ffe..c18229a 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -114,31 +114,28 @@ fn watch<V>(index: &FileIndexImpl<V>) {
 
 impl<V> FileIndexImpl<V> {
     fn change(&self, path: &Path) {
+        // A file may have become a directory, and a directory may have been removed,
+        // renamed or replaced: what was indexed at the path and below it is obsolete.
         let added = path.exists();
         match (path.is_dir(), added) {
             (false, true) => {
                 if !(self.file_set.filter)(path) {
+                    remove_all(&mut self.data.lock().unwrap(), path);
                     return
                 }
                 let value = (self.mapper)(path);
                 let mut data = self.data.lock().unwrap();
+                remove_all(&mut data, path);
                 match value {
-                    None => {
-                        data.remove(path);
-                    },
+                    None => {}
                     Some(value) => {
                         let file = IndexedFile { path: path.to_owned(), value};
                         data.insert(path.to_owned(), file);
                     }
                 };
             }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
-                self.data.lock().unwrap().retain(|k, _| {
-                    !k.starts_with(path)
-                });
+            (_, false) => {
+                remove_all(&mut self.data.lock().unwrap(), path);
             }
             (true, true) => {
                 let files = WalkDir::new(path)
@@ -155,8 +152,14 @@ impl<V> FileIndexImpl<V> {
                     }
                 }
 
-                self.data.lock().unwrap().extend(local);
+                let mut data = self.data.lock().unwrap();
+                remove_all(&mut data, path);
+                data.extend(local);
             }
         };
     }
 }
+
+fn remove_all<V>(data: &mut HashMap<PathBuf, V>, path: &Path) {
+    data.retain(|k, _| !k.starts_with(path));
+}
-- 
2.43.0


From 396721dc2659a163437e727643ae349631c4a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 25/34] fix: scan the roots again when notifications were lost

---
 indxr/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index c18229a..84379e5 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -101,6 +101,12 @@ fn watch<V>(index: &FileIndexImpl<V>) {
                         index.change(&p1);
                         index.change(&p2);
                     }
+                    // Some events are lost.
+                    DebouncedEvent::Rescan => {
+                        for path in index.file_set.roots.iter() {
+                            index.change(path)
+                        }
+                    }
                     _ => continue,
                 }
             },
-- 
2.43.0


From b126d53436343a6e3268a25c6933bc332bcc948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 26/34] fix: count columns in UTF-16 code units, as editors do

---
 lang/rust/src/editor/line_index.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/line_index.rs b/lang/rust/src/editor/line_index.rs
index c8a85c9..10c44d1 100644
--- a/lang/rust/src/editor/line_index.rs
+++ b/lang/rust/src/editor/line_index.rs
@@ -3,6 +3,9 @@ use fall_tree::{TextUnit, tu, Text};
 
 pub struct LineIndex {
     newlines: Vec<TextUnit>,
+    /// Ends of the characters which are shorter in UTF-16, in which editors count
+    /// columns, than in UTF-8, and by how much they are.
+    wide: Vec<(TextUnit, u32)>,
 }
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
@@ -14,21 +17,30 @@ pub struct LineCol {
 impl LineIndex {
     pub fn new(text: Text) -> LineIndex {
         let mut newlines = vec![tu(0)];
+        let mut wide = Vec::new();
         let mut curr = tu(0);
         for c in text.to_string().chars() {
             curr += tu(c.len_utf8() as u32);
+            let excess = c.len_utf8() - c.len_utf16();
+            if excess > 0 {
+                wide.push((curr, excess as u32));
+            }
             if c == '\n' {
                 newlines.push(curr);
             }
         }
-        LineIndex { newlines }
+        LineIndex { newlines, wide }
     }
 
     pub fn translate(&self, offset: TextUnit) -> LineCol {
         let line = self.newlines.upper_bound(&offset) - 1;
         let line_start_offset = self.newlines[line];
-        let col = offset - line_start_offset;
-        return LineCol { line: line as u32, col: col.into() }
+        let col: u32 = (offset - line_start_offset).into();
+        let excess: u32 = self.wide.iter()
+            .filter(|&&(end, _)| line_start_offset < end && end <= offset)
+            .map(|&(_, excess)| excess)
+            .sum();
+        return LineCol { line: line as u32, col: col - excess }
     }
 }
 
-- 
2.43.0


From de47f54f2385de96335956aa6dcab7c22dca9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 27/34] fix: find all symbols whose names differ only in case

---
 lang/rust/src/editor/symbol_index.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..980276a 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeMap;
 use std::path::PathBuf;
 
 use fst;
@@ -74,17 +75,18 @@ impl Query {
 
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
-            let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            for symbol in file.symbols[idx as usize].iter().cloned() {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol)
+                }
             }
         }
     }
 }
 
 struct FileSymbols {
-    symbols: Vec<Symbol>,
+    /// Symbols whose names differ only in case are together.
+    symbols: Vec<Vec<Symbol>>,
     map: fst::Map<Vec<u8>>,
 }
 
@@ -102,12 +104,13 @@ impl FileSymbols {
                 lc_range: [line_index.translate(range.start()), line_index.translate(range.end())],
             })
         });
-        symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
+        let mut groups: BTreeMap<String, Vec<Symbol>> = BTreeMap::new();
+        for s in symbols {
+            groups.entry(s.name.to_lowercase()).or_insert_with(Vec::new).push(s);
+        }
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        let map = fst::Map::from_iter(groups.keys().zip(0u64..)).unwrap();
+        let symbols = groups.into_iter().map(|(_, group)| group).collect();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From 308f32e4ef916944e41cdf1729526db68f2909d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 28/34] fix: compare names with queries character by character

---
 lang/rust/src/editor/fst_subseq.rs   |  7 ++++++-
 lang/rust/src/editor/symbol_index.rs | 12 +++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/fst_subseq.rs b/lang/rust/src/editor/fst_subseq.rs
index 75b5c2b..07fcaf8 100644
--- a/lang/rust/src/editor/fst_subseq.rs
+++ b/lang/rust/src/editor/fst_subseq.rs
@@ -27,7 +27,12 @@ impl<'a> fst::Automaton for FstSubSeq<'a> {
         if byte == self.query.as_bytes()[state] {
             return state + 1;
         }
-        return state;
+        // This is another character, even if it starts with the same bytes.
+        let mut char_start = state;
+        while !self.query.is_char_boundary(char_start) {
+            char_start -= 1;
+        }
+        return char_start;
     }
 
     fn can_match(&self, _: &usize) -> bool {
diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 980276a..ad5ab44 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -58,10 +58,7 @@ struct Query {
 impl Query {
     fn new(query: &str) -> Query {
         let all_symbols = query.contains("#");
-        let query: String = query.chars()
-            .filter(|&c| c != '#')
-            .flat_map(char::to_lowercase)
-            .collect();
+        let query = lowercase(&query.replace('#', ""));
         Query { query, all_symbols }
     }
 
@@ -84,6 +81,11 @@ impl Query {
     }
 }
 
+/// Unlike `str::to_lowercase`, does not depend on the context of a character.
+fn lowercase(s: &str) -> String {
+    s.chars().flat_map(char::to_lowercase).collect()
+}
+
 struct FileSymbols {
     /// Symbols whose names differ only in case are together.
     symbols: Vec<Vec<Symbol>>,
@@ -106,7 +108,7 @@ impl FileSymbols {
         });
         let mut groups: BTreeMap<String, Vec<Symbol>> = BTreeMap::new();
         for s in symbols {
-            groups.entry(s.name.to_lowercase()).or_insert_with(Vec::new).push(s);
+            groups.entry(lowercase(&s.name)).or_insert_with(Vec::new).push(s);
         }
 
         let map = fst::Map::from_iter(groups.keys().zip(0u64..)).unwrap();
-- 
2.43.0


From a870ae647515d43b92bdc0aa7b954627f0c931c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 29/34] fix: keep the selection when there is nothing to extend
 it to

---
 code/common.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/common.ts b/code/common.ts
index a5933eb..bf86a22 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -72,6 +72,7 @@ export function createPlugin(
             if (editor == null || file == null) return
             editor.selections = editor.selections.map((s) => {
                 let range = file.extendSelection(s)
+                if (range == null) return s
                 return new vscode.Selection(range.start, range.end)
             })
         },
-- 
2.43.0


From 96d45073983a54655318d6793167af2ad93fc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 30/34] fix: an action may be gone by the time it is chosen

---
 code/common.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/common.ts b/code/common.ts
index bf86a22..d3296a6 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -143,6 +143,7 @@ export class EditorFile {
     applyContextAction(range_: vscode.Range, id: string) {
         let range = fromVsRange(this.doc, range_)
         let edits = this.call("applyContextAction", range, id)
+        if (edits == null) return
         let editor = vscode.window.activeTextEditor
         return editor.edit((builder) => {
             for (let op of edits) {
-- 
2.43.0


From fa739df77d93d8ef786860bff2ea8fd22fe54e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 31/34] fix: translate between bytes of the backend and UTF-16
 offsets of the editor

---
 code/common.ts        | 76 +++++++++++++++++++++++++++++++++++++++----
 code/fall/src/main.ts |  8 ++---
 code/rust/src/main.ts |  6 ++--
 3 files changed, 77 insertions(+), 13 deletions(-)

diff --git a/code/common.ts b/code/common.ts
index d3296a6..4888069 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -165,12 +165,13 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
         if (file == null) {
             delete docs[key]
         } else {
-            docs[key] = file
+            docs[key] = { file: file, text: doc.getText() }
         }
         onChange(doc)
     }
     function get(doc: vscode.TextDocument) {
-        return docs[doc.uri.toString()]
+        let entry = docs[doc.uri.toString()]
+        return entry && entry.file
     }
 
     function isKnownDoc(doc: vscode.TextDocument) {
@@ -183,9 +184,12 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
         let tree = get(doc)
         if (event.contentChanges.length == 1 && tree) {
             let edits = event.contentChanges.map((change) => {
+                let oldText = docs[doc.uri.toString()].text
                 let start = doc.offsetAt(change.range.start)
+                let deleted = oldText.substr(start, change.rangeLength)
+                let startOffset = Buffer.byteLength(oldText.substr(0, start))
                 return {
-                    "delete": [start, start + change.rangeLength],
+                    "delete": [startOffset, startOffset + Buffer.byteLength(deleted)],
                     "insert": change.text
                 }
             })
@@ -351,15 +355,75 @@ function setHighlights(
     }
 }
 
+// The backend counts bytes of UTF-8, and the editor counts UTF-16 code units.
+class Offsets {
+    version: number
+    // offset in bytes of each code unit, or null if they are all the same
+    bytes: Uint32Array | null
+
+    constructor(doc: vscode.TextDocument) {
+        this.version = doc.version
+        let text = doc.getText()
+        if (Buffer.byteLength(text) == text.length) {
+            this.bytes = null
+            return
+        }
+        this.bytes = new Uint32Array(text.length + 1)
+        let offset = 0
+        for (let i = 0; i < text.length; i++) {
+            this.bytes[i] = offset
+            let unit = text.charCodeAt(i)
+            let surrogate = 0xD800 <= unit && unit <= 0xDFFF
+            offset += unit < 0x80 ? 1 : (unit < 0x800 || surrogate) ? 2 : 3
+        }
+        this.bytes[text.length] = offset
+    }
+
+    toBackend(offset: number): number {
+        return this.bytes == null ? offset : this.bytes[offset]
+    }
+
+    fromBackend(offset: number): number {
+        if (this.bytes == null) return offset
+        let lo = 0
+        let hi = this.bytes.length - 1
+        while (lo < hi) {
+            let mid = (lo + hi) >> 1
+            if (this.bytes[mid] < offset) {
+                lo = mid + 1
+            } else {
+                hi = mid
+            }
+        }
+        return lo
+    }
+}
+
+const offsetsCache = new WeakMap<vscode.TextDocument, Offsets>()
+
+function offsets(doc: vscode.TextDocument): Offsets {
+    let result = offsetsCache.get(doc)
+    if (result == null || result.version != doc.version) {
+        result = new Offsets(doc)
+        offsetsCache.set(doc, result)
+    }
+    return result
+}
+
+export function toOffset(doc: vscode.TextDocument, position: vscode.Position): number {
+    return offsets(doc).toBackend(doc.offsetAt(position))
+}
+
 export function toVsRange(doc: vscode.TextDocument, range: [number, number]): vscode.Range {
+    let o = offsets(doc)
     return new vscode.Range(
-        doc.positionAt(range[0]),
-        doc.positionAt(range[1]),
+        doc.positionAt(o.fromBackend(range[0])),
+        doc.positionAt(o.fromBackend(range[1])),
     )
 }
 
 function fromVsRange(doc: vscode.TextDocument, range: vscode.Range): [number, number] {
-    return [doc.offsetAt(range.start), doc.offsetAt(range.end)]
+    return [toOffset(doc, range.start), toOffset(doc, range.end)]
 }
 
 export function toVsEdits(doc: vscode.TextDocument, edits): Array<vscode.TextEdit> {
diff --git a/code/fall/src/main.ts b/code/fall/src/main.ts
index 080619d..4a1a67b 100644
--- a/code/fall/src/main.ts
+++ b/code/fall/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, EditorFile, toVsRange } from './common'
+import { createPlugin, EditorFile, toVsRange, toOffset } from './common'
 import { log } from 'util'
 import { connect } from 'net';
 
@@ -61,7 +61,7 @@ class DefinitionProvider implements vscode.DefinitionProvider {
     ): vscode.Location {
         let file = this.getFile(document)
         if (file == null) return
-        let range = file.call("resolveReference", document.offsetAt(position))
+        let range = file.call("resolveReference", toOffset(document, position))
         if (range == null) return null
         let vsRange =  toVsRange(document, range)
         return new vscode.Location(document.uri, vsRange)
@@ -82,7 +82,7 @@ class ReferenceProvider implements vscode.ReferenceProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        return file.call("findUsages", document.offsetAt(position))
+        return file.call("findUsages", toOffset(document, position))
             .map((range) => new vscode.Location(document.uri, toVsRange(document, range)))
     }
 }
@@ -102,7 +102,7 @@ class CodeActionProvider implements vscode.CodeActionProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        let test_n = file.call("testAtOffset", document.offsetAt(range.start))
+        let test_n = file.call("testAtOffset", toOffset(document, range.start))
         if (test_n == null) return
         return [
             {
diff --git a/code/rust/src/main.ts b/code/rust/src/main.ts
index e630ff7..bd00fc5 100644
--- a/code/rust/src/main.ts
+++ b/code/rust/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, toVsRange, toVsEdits } from './common'
+import { createPlugin, toVsRange, toVsEdits, toOffset } from './common'
 import { log } from 'util'
 import { Uri, SymbolKind } from 'vscode';
 
@@ -31,7 +31,7 @@ export function activate(context: vscode.ExtensionContext) {
             let doc = event.textEditor.document
             let file = plugin.getFile(doc)
             if (file == null) return
-            let position = doc.offsetAt(event.textEditor.selection.active)
+            let position = toOffset(doc, event.textEditor.selection.active)
             let crumbs = file.call("breadcrumbs", position)
             breadcrumbsBar.text = crumbs.join(" $(chevron-right) ")
         })
@@ -100,7 +100,7 @@ class OnTypeFormattingEditProvider implements vscode.OnTypeFormattingEditProvide
     ): vscode.ProviderResult<vscode.TextEdit[]> {
         let file = this.getFile(document)
         if (file == null) return
-        let offset = document.offsetAt(position)
+        let offset = toOffset(document, position)
         if (ch == ' ') {
             let insert = file.call("afterSpaceTyped", offset)
             if (insert == null) return
-- 
2.43.0


From 2a80802590d754f95258e95f9803a436b08c265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 32/34] fix: show the syntax tree and the metrics of the
 current file

---
 code/common.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/common.ts b/code/common.ts
index 4888069..a617f23 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -59,11 +59,13 @@ export function createPlugin(
         showSyntaxTree: () => {
             let file = currentFile()
             if (file == null) return
+            textDocumentContentProvider.eventEmitter.fire(uris.syntaxTree)
             return openDoc(uris.syntaxTree)
         },
         metrics: () => {
             let file = currentFile()
             if (file == null) return
+            textDocumentContentProvider.eventEmitter.fire(uris.metrics)
             return openDoc(uris.metrics)
         },
         extendSelection: () => {
-- 
2.43.0


From 9206e59a7e09306294ab5c24679e9ca79de35fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 33/34] fix: a change of attributes may stand for a change of
 the contents

---
 indxr/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 84379e5..cc9a473 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -94,6 +94,8 @@ fn watch<V>(index: &FileIndexImpl<V>) {
                     | DebouncedEvent::NoticeRemove(path)
                     | DebouncedEvent::Create(path)
                     | DebouncedEvent::Write(path)
+                    // may stand for a change of the contents, too
+                    | DebouncedEvent::Chmod(path)
                     | DebouncedEvent::Remove(path) => {
                         index.change(&path)
                     }
-- 
2.43.0


From ebdd6e0adc06030ddccdd1fe148e76779111a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 34/34] fix: unclosed brackets in a grammar take linear time,
 as in Rust

---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 6e92cca..10ea716 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -233,7 +233,7 @@ rule in_parens { <balanced '(' ')'> }
 rule in_bracks { <balanced '[' ']'> }
 
 rule balanced(bra, ket) {
-  { bra <balanced bra ket> ket
+  { bra <commit> <balanced bra ket> ket
   | {<not ket> <any>}
   }*
 }
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index da46e22..f56d67f 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0

