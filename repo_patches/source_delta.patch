From 7b1bc5716434e27543f4fe89a70a4ef3ce03aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 1/6] fix: reject UTF-16 positions past the end of their line

PositionDb::text_size_utf16 and text_range_utf16 are documented to return
None for out of bounds positions, but returned an offset past the end of
the line or the text, or inside a character, for a column past the end of
its line or inside a surrogate pair (and overflowed for a huge column).
apply_changes::get panicked on such a range.
---
 crates/text-pos/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..ea46268 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -66,8 +66,14 @@ impl PositionDb {
   }
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
-    let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    let line = self.inner.line(pos.line)?;
+    let col = TextSize::from(pos.col);
+    if col > line.len() {
+      return None;
+    }
+    let ret = line.start() + col;
+    // the end of a line is past its newline, and so belongs to the next line.
+    (self.position_utf8(ret)? == pos).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
-- 
2.43.0


From d0a7c8b4ffb815baa71267f6548cd01f8d6ce54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 2/6] fix: let a node be preceded again after its preceding
 parent was abandoned

abandon left the parent link of the completed node in place, so calling
precede with the same Exited again panicked, though the documentation of
Exited shows code which hands that Exited back after abandoning.
---
 crates/event-parse/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..6f34064 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -62,7 +62,12 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    Entered {
+      bomb: DropBomb::new("Entered markers must be exited"),
+      ev_idx,
+      tok_idx: self.tok_idx,
+      preceded: None,
+    }
   }
 
   /// Abandons parsing a syntax construct.
@@ -76,6 +81,13 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
     assert!(self.events[en.ev_idx].is_none());
+    // if this was to be the parent of a completed node, that node may be preceded again.
+    if let Some(idx) = en.preceded {
+      match self.events[idx] {
+        Some(Event::Enter(_, ref mut parent)) => *parent = None,
+        ref ev => unreachable!("abandoned parent of {ev:?}, not Enter"),
+      }
+    }
   }
 
   /// Finishes parsing a syntax construct.
@@ -104,7 +116,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    ret.preceded = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -337,6 +350,8 @@ pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
   tok_idx: usize,
+  /// The event index of the completed node that this precedes, if any.
+  preceded: Option<usize>,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
-- 
2.43.0


From c4658021aab6951811690f02beb1a75605103a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 3/6] fix: make Exited::is_empty say whether the node has
 tokens

It compared token indices, so it was false for a node with no tokens when
trivia had been peeked past since the node was entered, and true for a node
which precedes another and has only that node's tokens. Count the bumped
tokens instead, starting at the preceded node if there is one.
---
 crates/event-parse/src/lib.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 6f34064..8c91262 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// How many tokens were bumped.
+  bumps: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, bumps: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -65,7 +67,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     Entered {
       bomb: DropBomb::new("Entered markers must be exited"),
       ev_idx,
-      tok_idx: self.tok_idx,
+      bumps: self.bumps,
       preceded: None,
     }
   }
@@ -101,7 +103,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    Exited { ev_idx: en.ev_idx, bumps: en.bumps, is_empty: self.bumps == en.bumps }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -117,6 +119,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
     let mut ret = self.enter();
+    // the completed node's tokens will be in this node too.
+    ret.bumps = ex.bumps;
     ret.preceded = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
@@ -155,7 +159,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, bumps: self.bumps, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -166,6 +170,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.bumps = save.bumps;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -223,6 +228,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.bumps += 1;
     ret
   }
 
@@ -349,7 +355,8 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  /// How many tokens were bumped before this node.
+  bumps: usize,
   /// The event index of the completed node that this precedes, if any.
   preceded: Option<usize>,
 }
@@ -373,6 +380,8 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  /// How many tokens were bumped before this node.
+  bumps: usize,
   is_empty: bool,
 }
 
@@ -389,6 +398,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  bumps: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From 105342dc69d2978038e2c62e811edcbeea713329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 4/6] fix: generate a kind file that compiles when there is no
 trivia

---
 crates/syntax-gen/src/kind.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/syntax-gen/src/kind.rs b/crates/syntax-gen/src/kind.rs
index 7fe94c6..ce2df38 100644
--- a/crates/syntax-gen/src/kind.rs
+++ b/crates/syntax-gen/src/kind.rs
@@ -64,8 +64,9 @@ pub(crate) fn get(
         Some(quote! { Self::#kind => #doc })
       },
     );
-  let self_trivia = trivia.iter().map(|id| {
-    quote! { Self::#id }
+  // not `matches!`, which needs at least one pattern
+  let trivia_arms = trivia.iter().map(|id| {
+    quote! { Self::#id => true }
   });
   // the order is intentional
   let syntax_kinds: Vec<_> = trivia
@@ -119,7 +120,10 @@ pub(crate) fn get(
 
     impl token::Triviable for SyntaxKind {
       fn is_trivia(&self) -> bool {
-        matches!(*self, #(#self_trivia)|*)
+        match *self {
+          #(#trivia_arms ,)*
+          _ => false,
+        }
       }
     }
 
-- 
2.43.0


From 274e4134aa1185839128cfc2da2b92d1b02541ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 5/6] fix: count fields of tokens and of nodes with the same
 name separately

---
 crates/syntax-gen/src/seq.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/syntax-gen/src/seq.rs b/crates/syntax-gen/src/seq.rs
index a9146d7..dee3c38 100644
--- a/crates/syntax-gen/src/seq.rs
+++ b/crates/syntax-gen/src/seq.rs
@@ -72,16 +72,18 @@ impl Modifier {
   }
 }
 
-fn field<'cx>(cx: &'cx Cx, counts: &mut Counts<&'cx str>, mut rule: &Rule) -> TokenStream {
+fn field<'cx>(cx: &'cx Cx, counts: &mut Counts<(bool, &'cx str)>, mut rule: &Rule) -> TokenStream {
   let mut modifier = Modifier::Regular;
   let mut label: Option<&str> = None;
   let name: &str;
+  let is_token: bool;
   let base_ty: Ident;
   let base_body: TokenStream;
   loop {
     match rule {
       Rule::Node(node) => {
         name = cx.grammar[*node].name.as_str();
+        is_token = false;
         base_ty = ident(name);
         base_body = if cx.token_alts.contains(&base_ty) {
           quote! { token_children(self) }
@@ -92,6 +94,7 @@ fn field<'cx>(cx: &'cx Cx, counts: &mut Counts<&'cx str>, mut rule: &Rule) -> To
       }
       Rule::Token(tok) => {
         name = cx.tokens.get(*tok).name.as_str();
+        is_token = true;
         base_ty = ident("SyntaxToken");
         let name_ident = ident(name);
         base_body = quote! { tokens(self, SK::#name_ident) };
@@ -128,7 +131,8 @@ fn field<'cx>(cx: &'cx Cx, counts: &mut Counts<&'cx str>, mut rule: &Rule) -> To
       }
     }
   };
-  let idx = get_idx(counts, name);
+  // an alt of nodes or tokens may have the same name as a token.
+  let idx = get_idx(counts, (is_token, name));
   let ret_ty: TokenStream;
   let body: TokenStream;
   match modifier {
-- 
2.43.0


From a5c929516a2c7564d5746cf969cbbf8ab91855de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 6/6] fix: treat a range that starts after its end as out of
 bounds

PositionDb::text_range_utf16 panicked on such a range, and so apply_changes::get did on a change
with one. A change that is not applied must also leave the last valid line of the index alone.
---
 crates/apply-changes/src/lib.rs | 6 +++---
 crates/text-pos/src/lib.rs      | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/apply-changes/src/lib.rs b/crates/apply-changes/src/lib.rs
index e584d20..bc0ac64 100644
--- a/crates/apply-changes/src/lib.rs
+++ b/crates/apply-changes/src/lib.rs
@@ -39,9 +39,9 @@ pub fn get(contents: &mut String, mut changes: Vec<Change>) {
     if index_valid <= range.end.line {
       pos_db = text_pos::PositionDb::new(contents);
     }
-    index_valid = range.start.line;
-    if let Some(range) = pos_db.text_range_utf16(range) {
-      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);
+    if let Some(text_range) = pos_db.text_range_utf16(range) {
+      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text);
+      index_valid = range.start.line;
     }
   }
 }
diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index ea46268..b2cf503 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -50,7 +50,8 @@ impl PositionDb {
     self.range_to_utf16(self.range_utf8(text_range)?)
   }
 
-  /// Returns the `TextRange` for this `RangeUtf16`, or `None` if it is out of bounds.
+  /// Returns the `TextRange` for this `RangeUtf16`, or `None` if it is out of bounds or if its start
+  /// is after its end.
   ///
   /// # Panics
   ///
@@ -84,7 +85,9 @@ impl PositionDb {
   }
 
   fn text_range_utf8(&self, range: RangeUtf8) -> Option<TextRange> {
-    Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))
+    let start = self.text_size_utf8(range.start)?;
+    let end = self.text_size_utf8(range.end)?;
+    (start <= end).then(|| TextRange::new(start, end))
   }
 
   fn position_to_utf16(&self, pos: PositionUtf8) -> Option<PositionUtf16> {
-- 
2.43.0

