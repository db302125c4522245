From cb58810a34751a02d2207d5fe3728a7c3933cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 1/5] fix: byte compression of regexes using all 256 bytes as
 separate classes

Class number 255 is a valid one, so 0xff cannot be used to mark the bytes
that do not have a class yet.
---
 src/bytecompress.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bytecompress.rs b/src/bytecompress.rs
index 6942b8b..815d83b 100644
--- a/src/bytecompress.rs
+++ b/src/bytecompress.rs
@@ -8,17 +8,18 @@ use crate::{
 pub struct ByteCompressor {
     pub mapping: Vec<u8>,
     pub alphabet_size: usize,
+    // which bytes already have their entry in mapping filled in
+    mapped: Vec<bool>,
     bytesets: Vec<Vec<u32>>,
     map_cache: HashMap<ExprRef, ExprRef>,
 }
 
-const INVALID_MAPPING: u8 = 0xff;
-
 impl ByteCompressor {
     pub fn new() -> Self {
         ByteCompressor {
             mapping: Vec::new(),
             alphabet_size: 0,
+            mapped: Vec::new(),
             bytesets: Vec::new(),
             map_cache: HashMap::new(),
         }
@@ -80,7 +81,8 @@ impl ByteCompressor {
     }
 
     pub fn compress(&mut self, exprset: &ExprSet, rx_list: &[ExprRef]) -> (ExprSet, Vec<ExprRef>) {
-        self.mapping = vec![INVALID_MAPPING; exprset.alphabet_size()];
+        self.mapping = vec![0; exprset.alphabet_size()];
+        self.mapped = vec![false; exprset.alphabet_size()];
 
         let mut todo = rx_list.to_vec();
         let mut visited = vec![false; exprset.len()];
@@ -93,9 +95,10 @@ impl ByteCompressor {
             match exprset.get(e) {
                 Expr::Byte(b) => {
                     assert!(
-                        self.mapping[b as usize] == INVALID_MAPPING,
+                        !self.mapped[b as usize],
                         "visiting the same byte the second time"
                     );
+                    self.mapped[b as usize] = true;
                     self.mapping[b as usize] = self.alphabet_size as u8;
                     self.alphabet_size += 1;
                 }
@@ -132,7 +135,7 @@ impl ByteCompressor {
     ) {
         let mut byte_mapping = HashMap::new();
         for b in 0..self.mapping.len() {
-            if self.mapping[b] == INVALID_MAPPING {
+            if !self.mapped[b] {
                 let mut v = alloc(self.bytesets.len());
                 for (idx, bs) in self.bytesets.iter().enumerate() {
                     if byteset_contains(bs, b) {
-- 
2.43.0


From 3b8aa2d0f9696521f64791ab86be6f19661c4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 2/5] fix: ANY_BYTE and mk_byte_set_not() contained symbols
 outside of the alphabet

When the alphabet size is not a multiple of 32 the sets had bits set beyond
the alphabet, so eg. ANY_BYTE minus all the symbols was not NO_MATCH.
---
 src/ast.rs      |  6 +++++-
 src/simplify.rs | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6706098..1dd22a3 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -274,6 +274,10 @@ impl ExprSet {
     pub fn new(alphabet_size: usize) -> Self {
         let exprs = VecHashCons::new();
         let alphabet_words = (alphabet_size + 31) / 32;
+        let mut any_byte = vec![0xffffffff; alphabet_words];
+        for idx in alphabet_size..alphabet_words * 32 {
+            byteset_clear(&mut any_byte, idx);
+        }
         let mut r = ExprSet {
             exprs,
             alphabet_size,
@@ -290,7 +294,7 @@ impl ExprSet {
             (r.mk(Expr::EmptyString), ExprRef::EMPTY_STRING),
             (r.mk(Expr::NoMatch), ExprRef::NO_MATCH),
             (
-                r.mk(Expr::ByteSet(&vec![0xffffffff; alphabet_words])),
+                r.mk(Expr::ByteSet(&any_byte)),
                 ExprRef::ANY_BYTE,
             ),
             (
diff --git a/src/simplify.rs b/src/simplify.rs
index c09d1c4..c9e0dc2 100644
--- a/src/simplify.rs
+++ b/src/simplify.rs
@@ -294,15 +294,19 @@ impl ExprSet {
     }
 
     pub fn mk_byte_set_not(&mut self, x: ExprRef) -> ExprRef {
-        match self.get(x) {
+        let mut r = match self.get(x) {
             Expr::Byte(b) => {
                 let mut r = vec![!0u32; self.alphabet_words];
                 byteset_clear(&mut r, b as usize);
-                self.mk_byte_set(&r)
+                r
             }
-            Expr::ByteSet(bs) => self.mk_byte_set(&bs.iter().map(|v| !*v).collect::<Vec<_>>()),
+            Expr::ByteSet(bs) => bs.iter().map(|v| !*v).collect::<Vec<_>>(),
             _ => panic!(),
+        };
+        for idx in self.alphabet_size..self.alphabet_words * 32 {
+            byteset_clear(&mut r, idx);
         }
+        self.mk_byte_set(&r)
     }
 
     pub fn mk_byte_set_or(&mut self, args: &[ExprRef]) -> ExprRef {
-- 
2.43.0


From 4eb2cba21481d692c1767978bbc2882664ddd1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 3/5] fix: VecHashCons: inserting an empty vector without any
 push into an empty table

---
 src/hashcons.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashcons.rs b/src/hashcons.rs
index 8a9d9bb..9c9c1dd 100644
--- a/src/hashcons.rs
+++ b/src/hashcons.rs
@@ -81,6 +81,8 @@ impl VecHashCons {
     pub fn start_insert(&mut self) {
         assert!(self.curr_elt.backing_end == 0);
         self.curr_elt.backing_end = self.curr_elt.backing_start;
+        // the vector may turn out to be empty
+        self.ensure_size();
     }
 
     #[inline(always)]
-- 
2.43.0


From 6d614ae5cae46791d98188e0a700a82b719e1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 4/5] fix: json_quote() of sets with all control characters but
 without " or \

The quoted regex accepted \" and \\ even when the set didn't contain them,
eg. for [^"].
---
 src/regexbuilder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/regexbuilder.rs b/src/regexbuilder.rs
index 310d8e8..341079f 100644
--- a/src/regexbuilder.rs
+++ b/src/regexbuilder.rs
@@ -244,10 +244,10 @@ impl RegexBuilder {
             }
         }
 
-        // byteset of all possible single-char quotes
+        // byteset of all possible single-char quotes of control characters
         fn single_quote_byteset(include_nl: bool, options: &JsonQuoteOptions) -> Vec<u32> {
             let mut quoted_bs = byteset_256();
-            for c in b"\"\\bfrt" {
+            for c in b"bfrt" {
                 options.set_if_allowed(&mut quoted_bs, *c);
             }
             if include_nl {
-- 
2.43.0


From 1bd10328e193f1788668e69c0838d7f3f6d0c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 5/5] fix: printing byte sets of alphabets with fewer than 225
 symbols no longer panics

---
 src/pp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pp.rs b/src/pp.rs
index f9fe918..488c345 100644
--- a/src/pp.rs
+++ b/src/pp.rs
@@ -276,8 +276,10 @@ pub fn byteset_to_string(s: &[u32]) -> String {
     let mut res = String::new();
     let mut start = None;
     let mut first = true;
-    for i in 0..=256 {
-        if i <= 0xff && byteset_contains(s, i) {
+    // the set has fewer than 256 bits when the alphabet is small
+    let num_bits = s.len() * 32;
+    for i in 0..=num_bits {
+        if i < num_bits && byteset_contains(s, i) {
             if start.is_none() {
                 start = Some(i);
             }
-- 
2.43.0

