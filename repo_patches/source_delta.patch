From d9b990d125a802928dd80a834dc595849a606aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:12 +0000
Subject: [PATCH 1/8] hook: expose the private modules under cfg(bq2cst_verif)

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4b7a678..4bc5939 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 // https://github.com/rustwasm/wasm-bindgen/issues/2882
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)]
 
 mod constants;
 mod cst;
@@ -57,3 +58,15 @@ pub fn tokenize(code: String) -> Result<JsValue, JsValue> {
         .serialize(&s)
         .expect("Problem converting tokens to json."))
 }
+
+/// Access to the private modules for the verification harness. Only compiled
+/// with `RUSTFLAGS="--cfg bq2cst_verif"`.
+#[cfg(bq2cst_verif)]
+pub mod verif_hooks {
+    pub use crate::constants::KEYWORDS;
+    pub use crate::cst::{ContentType, Node, NodeType};
+    pub use crate::error::BQ2CSTError;
+    pub use crate::lexer::Lexer;
+    pub use crate::parser::Parser;
+    pub use crate::token::Token;
+}
-- 
2.43.0


From 8dc62805ba4969e6cb367ee8178cd9cf78bf8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 2/8] fix: do not panic when the first token is `<`

---
 src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..d61a86f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,8 +153,10 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
+                    if self
+                        .tokens
+                        .last()
+                        .is_some_and(|t| t.in_(&vec!["ARRAY", "STRUCT"]))
                     {
                         self.type_declaration_depth += 1;
                     }
-- 
2.43.0


From 030323bc0ebc0724b28155f9cb83ebebba6a6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 3/8] fix: do not panic when an identifier is expected at the
 end of input

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..695ad21 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,7 +942,7 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
-                if curr_token.literal.chars().next().unwrap() == '`' {
+                if curr_token.literal.chars().next() == Some('`') {
                     break;
                 }
                 let next_token = match parser.get_token(1) {
-- 
2.43.0


From 227df0e807951f8f43defe5c8ea5132b4b70958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 4/8] fix: do not lose a semicolon between USING and ON of a
 MERGE statement

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 695ad21..ed32649 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2647,10 +2647,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From b455dad3159230a1baa9a53272351796bc319bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 5/8] fix: do not lose the enforcement of a column with two
 constraints

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ed32649..be5bfc1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1516,6 +1516,15 @@ impl Parser {
             res.push_node("references", references);
             if self.get_token(1)?.in_(&vec!["NOT", "ENFORCED"]) {
                 self.next_token()?; // -> NOT | ENFORCED
+                if res.children.contains_key("enforced") {
+                    return Err(BQ2CSTError::from_token(
+                        self.get_token(0)?,
+                        format!(
+                            "Constraint enforcement is already specified: {:?}",
+                            self.get_token(0)?
+                        ),
+                    ));
+                }
                 res.push_node("enforced", self.parse_enforced()?);
             }
         }
-- 
2.43.0


From 9b445b54f7f1d374d1cd59f0590a597916b9c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 6/8] fix: do not lose the semicolon of a labeled statement
 that already has one

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index be5bfc1..bd26b3f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4108,7 +4108,12 @@ impl Parser {
         if stmt
             .children
             .keys()
-            .any(|k| k == "leading_label" || k == "colon")
+            .any(|k| {
+                k == "leading_label"
+                    || k == "colon"
+                    || k == "trailing_label"
+                    || k == "semicolon"
+            })
         {
             return Err(BQ2CSTError::from_token(
                 self.get_token(0)?,
-- 
2.43.0


From 994a8b58a55fab74946465f8d99e2e0ebd6154fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:23 +0000
Subject: [PATCH 7/8] fix: block comment closed by its own opening (/*/)

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index d61a86f..98ba16e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -314,6 +314,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * -> (`/*/` is not closed yet)
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From 2e3ca75b5429ba66e3feb794b9a799458d1c39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:48 +0000
Subject: [PATCH 8/8] fix: a field access binds more tightly than a prefix
 operator (-a.b is -(a.b))

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bd26b3f..2f8c4f2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,7 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0

