From 7ad068ec30ed0fc818bc39cd74a29127adac8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 1/6] hook: expose the ast module under cfg elm_verif

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5c7d39..f3ab564 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,4 +2,9 @@
 extern crate nom;
 extern crate regex;
 
+#[cfg(not(elm_verif))]
 mod ast;
+
+// Verification hook: builds with `--cfg elm_verif` can reach the parser from outside the crate.
+#[cfg(elm_verif)]
+pub mod ast;
-- 
2.43.0


From 5846f96c160b74626c41d6d68b7468688b711760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 2/6] fix: do not print to stdout while parsing a hex character
 literal

---
 src/ast/expression/character.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index 083a6c1..f876425 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -15,7 +15,6 @@ named!(character_content<CompleteStr, char>,
           (u8::from_str_radix(code.0, 16))
         ),
         |r: Result<u8, std::num::ParseIntError>| {
-            println!("{:?}", r);
             r.map(|u| u as char)
         }
       )
-- 
2.43.0


From 67c697d09828d28192297ff356750ed76b5f29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 3/6] fix: parentheses with inner spaces around one expression
 are not a tuple

---
 src/ast/expression/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/expression/mod.rs b/src/ast/expression/mod.rs
index e62b93f..a9864a0 100644
--- a/src/ast/expression/mod.rs
+++ b/src/ast/expression/mod.rs
@@ -41,7 +41,14 @@ named_args!(tuple(indentation: u32) <CompleteStr, Expression>,
         ),
         char!(')')
     ),
-    Expression::Tuple
+    |mut v| {
+        // Parentheses around a single expression only group it
+        if v.len() == 1 {
+            v.remove(0)
+        } else {
+            Expression::Tuple(v)
+        }
+    }
   )
 );
 
-- 
2.43.0


From 9eec94a19d227a1784593434c369ec231a86ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 4/6] fix: parentheses around one type are not a one-element
 tuple

---
 src/ast/type_/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index f71ff90..86955db 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -35,7 +35,14 @@ named_args!(type_tuple(indentation: u32)<CompleteStr, Type>,
       ),
       terminated!(opt!(call!(spaces_or_new_lines_and_indent, indentation, IR::GTE)), char!(')'))
     ),
-    Type::TypeTuple
+    |mut v| {
+        // Parentheses around a single type only group it
+        if v.len() == 1 {
+            v.remove(0)
+        } else {
+            Type::TypeTuple(v)
+        }
+    }
   )
 );
 
-- 
2.43.0


From 4814ed8c0f9f457999997a42dd19d64cc3022416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 5/6] fix: accept upper case letters and zero in type variables

---
 src/ast/type_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/type_/mod.rs b/src/ast/type_/mod.rs
index 86955db..0c2d57d 100644
--- a/src/ast/type_/mod.rs
+++ b/src/ast/type_/mod.rs
@@ -8,7 +8,7 @@ use ast::type_::core::Type;
 use nom::types::CompleteStr;
 
 named!(type_variable<CompleteStr, Type>,
-  map!(re_matches!(r#"^([a-z][a-z1-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
+  map!(re_matches!(r#"^([a-z][a-zA-Z0-9_]*)"#), |c| Type::TypeVariable(c[0].to_string()))
 );
 
 named!(type_constant<CompleteStr, Type>,
-- 
2.43.0


From bf95ea0fb2b489c7f4c8063d698bd5498aac6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 6/6] fix: a hex character code is two hex digits, not a sign
 and a digit

---
 src/ast/expression/character.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/expression/character.rs b/src/ast/expression/character.rs
index f876425..025c77a 100644
--- a/src/ast/expression/character.rs
+++ b/src/ast/expression/character.rs
@@ -11,7 +11,7 @@ named!(character_content<CompleteStr, char>,
       map_res!(
         do_parse!(
           tag!("\\x") >>
-          code: take!(2) >>
+          code: verify!(take!(2), |c: CompleteStr| c.chars().all(|d| d.is_digit(16))) >>
           (u8::from_str_radix(code.0, 16))
         ),
         |r: Result<u8, std::num::ParseIntError>| {
-- 
2.43.0

