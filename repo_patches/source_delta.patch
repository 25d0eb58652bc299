From dbe5eba56e98fe52fff5019667259aa14663f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 01/11] fix: parse and report errors on text with multi-byte
 characters

---
 src/lib.rs        | 2 +-
 src/parser/mod.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..118a761 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -163,7 +163,13 @@ impl Error {
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            //  positions are counted in chars (not bytes)
+            line_before: status
+                .text2parse
+                .chars()
+                .skip(status.pos.start_line)
+                .take(status.pos.n - status.pos.start_line)
+                .collect(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From fd3bb7e6ece6b2b76b4f98049f851dba572e83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 02/11] fix: a repetition with maximum 0 matches nothing

---
 src/parser/expression/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..e88f3e3 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -296,32 +296,32 @@ fn parse_not<'a>(status: Status<'a>, expression: &'a Expression) -> ResultExpr<'
 fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a> {
     let big_min_bound = |counter| counter >= rep_info.min.0;
     let touch_max_bound = |counter: usize| match rep_info.max {
-        Some(ref m) => counter + 1 == m.0,
+        Some(ref m) => counter >= m.0,
         None => false,
     };
 
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
+        if touch_max_bound(acc.1) {
+            return TailCall::Return(Ok((acc.0, acc.2)));
+        }
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
-            (Err(e), true, _) => {
+        match (try_parse, big_min_bound(acc.1)) {
+            (Err(e), true) => {
                 if e.priority == ErrPriority::Critical {
                     TailCall::Return(Err(e))
                 } else {
                     TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))
                 }
             }
-            (Err(e), false, _) => TailCall::Return(Err(e)),
+            (Err(e), false) => TailCall::Return(Err(e)),
             //     Err(Error::from_status(
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
-            (Ok((status, vnodes)), _, false) => {
+            (Ok((status, vnodes)), _) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-            (Ok((status, vnodes)), _, true) => {
-                TailCall::Return(Ok((status, acc.2.iappend(vnodes))))
-            }
         }
     })?)
 }
-- 
2.43.0


From 0ca82b51b566f7571baa96e77523895dbeefcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 03/11] fix: an unbounded repetition of something that consumes
 no input ends

---
 src/parser/expression/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index e88f3e3..2ea197e 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -320,7 +320,15 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &format!("inside repeat {:#?}", e),
             // ))),
             (Ok((status, vnodes)), _) => {
-                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
+                //  without a max bound, repeating something that doesn't
+                //  consume input would never end
+                let stuck = rep_info.max.is_none() && status.pos.n == acc.0.pos.n;
+                let nodes = acc.2.iappend(vnodes);
+                if stuck && big_min_bound(acc.1 + 1) {
+                    TailCall::Return(Ok((status, nodes)))
+                } else {
+                    TailCall::Call((status, acc.1 + 1, nodes))
+                }
             }
         }
     })?)
-- 
2.43.0


From 03d4ce2f34678bcdd55f9d11fd80a7eaaba5e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 04/11] fix: backslash is an ordinary char in single quoted peg
 literals

---
 src/peg/gcode.rs | 3 ++-
 src/peg/mod.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..38189ff 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -84,7 +84,8 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 
 fn atom2code(atom: &Atom) -> String {
     let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
+        s.replace(r#"\"#, r#"\\"#)
+            .replace("\n", r#"\n"#)
             .replace("\r", r#"\r"#)
             .replace("\t", r#"\t"#)
             .replace(r#"""#, r#"\""#)
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From 96e453579afa65aa421b478c3f4af3d8722cc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 05/11] fix: accept empty single quoted literals in peg

---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..de4c38e 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes), //  empty literal
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From 971f88e53a4b9c99d553d9226c9b0e80406c3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 06/11] fix: generated code for a match without ranges compiles

---
 src/peg/gcode.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 38189ff..fea5851 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -110,11 +110,12 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
         }
     }
 
-    format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
-        bounds2code(String::new(), &mrules.1)
-    )
+    let bounds = match mrules.1.is_empty() {
+        true => ", from2 vec![]".to_string(),
+        false => bounds2code(String::new(), &mrules.1),
+    };
+
+    format!(r##"ematch!(chlist r#"{}"#  {})"##, &mrules.0, bounds)
 }
 
 fn repeat2code(rep: &expression::RepInfo) -> String {
-- 
2.43.0


From 2a1eefcfd985c39a69e9617188a195276c52da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 07/11] fix: escape strings and chars in generated code

---
 src/peg/gcode.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index fea5851..de2f209 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -57,8 +57,13 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
     })
 }
 
+//  rust string literal
+fn str2code(s: &str) -> String {
+    format!(r#""{}""#, s.escape_default())
+}
+
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!("{} => {}", str2code(name), expr2code(expr))
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -68,7 +73,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!("ref_rule!({})", str2code(rname)),
     }
 }
 
@@ -83,17 +88,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace(r#"\"#, r#"\\"#)
-            .replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({})", str2code(s)),
+        Atom::Error(s) => format!("error!({})", str2code(s)),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
@@ -104,6 +101,7 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
             Some(((f, t), rest)) => {
+                let (f, t) = (f.escape_default(), t.escape_default());
                 format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
             }
             None => acc,
@@ -115,7 +113,7 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
         false => bounds2code(String::new(), &mrules.1),
     };
 
-    format!(r##"ematch!(chlist r#"{}"#  {})"##, &mrules.0, bounds)
+    format!("ematch!(chlist {}  {})", str2code(&mrules.0), bounds)
 }
 
 fn repeat2code(rep: &expression::RepInfo) -> String {
-- 
2.43.0


From eac702856161e3b6937d1d479f75b413a045d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 08/11] fix: add the eof! macro the generated code uses

---
 src/lib.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a6d42a7..e59595f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,6 +237,28 @@ macro_rules! dot {
     }};
 }
 
+/// Atom::EOF (end of file)
+///
+/// example
+/// ```
+/// #[macro_use]  extern crate dynparser;
+/// use dynparser::parse;
+///
+/// fn main() {
+///     let rules = rules!{
+///        "main"   =>  and!(lit!("a"), eof!())
+///     };
+///
+///     assert!(parse("a", &rules).is_ok())
+/// }
+/// ```
+#[macro_export]
+macro_rules! eof {
+    () => {{
+        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::EOF)
+    }};
+}
+
 /// Generate a match expression with optional characters and a list
 /// of bounds
 ///
-- 
2.43.0


From fb48f349f1d24a525c3cd36994b79de07695962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/11] fix: EOF atom produces an EOF node

---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From 4e1f7bbcf7793d67cfdf413f09a3cc39e0da1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 10/11] fix: a trailing line comment can be followed by the
 next rule

---
 src/peg/peg2code.rs | 2 +-
 src/peg/rules.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index 638b6e0..dc3829e 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -106,7 +106,7 @@ fn text_peg2code() -> &'static str {
     comment         =   line_comment
                     /   mline_comment
 
-    line_comment    =   '//' (!eol .)*  eol
+    line_comment    =   '//' (!eol .)*
     mline_comment   =   '/*' (!'*/' .)* '*/'
     "#
 }
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index 5561a8b..ba9139e 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -20,7 +20,7 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
        , r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), rep!(or!(lit!("*"), lit!("+"), lit!("?")), 0, 1)), and!(lit!("!"), ref_rule!(r#"atom_or_par"#)))
        , r#"_eol"# => and!(rep!(or!(lit!(" "), ref_rule!(r#"comment"#)), 0), ref_rule!(r#"eol"#))
-       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0), ref_rule!(r#"eol"#))
+       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0))
        , r#"lit_noesc"# => and!(ref_rule!(r#"_'"#), rep!(and!(not!(ref_rule!(r#"_'"#)), dot!()), 0), ref_rule!(r#"_'"#))
        , r#"rule_name"# => and!(rep!(lit!("."), 0, 1), ref_rule!(r#"symbol"#), rep!(and!(lit!("."), ref_rule!(r#"symbol"#)), 0))
        , r#"_""# => lit!("\"")
-- 
2.43.0


From 523bc79ad320882956135a9817b64ee1bbb0c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 11/11] fix: a sequence can go on after an error(...) in peg
 text

---
 src/peg/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index de4c38e..d7b3799 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,15 +505,26 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_following_ands(eov, nodes, context)
             }
         })
     }
+    //  after an error(...) the sequence can go on, then there are several
+    fn rec_consume_following_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_following_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
 
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
-- 
2.43.0

