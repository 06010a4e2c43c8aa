From c7fd772173aac7894427997bf74bd1928e3774b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 01/55] Add guarded verification hook for the update parser

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..0528b8d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 //#![deny(missing_docs)]
 
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate derive_new;
@@ -31,3 +32,11 @@ pub mod var;
 pub mod write;
 
 pub mod mimes {}
+
+/// Entry points for the verification harness, present only with `--cfg nom_sparql_verif`.
+#[cfg(nom_sparql_verif)]
+pub mod verif_hooks {
+    pub fn update(i: &str) -> nom::IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+}
-- 
2.43.0


From 98afe75ffc56da7e23107dca7050eb37c33a0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 02/55] fix: CONCAT, SUBSTR, STRLEN and REPLACE are calls of
 their own

---
 src/call.rs                 | 23 +++++++++--------------
 src/expression/functions.rs | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..4288d9d 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,7 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
     var::{var, Var},
 };
 
@@ -46,8 +46,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -124,18 +126,9 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
         map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
         map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_tag("concat", expression_list), BuiltInCall::Concat),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
-            BuiltInCall::Concat,
-        ),
-        map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_bracketted("strlen", expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -206,6 +199,8 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("struuid", nil), |_| {
             BuiltInCall::StrUUID
         }),
+        map(substring_expression, BuiltInCall::SubStr),
+        map(str_replace_expression, BuiltInCall::Replace),
     ))(i)
 }
 
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..920d73b 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{bracketted, preceded_bracketted, preceded_tag1, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -56,12 +56,15 @@ pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression
 
 pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
     map(
-        bracketted(tuple((
-            expression,
-            preceded(sp_enc(char(',')), expression),
-            preceded(sp_enc(char(',')), expression),
-            opt(preceded(sp_enc(char(',')), expression)),
-        ))),
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
         |(first, second, third, fourth)| StrReplaceExpression {
             first,
             second,
-- 
2.43.0


From 430e9a7925ca965cb65412a938b321adbd55de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 03/55] fix: ABS, CEIL, FLOOR and ROUND are no longer reported
 as URI

---
 src/call.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 4288d9d..b07219b 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -122,10 +122,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(preceded_tag("concat", expression_list), BuiltInCall::Concat),
         map(
             preceded_bracketted("strlen", expression),
-- 
2.43.0


From c01ca3f6a0668e56e381c92e8e22f068c0fc97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 04/55] fix: CONTAINS is read under its own name

---
 src/call.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/call.rs b/src/call.rs
index b07219b..32f468f 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -139,7 +139,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 6cf86c0d3dbada9b48a5b8d27a43bc2c90122d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 05/55] fix: RAND, NOW, UUID, STRUUID and BNODE take a plain
 empty argument list

---
 src/call.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 32f468f..794691b 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -115,13 +115,16 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((
+                    map(nil, |_| None),
+                    map(bracketted_expression, Option::Some),
+                )),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
@@ -194,11 +197,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| BuiltInCall::StrUUID),
         map(substring_expression, BuiltInCall::SubStr),
         map(str_replace_expression, BuiltInCall::Replace),
     ))(i)
-- 
2.43.0


From 46e3d18599f9501d3d4c3544539234fe6e5683aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 06/55] fix: an opening bracket that is not NIL or ANON may
 still open a collection, argument list or property list

---
 src/graph.rs     | 3 ++-
 src/terminals.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..f5e919f 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -271,7 +271,8 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        // without the `cut` of `anon`: `[` may also open a blank node property list
+        map(delimited(char('['), sp, char(']')), |_| BlankNode::Anon),
     ))(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..ae85912 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -409,7 +409,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    preceded(char('('), terminated(sp, char(')')))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3851b1c5a3d7bdeebfaa8f9db0d5c65bd3973375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 07/55] fix: white space after a keyword may be left out before
 punctuation, and a keyword ends where a name would not continue

---
 src/aggregate.rs       |  6 ++++--
 src/call.rs            | 12 ++++++------
 src/clauses.rs         | 11 +++++++----
 src/expression/mod.rs  |  6 ++++--
 src/graph.rs           | 10 +++++-----
 src/group.rs           |  7 +++++--
 src/operations.rs      | 24 ++++++++++++------------
 src/order.rs           |  4 ++--
 src/query/ask.rs       |  4 ++--
 src/query/construct.rs |  6 +++---
 src/query/select.rs    | 11 ++++++-----
 src/terminals.rs       | 18 ++++++++++++++----
 12 files changed, 70 insertions(+), 49 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..bf1b2a0 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,7 +1,9 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{
+        bracketted, kw_end, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal,
+    },
 };
 use nom::{
     branch::alt,
@@ -94,7 +96,7 @@ pub(crate) fn count(i: &str) -> IResult<&str, Count> {
         preceded_tag(
             "count",
             bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                map(opt(terminated(distinct, kw_end)), Option::unwrap_or_default),
                 count_target,
             )),
         ),
diff --git a/src/call.rs b/src/call.rs
index 794691b..c0fe67b 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,10 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{
+        iri, kw_end, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1,
+    },
     var::{var, Var},
 };
 
@@ -117,10 +120,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(
             preceded_tag(
                 "bnode",
-                alt((
-                    map(nil, |_| None),
-                    map(bracketted_expression, Option::Some),
-                )),
+                alt((map(nil, |_| None), map(bracketted_expression, Option::Some))),
             ),
             BuiltInCall::Bnode,
         ),
@@ -296,7 +296,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
             delimited(
                 terminated(char('('), sp),
                 tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    map(opt(terminated(distinct, kw_end)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
                 char(')'),
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..dd95e8d 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, kw_end, preceded_tag1, sp, sp1},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -71,7 +71,10 @@ pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
 pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
+            terminated(
+                delimited(tag_no_case("order"), sp1, tag_no_case("by")),
+                kw_end,
+            ),
             separated_nonempty_list(sp, order_condition),
         ),
         OrderClause,
@@ -81,7 +84,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
+            terminated(tag_no_case("having"), kw_end),
             separated_nonempty_list(sp, constraint),
         ),
         HavingClause,
@@ -90,7 +93,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), kw_end)),
         group_graph_pattern,
     )(i)
 }
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..d562f0c 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -13,7 +13,9 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{
+        bracketted, iri_or_fun, kw_end, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1,
+    },
 };
 
 use crate::var::{var, Var};
@@ -181,7 +183,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
 pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
     map(
         pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            map(opt(terminated(distinct, kw_end)), Option::unwrap_or_default),
             expression,
         ),
         |(distinct, expression)| DistinctExpression {
diff --git a/src/graph.rs b/src/graph.rs
index f5e919f..47ef7b0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,7 +22,7 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, iri, kw_end, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -130,7 +130,7 @@ pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
         map(tag_no_case("default"), |_| GraphOrDefault::Default),
         map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            pair(opt(pair(tag_no_case("graph"), kw_end)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
         ),
     ))(i)
@@ -180,7 +180,7 @@ pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("graph"), sp1),
+            terminated(tag_no_case("graph"), kw_end),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
@@ -221,8 +221,8 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
 pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(tag_no_case("service"), kw_end),
+            map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
diff --git a/src/group.rs b/src/group.rs
index f759ccc..2a792ce 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{kw_end, sp, sp1};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -33,7 +33,10 @@ pub enum GroupCondition {
 pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
+            terminated(
+                delimited(tag_no_case("group"), sp1, tag_no_case("by")),
+                kw_end,
+            ),
             separated_nonempty_list(sp, group_condition),
         ),
         GroupClause,
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..0d6d5dd 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -87,7 +87,7 @@ pub enum DeleteInsert {
 
 pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
     map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        pair(pair(tag_no_case("add"), kw_end), silent_from_to),
         |(_, (silent, from, to))| AddStatement { silent, from, to },
     )(i)
 }
@@ -112,21 +112,21 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
 
 pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
     map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        pair(pair(tag_no_case("move"), kw_end), silent_from_to),
         |(_, (silent, from, to))| MoveStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
     map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        pair(pair(tag_no_case("copy"), kw_end), silent_from_to),
         |(_, (silent, from, to))| CopyStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
     tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
         graph_or_default,
         preceded(sp_enc(tag_no_case("to")), graph_or_default),
     ))(i)
@@ -135,8 +135,8 @@ pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, Gr
 pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
     map(
         tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("create"), kw_end),
+            map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
             graph_ref,
         )),
         |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
@@ -145,7 +145,7 @@ pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
 
 pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
     map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("drop"), kw_end), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| DropStatement {
             silent,
             graph_ref_all,
@@ -155,7 +155,7 @@ pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
 
 pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
     map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("clear"), kw_end), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| ClearStatement {
             silent,
             graph_ref_all,
@@ -165,7 +165,7 @@ pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
 
 pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
     pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
         graph_ref_all,
     )(i)
 }
@@ -173,8 +173,8 @@ pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)
 pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
     map(
         tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("load"), kw_end),
+            map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
             iri,
             opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
         )),
diff --git a/src/order.rs b/src/order.rs
index bed59ae..8fd6eeb 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -6,7 +6,7 @@ use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::kw_end;
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -37,7 +37,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, kw_end, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..2ed8e73 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
+use crate::terminals::{kw_end, sp, sp1};
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::multi::separated_list;
@@ -18,7 +18,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(tag_no_case("ask"), kw_end),
             terminated(separated_list(sp, data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..504256b 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -47,7 +47,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(separated_list(sp, data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(tag_no_case("where"), kw_end),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -62,7 +62,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(separated_list(sp, data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..f55be8b 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{kw_end, sp, sp_enc};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -53,7 +53,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             separated_list(sp, data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
@@ -88,10 +88,11 @@ pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
     map(
         tuple((
             tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            kw_end,
+            opt(terminated(select_modifier, kw_end)),
+            select_vars,
         )),
-        |(_, modifier, vars)| SelectClause { modifier, vars },
+        |(_, _, modifier, vars)| SelectClause { modifier, vars },
     )(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index ae85912..faa9c4f 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -56,7 +56,7 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    preceded(terminated(tag_no_case(tag), kw_end), pat)
 }
 
 #[inline]
@@ -80,6 +80,16 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
     recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
 }
 
+/// The end of a keyword: white space, which may be left out unless the next
+/// character could continue the word.
+#[inline]
+pub(crate) fn kw_end(i: &str) -> IResult<&str, &str> {
+    match i.chars().next() {
+        Some(c) if is_pn_char(c) || c == ':' => Err(Err::Error((i, ErrorKind::Space))),
+        _ => sp(i),
+    }
+}
+
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         opt(preceded(char('#'), many0(none_of("\n\r")))),
@@ -190,14 +200,14 @@ pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
 }
 
 pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+    preceded(terminated(tag_no_case("base"), kw_end), iri_ref)(i)
 }
 
 pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
     map(
         tuple((
-            tag_no_case("prefix"),
-            sp_enc(pname_ns),
+            terminated(tag_no_case("prefix"), kw_end),
+            terminated(pname_ns, sp),
             map(iri_ref, String::from),
         )),
         |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
-- 
2.43.0


From 4456b8a364ccb11ef161076fa57107d467882e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 08/55] fix: a prefixed name has no white space around its
 colon

---
 src/terminals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index faa9c4f..f1a325f 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -323,11 +323,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
-- 
2.43.0


From a9746b0243b1d4b0a0f163f51a3579ddd191d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 09/55] fix: names do not swallow the dots that follow them

---
 src/terminals.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index f1a325f..3f3061d 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -276,10 +276,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(pair(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -308,13 +305,10 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c| is_digit(c as u8)),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
+        recognize(many0(pair(
+            take_while(|c| c == '.'),
+            many1(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From 1eb89b80eb8bb885f36325fab7b06461aae017c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 10/55] fix: classify characters as characters, not by their
 lowest byte

---
 src/clauses.rs   | 2 +-
 src/graph.rs     | 5 ++++-
 src/terminals.rs | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index dd95e8d..5840c5f 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -123,7 +123,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index 47ef7b0..9db5714 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -265,7 +265,10 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((
+                        pn_chars_u_one,
+                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
+                    )),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index 3f3061d..6c802d8 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -235,7 +235,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > '\u{20}'
             }
         }),
         tag(">"),
@@ -302,7 +302,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
         recognize(many0(pair(
@@ -365,7 +365,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
-- 
2.43.0


From e89cc123aa95c6f5cdbacd4a814849cbb699f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 11/55] fix: names may contain every character SPARQL allows in
 them

---
 src/terminals.rs | 12 +++++++++++-
 src/var.rs       |  5 ++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6c802d8..60e127e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -342,6 +342,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -395,7 +396,16 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
 
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
+}
+
+/// The characters that may continue a name but not start it, beyond digits
+#[inline]
+pub(crate) fn is_name_extender(c: char) -> bool {
+    match c {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..6dc11c5 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
     ))(i)
 }
 
-- 
2.43.0


From f537a8353351f8007489200d55dbfce336671eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 12/55] fix: a variable has no white space after its mark

---
 src/var.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 6dc11c5..e571fb5 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From a2035659082b5c8507d32d1cd303d887d8fbf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 13/55] fix: only a lower case 'a' stands for rdf:type

---
 src/expression/iri.rs | 4 ++--
 src/var.rs            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..f6a2df8 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
@@ -20,7 +20,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(tag("a"), |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/var.rs b/src/var.rs
index e571fb5..d4cd5c6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, kw_end, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
@@ -62,7 +62,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
     alt((
         map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
+        map(terminated(tag("a"), peek(kw_end)), |_| Verb::A),
     ))(i)
 }
 
-- 
2.43.0


From e0358df5f9cf4b8884e2e62ed2a5eb414941cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 14/55] fix: string literals may be empty

---
 src/terminals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 60e127e..6ed8782 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -146,12 +146,12 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("'"),
         ),
         delimited(
             tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("\""),
         ),
     ))(i)
-- 
2.43.0


From c4497e5288826df0fb1c78c65014d80d906fba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 15/55] fix: white space is allowed before and after the '^^'
 of a literal and before its language tag

---
 src/terminals.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6ed8782..cc93ef8 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -161,13 +161,19 @@ pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
             map(string_literal, String::from),
-            opt(alt((
-                map(
-                    map(language_tag, String::from),
-                    RdfLiteralDescriptor::LangTag,
-                ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
-            ))),
+            opt(preceded(
+                sp,
+                alt((
+                    map(
+                        map(language_tag, String::from),
+                        RdfLiteralDescriptor::LangTag,
+                    ),
+                    map(
+                        preceded(terminated(tag("^^"), sp), iri),
+                        RdfLiteralDescriptor::IriRef,
+                    ),
+                )),
+            )),
         ),
         |(literal, descriptor)| RdfLiteral {
             literal,
-- 
2.43.0


From d7488f3d157ea2c1eb9c7f56066c8893cf9b6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 16/55] fix: white space around brackets is optional in calls,
 lists and bracketted expressions

---
 src/call.rs           | 2 +-
 src/expression/mod.rs | 6 +++---
 src/terminals.rs      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index c0fe67b..5f93de8 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -299,7 +299,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
                     map(opt(terminated(distinct, kw_end)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index d562f0c..d320eaa 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -14,7 +14,7 @@ use crate::{
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, iri_or_fun, kw_end, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1,
+        bracketted, iri_or_fun, kw_end, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1,
     },
 };
 
@@ -171,9 +171,9 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
         map(nil, |_| ExpressionList::Nil),
         map(
             delimited(
-                char('('),
+                terminated(char('('), sp),
                 separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             ExpressionList::List,
         ),
diff --git a/src/terminals.rs b/src/terminals.rs
index cc93ef8..26fc4f8 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -45,7 +45,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(terminated(char('('), sp), pat, preceded(sp, char(')')))
 }
 
 #[inline]
@@ -274,7 +274,7 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
     map(
-        pair(iri, opt(preceded(sp1, arg_list))),
+        pair(iri, opt(preceded(sp, arg_list))),
         |(iri, arg_list)| IriOrFunction { iri, arg_list },
     )(i)
 }
-- 
2.43.0


From 8fd2794b2affe258aafc219ab7ed94421b002833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 17/55] fix: white space before a declaration of the prologue
 is optional

---
 src/terminals.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 26fc4f8..5aa263f 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -222,13 +222,13 @@ pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
 
 pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
     map(
-        separated_list(
-            sp1,
+        many0(preceded(
+            sp,
             alt((
                 map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                 map(prefix_decl, BaseOrPrefixDecl::Prefix),
             )),
-        ),
+        )),
         Prologue,
     )(i)
 }
-- 
2.43.0


From 35ff96d75760a626ee1af94c4aefe8605c582463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 18/55] fix: a simple literal is compatible with simple and
 xsd:string literals, not with tagged ones

---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..e2be06e 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
-- 
2.43.0


From 641d28da44cfd44d1cb43fea626718bf4eb9d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 19/55] fix: an xsd:string literal is a typed string argument

---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index e2be06e..43ef416 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -78,7 +78,7 @@ pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
                 map(string_literal, String::from),
                 tag_no_case("^^xsd:string"),
             ),
-            StringLiteral::Simple,
+            StringLiteral::Typed,
         ),
         map(
             pair(
-- 
2.43.0


From f819f8bd434b1fc58a2eb58d4ff490f86b775f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 20/55] fix: a number followed by a name starting with 'e' has
 no exponent

---
 src/literal.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 43ef416..50eed41 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -121,7 +121,7 @@ pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
     preceded(
         alt((char('e'), char('E'))),
         map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
             |s: &str| s.parse::<i64>(),
         ),
     )(i)
@@ -155,10 +155,7 @@ pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
         Ok((i, o)) => {
             // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
+            if i.starts_with('.') || exponent(i).is_ok() {
                 Err(Err::Error(make_error(i, ErrorKind::Float)))
             } else if let Ok(v) = o.parse() {
                 Ok((i, v))
-- 
2.43.0


From 98bd09765233663d0f8debd4affbcd96208a69e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 21/55] fix: the delete clause starts with DELETE, not OFFSET

---
 src/clauses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 5840c5f..21caf97 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -109,7 +109,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
-- 
2.43.0


From 1bd5bb3fd90b9a67cb6ad8d653e50f0ba721a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 22/55] fix: GROUP BY, HAVING and ORDER BY need no white space
 after or between their conditions

---
 src/clauses.rs | 6 +++---
 src/group.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 21caf97..e59e3b8 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_nonempty_list,
+    multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -75,7 +75,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
                 delimited(tag_no_case("order"), sp1, tag_no_case("by")),
                 kw_end,
             ),
-            separated_nonempty_list(sp, order_condition),
+            many1(preceded(sp, order_condition)),
         ),
         OrderClause,
     )(i)
@@ -85,7 +85,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), kw_end),
-            separated_nonempty_list(sp, constraint),
+            many1(preceded(sp, constraint)),
         ),
         HavingClause,
     )(i)
diff --git a/src/group.rs b/src/group.rs
index 2a792ce..4138f9d 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,5 +1,5 @@
 use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
@@ -37,7 +37,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
                 delimited(tag_no_case("group"), sp1, tag_no_case("by")),
                 kw_end,
             ),
-            separated_nonempty_list(sp, group_condition),
+            many1(preceded(sp, group_condition)),
         ),
         GroupClause,
     )(i)
-- 
2.43.0


From ed4783751fa7b011336f21ad7fced94f7051c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 23/55] fix: DESCRIBE needs no white space after or between its
 targets

---
 src/query/describe.rs | 6 +++---
 src/var.rs            | 7 ++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..910c168 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{kw_end, sp};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
@@ -24,8 +24,8 @@ pub struct DescribeQuery {
 pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
-            tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            terminated(tag_no_case("describe"), kw_end),
+            terminated(var_or_iris_or_all, sp),
             terminated(separated_list(sp, data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
diff --git a/src/var.rs b/src/var.rs
index d4cd5c6..9f408e6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -8,7 +8,7 @@ use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{AsChar, IResult};
 
@@ -85,10 +85,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
-        map(
-            separated_nonempty_list(sp, var_or_iri),
-            VarOrIrisOrAll::VarIri,
-        ),
+        map(many1(preceded(sp, var_or_iri)), VarOrIrisOrAll::VarIri),
         map(char('*'), |_| VarOrIrisOrAll::All),
     ))(i)
 }
-- 
2.43.0


From 4746bb485b6bf77c6920794602c2600e861d93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 24/55] fix: white space between and after dataset clauses is
 optional

---
 src/query/ask.rs       | 6 +++---
 src/query/construct.rs | 6 +++---
 src/query/describe.rs  | 6 +++---
 src/query/select.rs    | 4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2ed8e73..3962ad2 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -4,8 +4,8 @@ use crate::graph::GroupGraphPattern;
 use crate::terminals::{kw_end, sp, sp1};
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
-use nom::multi::separated_list;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0;
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -19,7 +19,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), kw_end),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 504256b..6a89d52 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -13,7 +13,7 @@ use nom::{
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
-    multi::separated_list,
+    multi::{many0, separated_list},
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
     IResult,
@@ -46,7 +46,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(tag_no_case("where"), kw_end),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -63,7 +63,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 910c168..8d0726d 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -8,8 +8,8 @@ use nom::{
     bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
+    multi::many0,
+    sequence::{preceded, terminated, tuple},
     IResult,
 };
 
@@ -26,7 +26,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             terminated(tag_no_case("describe"), kw_end),
             terminated(var_or_iris_or_all, sp),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index f55be8b..779a6f5 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::{many0, many1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp),
-            separated_list(sp, data_set_clause),
+            many0(preceded(sp, data_set_clause)),
             sp_enc(where_clause),
             solution_modifier,
         )),
-- 
2.43.0


From 82ba046e567937ff453c7b157e4d644360e26e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 25/55] fix: the variables of a select list may be separated by
 white space

---
 src/query/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/select.rs b/src/query/select.rs
index 779a6f5..b2f1884 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -100,7 +100,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            many1(preceded(sp, var_or_expression_as_var)),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
-- 
2.43.0


From 0d7c37e24a32dfadbc41260c9175eb0aef6d0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 26/55] fix: the template of CONSTRUCT may end in a dot

---
 src/query/construct.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/query/construct.rs b/src/query/construct.rs
index 6a89d52..aab0bda 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -12,8 +12,7 @@ use nom::{
     bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
-    multi::many1,
-    multi::{many0, separated_list},
+    multi::many0,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
     IResult,
@@ -90,9 +89,9 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            opt(triples_template),
             preceded(sp, char('}')),
         ),
-        ConstructTemplate,
+        |triples| ConstructTemplate(triples.unwrap_or_default()),
     )(i)
 }
-- 
2.43.0


From fa19a83d09667172edc8dbe259ac4c8a14496607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 27/55] fix: triples are separated by one dot, and a triples
 block may end in one

---
 src/triple.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..e21462e 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,14 +91,17 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(sp_enc(char('.')), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
+        separated_nonempty_list(sp_enc(char('.')), triples_same_subject),
         opt(preceded(sp, char('.'))),
     )(i)
 }
-- 
2.43.0


From a720dda86dedef2342b2dbdc0030825f10108d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 28/55] fix: white space between subject, verb and object may
 be left out where they stay apart

---
 src/path.rs   | 14 ++++++++------
 src/triple.rs |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 437a410..3043856 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use nom::character::complete::char;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, peek};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
@@ -18,7 +18,9 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{
+    anon, iri, kw_end, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
+};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -125,7 +127,7 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
+            sp_sep(var_or_term, property_list_path_not_empty),
             |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
                 var_or_term,
                 property_list,
@@ -152,7 +154,7 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
         tuple((
-            terminated(verb_path_or_simple, sp1),
+            terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
         )),
@@ -184,7 +186,7 @@ pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
 
 pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
     map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
+        separated_pair(verb_path_or_simple, sp, object_list),
         |(verb_path_or_simple, object_list)| PropertyListPathEntry {
             verb_path_or_simple,
             object_list,
@@ -229,7 +231,7 @@ pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
 pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
     alt((
         map(iri, PathPrimary::Iri),
-        map(tag("a"), |_| PathPrimary::A),
+        map(terminated(tag("a"), peek(kw_end)), |_| PathPrimary::A),
         map(
             preceded(tag("!"), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
diff --git a/src/triple.rs b/src/triple.rs
index e21462e..ecfa5b7 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -116,7 +116,7 @@ pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject>
             },
         ),
         map(
-            sp_sep1(var_or_term, property_list_not_empty),
+            sp_sep(var_or_term, property_list_not_empty),
             |(var_or_term, property_list)| TriplesSameSubject::Term {
                 var_or_term,
                 property_list,
-- 
2.43.0


From 12e94a4377e720fd650123b8a8afa9501fed7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 29/55] fix: the objects of a pattern are separated by commas

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 3043856..94bda4e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -179,7 +179,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
-- 
2.43.0


From 0583d0241e29df1a54820e9263998bfd223a1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 30/55] fix: the property list of a pattern may end in
 semicolons

---
 src/path.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 94bda4e..d380a64 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -153,11 +153,14 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
-        tuple((
-            terminated(verb_path_or_simple, sp),
-            object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
-        )),
+        terminated(
+            tuple((
+                terminated(verb_path_or_simple, sp),
+                object_list_path,
+                many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            )),
+            many0(preceded(sp, char(';'))),
+        ),
         |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
             verb_path_or_simple,
             object_list_path,
-- 
2.43.0


From 6be5c94d5e765c8dbf9ae125cf59a289f2a7a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 31/55] fix: the members of a collection in a pattern may be
 separated by white space

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index d380a64..c4716d7 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -204,7 +204,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
-- 
2.43.0


From 10b09af3636625ccc81c8dd4fdf7b87ced4ff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 32/55] fix: the steps of a path are separated by '/'

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index c4716d7..cce8630 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -226,7 +226,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From 7be8eb866ae1d951863d68de8580e0c47a1fcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 33/55] fix: white space is allowed inside path brackets and
 after '!' and '^'

---
 src/expression/iri.rs |  9 ++++++---
 src/path.rs           | 13 ++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index f6a2df8..bef71bd 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,10 +1,10 @@
 use crate::expression::Iri;
-use crate::terminals::iri;
+use crate::terminals::{iri, sp};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::sequence::{preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -26,6 +26,9 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+        map(
+            preceded(terminated(char('^'), sp), iri_or_a),
+            IriOrAOrCaret::Caret,
+        ),
     ))(i)
 }
diff --git a/src/path.rs b/src/path.rs
index cce8630..013d287 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -236,11 +236,15 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
         map(iri, PathPrimary::Iri),
         map(terminated(tag("a"), peek(kw_end)), |_| PathPrimary::A),
         map(
-            preceded(tag("!"), path_negated_property_set),
+            preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            delimited(
+                terminated(tag("("), sp),
+                path_alternative,
+                preceded(sp, tag(")")),
+            ),
             PathPrimary::Path,
         ),
     ))(i)
@@ -249,7 +253,10 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
 pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
     alt((
         map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+        map(
+            preceded(terminated(tag("^"), sp), path_elt),
+            PathEltOrInverse::Inverse,
+        ),
     ))(i)
 }
 
-- 
2.43.0


From c92afc1b80ed304dfa01a8387770466f963273b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 34/55] fix: '!' negates a single property, or a set that may
 be empty

---
 src/path.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 013d287..f99b626 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 use nom::character::complete::char;
 use nom::combinator::{map, opt, peek};
 use nom::error::ErrorKind;
-use nom::multi::{many0, many1, separated_nonempty_list};
+use nom::multi::{many0, many1, separated_list, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::Err;
 use nom::{
@@ -271,14 +271,19 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 }
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
-    map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
+    alt((
+        map(path_one_in_property_set, |property| {
+            PathNegatedPropertySet(vec![property])
+        }),
+        map(
+            delimited(
+                terminated(tag("("), sp),
+                separated_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+            PathNegatedPropertySet,
         ),
-        PathNegatedPropertySet,
-    )(i)
+    ))(i)
 }
 
 pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
-- 
2.43.0


From 3fbe41706cf9008c793f6ac2f87a3363bd6a874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 35/55] fix: a path modifier may follow its step directly, and
 is not confused with a variable, number or other character

---
 src/path.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index f99b626..761ab28 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,6 +1,6 @@
 use std::str::FromStr;
 
-use nom::character::complete::char;
+use nom::character::complete::{char, one_of};
 use nom::combinator::{map, opt, peek};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_list, separated_nonempty_list};
@@ -17,12 +17,13 @@ use nom::{
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
+use crate::literal::recognize_spaqrql_float;
 use crate::node::ObjectList;
 use crate::terminals::{
     anon, iri, kw_end, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
 };
 use crate::triple::object_list;
-use crate::var::{var, var_or_term, Var, VarOrTerm};
+use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum GraphNodePath {
@@ -262,7 +263,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(preceded(sp, path_mod))),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
@@ -291,12 +292,14 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
+    match one_of("?*+")(i)? {
+        // a variable or a signed number instead
+        (rest, '?') if var_name(rest).is_ok() => Err(Err::Error((i, ErrorKind::Char))),
+        (_, '+') if recognize_spaqrql_float(i).is_ok() => Err(Err::Error((i, ErrorKind::Char))),
+        (rest, c) => match PathMod::from_str(&c.to_string()) {
+            Ok(path_mod) => Ok((rest, path_mod)),
+            Err(_) => Err(Err::Error((i, ErrorKind::Char))),
+        },
     }
 }
 
-- 
2.43.0


From 88323eebe24d76725dc4b5d100b2ed4eca562e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 36/55] fix: white space is allowed between the parts of a quad
 pattern

---
 src/quads.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..7ced274 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, kw_end, sp, sp_enc, sp_sep, sp_sep1},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -49,7 +49,10 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(
+            opt(terminated(triples_template, sp)),
+            many0(preceded(sp, quads_entry)),
+        ),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -60,8 +63,8 @@ pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
 pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
     map(
         tuple((
-            tag_no_case("graph"),
-            sp_enc(var_or_iri),
+            terminated(tag_no_case("graph"), kw_end),
+            terminated(var_or_iri, sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
         )),
         |(_, var_or_iri, triples_template)| QuadsNotTriples {
@@ -73,7 +76,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
-- 
2.43.0


From c16d3aad886cacda6f053b61a45aed1c13dd9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 37/55] fix: a blank node label has no white space before it

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 9db5714..670332a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((
-- 
2.43.0


From 79f18b2be094aeb84e9a8677bdf93852f5e9dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 38/55] fix: a graph pattern may be followed by a dot, not by a
 question mark

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 670332a..1b5865a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
-- 
2.43.0


From 60f4c0cca5f7f2228c9da8605fb707f994b0f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 39/55] fix: white space between graph patterns and around
 UNION is optional

---
 src/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 1b5865a..c2918e4 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -30,7 +30,7 @@ use crate::{
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -166,7 +166,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            many0(preceded(sp, group_graph_pattern_and_triples)),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
-- 
2.43.0


From cabdec83c975dfd249bec1c7c430bf0ef3330932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 40/55] fix: a graph may have a prefixed name that starts like
 a keyword, and GRAPH may be followed by an IRI directly

---
 src/graph.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index c2918e4..f11326b 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
-    combinator::{map, opt},
+    combinator::{map, opt, peek},
     sequence::separated_pair,
     sequence::{delimited, pair, preceded, terminated},
     IResult,
@@ -123,12 +123,14 @@ pub struct ServiceGraphPattern {
 }
 
 pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+    preceded_tag1("graph", iri)(i)
 }
 
 pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
-        map(tag_no_case("default"), |_| GraphOrDefault::Default),
+        map(terminated(tag_no_case("default"), peek(kw_end)), |_| {
+            GraphOrDefault::Default
+        }),
         map(
             pair(opt(pair(tag_no_case("graph"), kw_end)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
-- 
2.43.0


From dd877e911c5876ddad6480cea1e39c1a79e93f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 41/55] fix: the graph of a modification is given by WITH, and
 white space before WHERE is optional

---
 src/operations.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 0d6d5dd..7541a4f 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -95,10 +95,14 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(delimited(
+                terminated(tag_no_case("with"), kw_end),
+                iri,
+                sp,
+            )),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
-            sp_enc1(tag_no_case("where")),
+            many0(preceded(sp, using_clause)),
+            delimited(sp, tag_no_case("where"), kw_end),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-- 
2.43.0


From a4faedb22f746852d9ff763b63b5a82ec7bce423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 42/55] fix: TO and INTO end where a name would not continue

---
 src/operations.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 7541a4f..c0e3683 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -132,7 +132,10 @@ pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, Gr
     tuple((
         map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
         graph_or_default,
-        preceded(sp_enc(tag_no_case("to")), graph_or_default),
+        preceded(
+            delimited(sp, tag_no_case("to"), kw_end),
+            graph_or_default,
+        ),
     ))(i)
 }
 
@@ -180,7 +183,10 @@ pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
             pair(tag_no_case("load"), kw_end),
             map(opt(terminated(silent, kw_end)), Option::unwrap_or_default),
             iri,
-            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
+            opt(preceded(
+                delimited(sp, tag_no_case("into"), kw_end),
+                graph_ref,
+            )),
         )),
         |(_, silent, iri, graph_ref)| LoadStatement {
             iri,
-- 
2.43.0


From ebeddc8c9116f41edb32f80aa4c6ff3feede700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 43/55] fix: ADD and MOVE are update operations

---
 src/update.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..ac15d37 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,8 +8,8 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
+    load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
     DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From 28d88b28a6dde1210807ee1cf98f2f0c68ce4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 44/55] fix: the AS of a GROUP BY condition is found after
 white space

---
 src/expression/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index d320eaa..a54802f 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -128,7 +128,10 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(
+                expression,
+                opt(preceded(delimited(sp, tag_no_case("as"), kw_end), var)),
+            ),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
-- 
2.43.0


From 685567ee56a8c5031e3aaef5151520656959db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 45/55] fix: operators need no white space around them

---
 src/arithmetic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..b531b79 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -7,7 +7,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::bytes::streaming::tag_no_case;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -120,7 +120,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            preceded(sp, many0(preceded(sp, add_expression))),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -139,7 +139,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                preceded(sp, many0(preceded(sp, mult_expression))),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -153,7 +153,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            preceded(sp, many0(preceded(sp, mult_expression))),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
-- 
2.43.0


From 743b9cbd0bc14b38fe4e22e84d89414a1be63ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 46/55] fix: NOT IN does not ask for more input

---
 src/arithmetic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index b531b79..eff2642 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -4,8 +4,7 @@ use crate::expression::{expression_list, primary_expression, ExpressionList, Pri
 use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
-- 
2.43.0


From c5f8f53f7321cbffca8de099e18bd706eb63e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 47/55] fix: NOT IN may be followed directly by its list

---
 src/arithmetic.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index eff2642..6a5b19c 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,12 +2,12 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::terminals::{preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
 use nom::multi::{many0, separated_nonempty_list};
-use nom::sequence::{pair, preceded, terminated};
+use nom::sequence::{delimited, pair, preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -176,7 +176,10 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(
+                    tag_no_case("not"),
+                    delimited(sp1, tag_no_case("in"), sp),
+                ),
                 expression_list,
             ),
             OpExpression::NIN,
-- 
2.43.0


From 4d4e328b44c9328c3b7c52459678b58f5045548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 48/55] fix: an unsigned number does not continue a sum

---
 src/arithmetic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 6a5b19c..3a19905 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,8 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::combinator::{map, opt};
+use nom::character::complete::one_of;
+use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{delimited, pair, preceded, terminated};
 use nom::IResult;
@@ -137,7 +138,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         ),
         map(
             pair(
-                numeric_literal,
+                preceded(peek(one_of("+-")), numeric_literal),
                 preceded(sp, many0(preceded(sp, mult_expression))),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
-- 
2.43.0


From bd0a8f7127be3f7a7ca5424f326dad8337fbe417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 49/55] fix: NOT EXISTS may be followed directly by its pattern

---
 src/call.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 5f93de8..83a127c 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -280,8 +280,8 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             tuple((
-                tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                terminated(tag_no_case("not"), sp1),
+                terminated(tag_no_case("exists"), kw_end),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
-- 
2.43.0


From bcd329490cf898fc0ea1e79e5eb21775bccf6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 50/55] fix: the VALUES block of a query is found after white
 space

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..a36352c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -15,7 +15,7 @@ pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
         tuple((
             terminated(prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag1("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
-- 
2.43.0


From ca6a62bb6b238765c8afb7a64d3fd14aa9228e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 51/55] fix: a dot before a digit starts a number

---
 src/graph.rs     |  4 ++--
 src/quads.rs     |  4 ++--
 src/terminals.rs |  6 ++++++
 src/triple.rs    | 10 +++++-----
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index f11326b..a9d86be 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,7 +22,7 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, kw_end, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, dot, iri, kw_end, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -210,7 +210,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index 7ced274..5352eee 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, kw_end, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, kw_end, sp, sp_enc, sp_sep, sp_sep1},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -78,7 +78,7 @@ pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
         separated_pair(
             quads_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_template)),
         ),
         |(quads_not_triples, triples_template)| QuadsEntry {
diff --git a/src/terminals.rs b/src/terminals.rs
index 5aa263f..7a22f22 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -90,6 +90,12 @@ pub(crate) fn kw_end(i: &str) -> IResult<&str, &str> {
     }
 }
 
+/// The dot after triples or a graph pattern; before a digit it starts a number instead.
+#[inline]
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         opt(preceded(char('#'), many0(none_of("\n\r")))),
diff --git a/src/triple.rs b/src/triple.rs
index ecfa5b7..94ef58e 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -92,8 +92,8 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
         terminated(
-            separated_nonempty_list(sp_enc(char('.')), triples_same_subject_path),
-            opt(preceded(sp, char('.'))),
+            separated_nonempty_list(sp_enc(dot), triples_same_subject_path),
+            opt(preceded(sp, dot)),
         ),
         TriplesBlock,
     )(i)
@@ -101,8 +101,8 @@ pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(sp_enc(char('.')), triples_same_subject),
-        opt(preceded(sp, char('.'))),
+        separated_nonempty_list(sp_enc(dot), triples_same_subject),
+        opt(preceded(sp, dot)),
     )(i)
 }
 
-- 
2.43.0


From 3571b0f6b01b50d14924fb5451c8b211b7d575f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 52/55] fix: LIMIT and OFFSET do not take the integer part of a
 decimal or double

---
 src/clauses.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index e59e3b8..117b338 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -3,7 +3,8 @@ use nom::{
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
-    combinator::{map, opt},
+    character::complete::char,
+    combinator::{map, not, opt},
     multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
@@ -17,6 +18,7 @@ use crate::{
     graph::group_graph_pattern,
     graph::GroupGraphPattern,
     group::{group_clause, GroupClause},
+    literal::exponent,
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
     terminals::{default_or_named_iri, kw_end, preceded_tag1, sp, sp1},
@@ -123,8 +125,13 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
-        |s| s.parse::<u64>(),
+        delimited(
+            terminated(pat, sp),
+            take_while1(|c: char| c.is_ascii_digit()),
+            // a decimal or double is no limit
+            not(alt((map(char('.'), |_| ()), map(exponent, |_| ())))),
+        ),
+        |s: &str| s.parse::<u64>(),
     )
 }
 
-- 
2.43.0


From 3768c5d732a8314fbfc7e23cf7b70f1b5ba2c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 53/55] fix: CLEAR and DROP do not take the start of a prefixed
 name for DEFAULT, NAMED or ALL

---
 src/graph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a9d86be..7a2649b 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -140,9 +140,15 @@ pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
 
 pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
     alt((
-        map(tag_no_case("default"), |_| GraphRefAll::Default),
-        map(tag_no_case("named"), |_| GraphRefAll::Named),
-        map(tag_no_case("all"), |_| GraphRefAll::All),
+        map(terminated(tag_no_case("default"), peek(kw_end)), |_| {
+            GraphRefAll::Default
+        }),
+        map(terminated(tag_no_case("named"), peek(kw_end)), |_| {
+            GraphRefAll::Named
+        }),
+        map(terminated(tag_no_case("all"), peek(kw_end)), |_| {
+            GraphRefAll::All
+        }),
         map(graph_ref, GraphRefAll::GraphRef),
     ))(i)
 }
-- 
2.43.0


From 7f9aca7c45866260eae98f97abe5ab4deedb7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 54/55] fix: keywords are matched by their ASCII letters only,
 so that other letters cannot split a character

nom's tag_no_case compares lower-cased characters but cuts the input at the keyword's byte length: 'ASK' with a
Kelvin sign, or 'limit' and 'uri' with a dotted capital I, panicked.
---
 src/aggregate.rs       |  3 +--
 src/arithmetic.rs      |  4 ++--
 src/call.rs            |  3 +--
 src/clauses.rs         |  4 ++--
 src/data.rs            |  4 ++--
 src/expression/mod.rs  |  4 ++--
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/literal.rs         |  4 ++--
 src/operations.rs      |  4 ++--
 src/order.rs           |  3 +--
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  3 +--
 src/query/construct.rs |  3 +--
 src/query/describe.rs  |  3 +--
 src/query/select.rs    |  4 ++--
 src/terminals.rs       | 12 +++++++++++-
 17 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index bf1b2a0..324e32e 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -2,12 +2,11 @@ use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
     terminals::{
-        bracketted, kw_end, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal,
+        bracketted, kw_end, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case,
     },
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 3a19905..b0292b6 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,9 +2,9 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp1, sp_enc};
+use crate::terminals::{preceded_tag, sp, sp1, sp_enc, tag_no_case};
 use nom::branch::alt;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::character::complete::one_of;
 use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
diff --git a/src/call.rs b/src/call.rs
index 83a127c..1f90e91 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -22,7 +21,7 @@ use crate::{
     literal::distinct,
     terminals::{
         iri, kw_end, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
-        sp_enc1,
+        sp_enc1, tag_no_case,
     },
     var::{var, Var},
 };
diff --git a/src/clauses.rs b/src/clauses.rs
index 117b338..0d04f82 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     character::complete::char,
@@ -21,7 +21,7 @@ use crate::{
     literal::exponent,
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, kw_end, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, kw_end, preceded_tag1, sp, sp1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..9279e48 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,7 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
     var::{var, Var},
 };
 
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index a54802f..04e31c0 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -14,7 +14,7 @@ use crate::{
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, iri_or_fun, kw_end, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1,
+        bracketted, iri_or_fun, kw_end, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, tag_no_case,
     },
 };
 
diff --git a/src/graph.rs b/src/graph.rs
index 7a2649b..67fecbd 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt, peek},
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, dot, iri, kw_end, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
diff --git a/src/group.rs b/src/group.rs
index 4138f9d..75e03f2 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,7 +3,7 @@ use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{kw_end, sp, sp1};
+use crate::terminals::{kw_end, sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 50eed41..dbce736 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index c0e3683..cd7fbdd 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
diff --git a/src/order.rs b/src/order.rs
index 8fd6eeb..e34016b 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,12 +1,11 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::kw_end;
+use crate::terminals::{kw_end, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/quads.rs b/src/quads.rs
index 5352eee..9421c11 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, dot, kw_end, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, kw_end, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 3962ad2..1166b85 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,8 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{kw_end, sp, sp1};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::{kw_end, sp, sp1, tag_no_case};
 use nom::combinator::map;
 use nom::multi::many0;
 use nom::sequence::{preceded, terminated, tuple};
diff --git a/src/query/construct.rs b/src/query/construct.rs
index aab0bda..c43d048 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{kw_end, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many0,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 8d0726d..e0acb62 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{kw_end, sp};
+use crate::terminals::{kw_end, sp, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many0,
diff --git a/src/query/select.rs b/src/query/select.rs
index b2f1884..82a3050 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many0, many1};
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{kw_end, sp, sp_enc};
+use crate::terminals::{kw_end, sp, sp_enc, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/terminals.rs b/src/terminals.rs
index 7a22f22..06e1018 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -70,6 +70,16 @@ where
     preceded(terminated(tag_no_case(tag), sp), pat)
 }
 
+/// Recognizes a keyword in upper or lower case; nom's `tag_no_case` also matches other letters that are lower cased
+/// to those of the keyword, and then splits the input at the wrong place.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i| match i.get(..tag.len()) {
+        Some(word) if word.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], word)),
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 #[inline]
 pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
     recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
-- 
2.43.0


From e7779ce21c2c9f0b34b54705dfbd83a65cc600c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:15 +0000
Subject: [PATCH 55/55] fix: a keyword does not take the start of a prefix with
 dots in it

---
 src/terminals.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/terminals.rs b/src/terminals.rs
index 06e1018..44ff4dd 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -96,6 +96,10 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 pub(crate) fn kw_end(i: &str) -> IResult<&str, &str> {
     match i.chars().next() {
         Some(c) if is_pn_char(c) || c == ':' => Err(Err::Error((i, ErrorKind::Space))),
+        // the word is the start of a prefix with dots in it
+        Some('.') if terminated(pn_chars_tail, char(':'))(i).is_ok() => {
+            Err(Err::Error((i, ErrorKind::Space)))
+        }
         _ => sp(i),
     }
 }
-- 
2.43.0

