------------------------------- MODULE Helpers ------------------------------
(***************************************************************************)
(* The helper functions as tables.  A state is one call; a transition      *)
(* changes one of its arguments, so the tables are walked completely from  *)
(* one corner.  Invariants: the laws the definitions must obey (checked on *)
(* the tables), and the replay of each call.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Wide   \* BOOLEAN: the larger argument sets
VARIABLE call
hvars == << call >>

(* ---- argument domains ---- *)
Lits == << "", "a", "A", "a b", "@en" >> \o (IF Wide THEN << "\\n", "^^", "0", "b" >> ELSE << >>)
Langs == << "en", "EN", "en-GB", "de", "", "e" >> \o (IF Wide THEN << "en-gb", "x", "en-", "fr" >> ELSE << >>)
StringArgs == { << k, l, "-" >> : k \in { "simple", "typed" }, l \in Range(Lits) } \cup { << "lang", l, t >> : l \in Range(Lits), t \in Range(Langs) }
Compatible(a, b) == IF a[1] = "lang" THEN b[1] # "lang" \/ a[3] = b[3] ELSE b[1] # "lang"

AggNames == { "COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "GROUP_CONCAT" }
AggExtra(n) == CASE n = "COUNT" -> { "*", "e" } [] n = "GROUP_CONCAT" -> { "-", ",", "" } [] OTHER -> { "-" }
Inner == << "?x", "COUNT(DISTINCT ?y)", "SUM(?distinct)", ":f(DISTINCT ?x)", "distinct:f(?x)", "?x + COUNT(*)", "<distinct>", "( ?distinct )" >> \o (IF Wide THEN << "MIN(DISTINCT 1)", "'distinct'", "!BOUND(?distinct)" >> ELSE << >>)
Tails(n) == IF n = "GROUP_CONCAT" THEN { "", "; SEPARATOR = 'distinct'", ";separator=\", \"" } ELSE { "" }
DistinctWords == { "DISTINCT ", "distinct ", "Distinct\n", "DISTINCT#c\n" }
AggTexts == { << n \o "(" \o d \o x \o t \o ")", IF d = "" THEN "no" ELSE "yes" >> :
                d \in { "" } \cup DistinctWords, << n, x, t >> \in { q \in AggNames \X (Range(Inner) \cup { "*" }) \X UNION { Tails(m) : m \in AggNames } : q[3] \in Tails(q[1]) /\ (q[2] = "*" => q[1] = "COUNT") } }

(* symbols, and texts that are none *)
Letters == << "+", "-", "*", "?", "/", " ", "1", "a" >>
Words == { "" } \cup Range(Letters) \cup { x \o y : x, y \in Range(Letters) }
         \cup { "plus", "minus", "POS", "NEG", "-1", "+1", "+ ", "0", "?*", "\\+", "++-", "-++", "***" }
         \cup (IF Wide THEN { x \o y \o w : x, y, w \in Range(Letters) } ELSE {})
(* other characters that look like the symbols: full-width and mathematical plus, minus, asterisk, question mark, dashes *)
Alike == { 65291, 65293, 8722, 8727, 65290, 65311, 8211, 173, 8208, 10133, 10134, 177, 0 }
(* the empty text stands for the sign that is not written *)
SignOf(w) == CASE w \in { "+", "" } -> "POS" [] w = "-" -> "NEG" [] OTHER -> "refused"
SymOf == [ POS |-> "+", NEG |-> "-" ]
ModOf(w) == CASE w = "?" -> "QuestionMark" [] w = "*" -> "Asterisk" [] w = "+" -> "Plus" [] OTHER -> "refused"

Iris == { "a", "b", "http://e.org/c", "" }
Opt(S) == S \cup { "-" }
YN == { "yes", "no" }
I(s) == IF s = "-" THEN "-" ELSE "I" \o s
Refs == { "DEFAULT", "NAMED", "ALL", "a", "b", "" }
RefOut(s) == IF s \in { "DEFAULT", "NAMED", "ALL" } THEN s ELSE "I" \o s
Vs == { "?a", "?b", "$a" }
U64 == { "0", "1", "10", "9223372036854775808", "18446744073709551615" }
Lists(S, n) == UNION { [ 1..m -> S ] : m \in 0..n }

(* ---- calls: f = function, x = arguments, y = answer ---- *)
R(f, x, y) == [ f |-> f, x |-> x, y |-> y, c |-> -1 ]
Rc(f, c, y) == [ f |-> f, x |-> << "" >>, y |-> y, c |-> c ]   \* the last argument ends in the code point c
Calls(f) ==
  CASE f = "compatible_arg" -> { R(f, a \o b, << IF Compatible(a, b) THEN "yes" ELSE "no" >>) : a, b \in StringArgs }
    [] f = "is_distinct" -> { R(f, << n, d, e >>, << IF d = "distinct" THEN "yes" ELSE "no" >>) : d \in { "distinct", "-" }, << n, e >> \in { q \in AggNames \X { "*", "e", "-", ",", "" } : q[2] \in AggExtra(q[1]) } }
    [] f = "is_distinct of" -> { R(f, << t[1] >>, << t[2] >>) : t \in AggTexts }
    [] f = "Sign" -> { R(f, << w >>, LET s == SignOf(w) IN IF s = "refused" THEN << s >> ELSE << s, SymOf[s], SymOf[s], "yes" >>) : w \in Words } \cup { Rc(f, c, << "refused" >>) : c \in Alike }
    [] f = "sign" -> { R(f, << s >>, << SymOf[s], SymOf[s], SymOf[s] \o "1", "yes" >>) : s \in DOMAIN SymOf }
    [] f = "Sign::default" -> { R(f, << >>, << "POS" >>) }
    [] f = "PathMod" -> { R(f, << w >>, << ModOf(w) >>) : w \in Words } \cup { Rc(f, c, << "refused" >>) : c \in Alike }
    [] f = "PrefixDecl" -> { R(f, << p, i >>, << p, i >>) : p \in { "p", "q.r", "-", "" }, i \in Iris }
    [] f = "InlineDataOneVar" -> { R(f, << v >> \o l, << v >> \o [ j \in 1..Len(l) |-> I(l[j]) ]) : v \in Vs, l \in Lists({ "a", "b" }, 3) }
    [] f = "InlineDataFull" -> { R(f, << v[1] >> \o [ j \in 1..Len(l) |-> l[j][1] ], << v[1] >> \o [ j \in 1..Len(l) |-> l[j][2] ]) :
                                  v \in { << "" >>, << "?a" >>, << "?a $b" >> }, l \in Lists({ << "", "" >>, << "a", "Ia" >>, << "b a", "Ib Ia" >> }, 2) }
    [] f = "VerbList" -> { R(f, << v[1] >> \o l, << v[2] >> \o l) : v \in { << "a", "a" >>, << "?v", "?v" >>, << "$v", "$v" >>, << "i", "Ii" >> }, l \in Lists(Vs, 2) }
    [] f = "QuadsNotTriples" -> { R(f, << i, t >>, << I(i), t >>) : i \in Iris \ { "" }, t \in Opt(Vs) }
    [] f = "QuadsEntry" -> { R(f, << v, t, u >>, << v, t, u >>) : v \in Vs, t, u \in Opt(Vs) }
    [] f = "Quads" -> { R(f, << t >> \o l, << t >> \o [ j \in 1..Len(l) |-> I(l[j]) ]) : t \in Opt(Vs), l \in Lists({ "a", "b" }, 3) }
    [] f = "LoadStatement" -> { R(f, << i, s, g >>, << "I" \o i, s, I(g) >>) : i \in Iris, s \in YN, g \in Opt(Iris) }
    [] f \in { "ClearStatement", "DropStatement" } -> { R(f, << s, g >>, << s, RefOut(g) >>) : s \in YN, g \in Refs }
    [] f = "CreateStatement" -> { R(f, << s, g >>, << s, "I" \o g >>) : s \in YN, g \in Iris }
    [] f = "limit_offset" -> { R(f, << a, b >>, << "limit first", a, b >>) : a \in U64, b \in Opt(U64) }
    [] f = "offset_limit" -> { R(f, << a, b >>, << "offset first", a, b >>) : a \in U64, b \in Opt(U64) }
    [] f = "RdfLiteral::new" -> { R(f, << l, k, d >>, << l, (IF k = "lang" THEN "L" ELSE "I") \o d >>) : l \in Range(Lits), k \in { "lang", "iri" }, d \in { "en", "a", "" } }
    [] f = "RdfLiteral::literal" -> { R(f, << l >>, << l, "-" >>) : l \in Range(Lits) }
    [] f = "Iri::iri_ref" -> { R(f, << i >>, << "I" \o i >>) : i \in Iris }
    [] OTHER -> { R(f, << "name", p, l >>, << "P" \o p \o ":" \o l >>) : p \in { "-", "p", "q" }, l \in { "l", "", "m" } } \cup { R(f, << "space", p >>, << "N" \o p >>) : p \in { "-", "p", "q" } }
Functions == { "compatible_arg", "is_distinct", "is_distinct of", "Sign", "sign", "Sign::default", "PathMod", "PrefixDecl", "InlineDataOneVar", "InlineDataFull", "VerbList", "QuadsNotTriples",
               "QuadsEntry", "Quads", "LoadStatement", "ClearStatement", "DropStatement", "CreateStatement", "limit_offset", "offset_limit", "RdfLiteral::new", "RdfLiteral::literal", "Iri::iri_ref", "Iri::prefixed_name" }

Init == \E f \in Functions : call = R(f, << >>, << >>)
Next == /\ call.y = << >> /\ call' \in Calls(call.f)
Spec == Init /\ [][Next]_hvars

(* laws *)
Reflexive == call.f = "compatible_arg" /\ call.y # << >> => Compatible(SubSeq(call.x, 1, 3), SubSeq(call.x, 1, 3))
OnlyFirstTagged == call.f = "compatible_arg" /\ call.y # << >> => (Compatible(SubSeq(call.x, 1, 3), SubSeq(call.x, 4, 6)) # Compatible(SubSeq(call.x, 4, 6), SubSeq(call.x, 1, 3)) => (call.x[1] = "lang") # (call.x[4] = "lang"))
ThereAndBack == call.f = "sign" /\ call.y # << >> => SignOf(SymOf[call.x[1]]) = call.x[1]
OneAnswer == \A f \in Functions : \A a, b \in Calls(f) : a.x = b.x => a.y = b.y
ASSUME \A f \in Functions \ { "compatible_arg", "is_distinct of", "Sign", "PathMod" } : \A a, b \in Calls(f) : a.x = b.x => a.y = b.y

EmitH == call.y = << >> \/
         PrintT(ToJson([ p |-> call.f, e |-> "H", k |-> "ok", a |-> call.y,
                         x |-> << call.f >> \o FlattenSeq([ j \in 1..Len(call.x) |-> << 31, call.x[j] >> ]) \o (IF call.c < 0 THEN << >> ELSE << call.c >>) ]))
=============================================================================
