------------------------------- MODULE Lexical ------------------------------
(***************************************************************************)
(* The token classes as automata over code points (SPARQL 1.1, 19.8,       *)
(* terminals), run in parallel over a candidate, and the contexts in which *)
(* a candidate is offered to the parser.                                   *)
(***************************************************************************)
EXTENDS Profiles, Sentence

(* ---- characters ---- *)
In(c, R) == \E r \in R : r[1] <= c /\ c <= r[2]
BaseRanges == { <<65, 90>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>, <<8204, 8205>>, <<8304, 8591>>,
                <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>> }
Digit(c) == 48 <= c /\ c <= 57
PnBase(c) == In(c, BaseRanges)
PnU(c) == PnBase(c) \/ c = 95
PnExtra(c) == c = 183 \/ In(c, { <<768, 879>>, <<8255, 8256>> })
PnChar(c) == PnU(c) \/ c = 45 \/ Digit(c) \/ PnExtra(c)
VarFirst(c) == PnU(c) \/ Digit(c)
VarChar(c) == PnU(c) \/ Digit(c) \/ PnExtra(c)
Hex(c) == Digit(c) \/ In(c, { <<65, 70>>, <<97, 102>> })
Alpha(c) == In(c, { <<65, 90>>, <<97, 122>> })
(* _ ~ . - ! $ & ' ( ) * + , ; = / ? # @ % *)
LocalEsc == { 95, 126, 46, 45, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 47, 63, 35, 64, 37 }
IriChar(c) == c > 32 /\ c \notin { 60, 62, 34, 123, 125, 124, 94, 96, 92 }
StrEsc == { 116, 98, 110, 114, 102, 92, 34, 39 }

(* ---- automata: step functions; "x" is the dead state ---- *)
Step(m, q, c) ==
  CASE m = "VAR" -> (CASE q = "0" -> IF c \in { 63, 36 } THEN "1" ELSE "x" [] q = "1" -> IF VarFirst(c) THEN "2" ELSE "x" [] q = "2" -> IF VarChar(c) THEN "2" ELSE "x" [] OTHER -> "x")
    [] m = "PN" -> (CASE q = "0" -> IF PnBase(c) THEN "p" ELSE IF c = 58 THEN "c" ELSE "x"
                      [] q = "p" -> IF PnChar(c) THEN "p" ELSE IF c = 46 THEN "pd" ELSE IF c = 58 THEN "c" ELSE "x"
                      [] q = "pd" -> IF PnChar(c) THEN "p" ELSE IF c = 46 THEN "pd" ELSE "x"
                      [] q = "c" -> IF PnU(c) \/ Digit(c) \/ c = 58 THEN "l" ELSE IF c = 37 THEN "h1" ELSE IF c = 92 THEN "e" ELSE "x"
                      [] q \in { "l", "ld" } -> IF PnChar(c) \/ c = 58 THEN "l" ELSE IF c = 46 THEN "ld" ELSE IF c = 37 THEN "h1" ELSE IF c = 92 THEN "e" ELSE "x"
                      [] q = "h1" -> IF Hex(c) THEN "h2" ELSE "x"
                      [] q = "h2" -> IF Hex(c) THEN "l" ELSE "x"
                      [] q = "e" -> IF c \in LocalEsc THEN "l" ELSE "x"
                      [] OTHER -> "x")
    [] m = "IRI" -> (CASE q = "0" -> IF c = 60 THEN "1" ELSE "x" [] q = "1" -> IF c = 62 THEN "2" ELSE IF IriChar(c) THEN "1" ELSE "x" [] OTHER -> "x")
    [] m = "BN" -> (CASE q = "0" -> IF c = 95 THEN "1" ELSE "x" [] q = "1" -> IF c = 58 THEN "2" ELSE "x" [] q = "2" -> IF PnU(c) \/ Digit(c) THEN "3" ELSE "x"
                      [] q \in { "3", "4" } -> IF PnChar(c) THEN "3" ELSE IF c = 46 THEN "4" ELSE "x" [] OTHER -> "x")
    [] m = "LANG" -> (CASE q = "0" -> IF c = 64 THEN "1" ELSE "x" [] q = "1" -> IF Alpha(c) THEN "2" ELSE "x" [] q = "2" -> IF Alpha(c) THEN "2" ELSE IF c = 45 THEN "3" ELSE "x"
                        [] q = "3" -> IF Alpha(c) \/ Digit(c) THEN "4" ELSE "x" [] q = "4" -> IF Alpha(c) \/ Digit(c) THEN "4" ELSE IF c = 45 THEN "3" ELSE "x" [] OTHER -> "x")
    [] m = "STR" -> (CASE q = "0" -> IF c = 34 THEN "d" ELSE IF c = 39 THEN "s" ELSE "x"
                       [] q = "d" -> IF c = 34 THEN "f" ELSE IF c = 92 THEN "de" ELSE "d"
                       [] q = "s" -> IF c = 39 THEN "f" ELSE IF c = 92 THEN "se" ELSE "s"
                       [] q = "de" -> IF c \in StrEsc THEN "d" ELSE "x"
                       [] q = "se" -> IF c \in StrEsc THEN "s" ELSE "x"
                       [] OTHER -> "x")
    (* a number ending in a dot is a decimal here: the existing tests fix that *)
    [] m = "NUM" -> (CASE q = "0" -> IF c \in { 43, 45 } THEN "1" ELSE IF Digit(c) THEN "2" ELSE IF c = 46 THEN "3" ELSE "x"
                       [] q = "1" -> IF Digit(c) THEN "2" ELSE IF c = 46 THEN "3" ELSE "x"
                       [] q = "2" -> IF Digit(c) THEN "2" ELSE IF c = 46 THEN "4" ELSE IF c \in { 69, 101 } THEN "6" ELSE "x"
                       [] q = "3" -> IF Digit(c) THEN "5" ELSE "x"
                       [] q \in { "4", "5" } -> IF Digit(c) THEN "5" ELSE IF c \in { 69, 101 } THEN "6" ELSE "x"
                       [] q = "6" -> IF c \in { 43, 45 } THEN "7" ELSE IF Digit(c) THEN "8" ELSE "x"
                       [] q \in { "7", "8" } -> IF Digit(c) THEN "8" ELSE "x"
                       [] OTHER -> "x")
Machines == { "VAR", "PN", "IRI", "BN", "LANG", "STR", "NUM" }
Class(m, q) == CASE m = "VAR" /\ q = "2" -> "VAR" [] m = "PN" /\ q = "c" -> "NS" [] m = "PN" /\ q = "l" -> "LN" [] m = "IRI" /\ q = "2" -> "IRI"
                 [] m = "BN" /\ q = "3" -> "BN" [] m = "LANG" /\ q \in { "2", "4" } -> "LANG" [] m = "STR" /\ q = "f" -> "STR"
                 [] m = "NUM" /\ q = "2" -> "INT" [] m = "NUM" /\ q \in { "4", "5" } -> "DEC" [] m = "NUM" /\ q = "8" -> "DBL" [] OTHER -> "-"
Run(m, s) == FoldLeft(LAMBDA q, c : Step(m, q, c), "0", s)
Q0 == [ m \in Machines |-> "0" ]
RunAll(s) == [ m \in Machines |-> Run(m, s) ]
(* the class of a candidate; no candidate is in two *)
ClassOf(Q) == LET S == { Class(m, Q[m]) : m \in Machines } \ { "-" } IN IF S = {} THEN "-" ELSE CHOOSE c \in S : TRUE
OneClass(Q) == Cardinality({ m \in Machines : Class(m, Q[m]) # "-" }) <= 1

(* ---- leaves ---- *)
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # << >> /\ s[Len(s)] = 48 THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Upto(s, S) == LET W == { i \in 1..Len(s) : s[i] \in S } IN IF W = {} THEN Len(s) + 1 ELSE CHOOSE i \in W : \A j \in W : i <= j
Unsigned(s) == IF s[1] \in { 43, 45 } THEN Tail(s) ELSE s
Minus(s) == IF s[1] = 45 THEN << 45 >> ELSE << >>
IntLeaf(s) == LET d == LStrip(Unsigned(s)) IN << "#" >> \o (IF d = << 48 >> THEN << >> ELSE Minus(s)) \o d
DblLeaf(s) ==
  LET u == Unsigned(s)  e == Upto(u, { 69, 101 })  man == SubSeq(u, 1, e - 1)  p == Upto(man, { 46 })
      ip == LStrip(<< 48 >> \o SubSeq(man, 1, p - 1))  fp == RStrip(SubSeq(man, p + 1, Len(man)))
      ex == SubSeq(u, e + 1, Len(u))
  IN << "D" >> \o Minus(s) \o ip \o (IF fp = << >> THEN << >> ELSE << 46 >> \o fp)
     \o (IF ex = << >> THEN << >> ELSE << 101 >> \o (LET x == LStrip(Unsigned(ex)) IN IF x = << 48 >> THEN x ELSE Minus(ex) \o x))
Inner(s) == SubSeq(s, 2, Len(s) - 1)
(* what the candidate enters in the tree *)
LeafOf(c, s) == CASE c = "VAR" -> << << "V" >> \o s >> [] c = "LN" -> << << "P" >> \o s >> [] c = "NS" -> << << "N" >> \o s >>
                  [] c = "IRI" -> << << "I" >> \o Inner(s) >> [] c = "BN" -> << << "B" >> \o SubSeq(s, 3, Len(s)) >> [] c = "LANG" -> << << "L" >> \o SubSeq(s, 2, Len(s)) >>
                  [] c = "STR" -> << << "(lit" >>, << "S" >> \o Inner(s), << "-" >>, << ")" >> >> [] c = "INT" -> << IntLeaf(s) >> [] OTHER -> << DblLeaf(s) >>

(***************************************************************************)
(* Contexts.  l and r: what is written before and after the candidate;     *)
(* ok: the classes that fit; skip: classes (or "-", no token at all) about *)
(* which the context says nothing, because another reading may be right.   *)
(***************************************************************************)
Ask(ts) == BlockOf(ts)
Insert(ts) == UpdateOf(<< "INSERT", "DATA", "#(insdata", "#(quads", "{" >> \o ts \o << "}", "#)", "#)" >>)
NameCs == { "VAR", "LN", "NS", "IRI" }
IriCs == { "LN", "NS", "IRI" }
NumCs == { "INT", "DEC", "DBL" }
TermCs == IriCs \cup NumCs \cup { "BN", "STR" }
DefAllOf(f) == FlattenSeq([ i \in 1..Len(f) |-> IF f[i] \in Syms THEN DefYield[f[i]] ELSE << f[i] >> ])
C(e, form, ok, skip, gl, gr) == LET i == CHOOSE j \in 1..Len(form) : form[j] = "@" IN
  [ e |-> e, l |-> DefAllOf(SubSeq(form, 1, i - 1)), r |-> DefAllOf(SubSeq(form, i + 1, Len(form))), ok |-> ok, skip |-> skip, gl |-> gl, gr |-> gr ]
TssOf(s, v, os) == << "#(tss" >> \o s \o << "#(pl", "#(po" >> \o v \o << "#(objs" >> \o os \o << "#)", "#)", "#)", "#)" >>
Obj(os) == TssOf(<< "%VAR" >>, << "%VAR" >>, os)
Ctx == TLCEval([
  object   |-> C("Q", Ask(Obj(<< "@", ",", "Iri" >>)), TermCs \cup { "VAR" }, {}, " ", " "),
  objectc  |-> C("Q", Ask(Obj(<< "@", ",", "Iri" >>)), TermCs \cup { "VAR" }, {}, " ", ""),
  objectd  |-> C("Q", Ask(Obj(<< "@" >>) \o << "." >> \o Obj(<< "Iri" >>)), TermCs \cup { "VAR" }, { "INT" }, " ", ""),
  lastobj  |-> C("Q", Ask(Obj(<< "@" >>)), TermCs \cup { "VAR" }, { "-" }, " ", ""),
  subject  |-> C("Q", Ask(TssOf(<< "@" >>, << "%VAR" >>, << "Iri" >>)), TermCs \cup { "VAR" }, {}, " ", " "),
  verb     |-> C("U", Insert(<< "#(tt" >> \o TssOf(<< "Iri" >>, << "@" >>, << "Iri" >>) \o << "#)" >>), NameCs, {}, " ", " "),
  tobject  |-> C("U", Insert(<< "#(tt" >> \o Obj(<< "@", ",", "Iri" >>) \o << "#)" >>), TermCs \cup { "VAR" }, {}, " ", " "),
  path     |-> C("Q", Ask(TssOf(<< "%VAR" >>, << "#(alt", "#(seq", "#(elt", "@", "#-", "#)", "#)", "#)" >>, << "Iri" >>)), IriCs, { "VAR", "-" }, " ", " "),
  graph    |-> C("Q", GroupOf(<< "GRAPH", "#(graph", "@", "Ggp", "#)" >>), NameCs, {}, " ", " "),
  graphb   |-> C("Q", GroupOf(<< "GRAPH", "#(graph", "@", "Ggp", "#)" >>), NameCs, {}, " ", ""),
  from     |-> C("Q", QueryOf(<< "#(ask", "ASK", "#(from", "FROM", "#(d", "@", "#)", "#)", "Ggp" >> \o NoMod \o << "#)" >>), IriCs, {}, " ", " "),
  prefix   |-> C("Q", << "#(query", "#(pro", "#(prefix", "PREFIX", "@", "%IRIREF", "#)", "#)", "Query", "#-", "#)" >>, { "NS" }, {}, " ", " "),
  prefixi  |-> C("U", << "#(update", "#(pro", "#(prefix", "PREFIX", "%PNS", "@", "#)", "#)", "CLEAR", "#(clear", "#-", "ALL", "#ALL", "#)", "#-", "#)" >>, { "IRI" }, {}, " ", " "),
  base     |-> C("Q", << "#(query", "#(pro", "#(base", "BASE", "@", "#)", "#)", "Query", "#-", "#)" >>, { "IRI" }, {}, "", " "),
  datatype |-> C("Q", Ask(Obj(<< "#(lit", "%STRING", "^^", "@", "#)", ",", "Iri" >>)), IriCs, {}, "", " "),
  select   |-> C("Q", QueryOf(<< "#(select", "SELECT", "#-", "#(vars", "@", "#)" >> \o NoFrom \o << "Ggp" >> \o NoMod \o << "#)" >>), { "VAR" }, { "-" }, " ", ""),
  asvar    |-> C("Q", GroupOf(<< "BIND", "(", "#(bind", "Expr", "AS", "@", "#)", ")" >>), { "VAR" }, {}, " ", ""),
  clear    |-> C("U", UpdateOf(<< "CLEAR", "#(clear", "#-", "GRAPH", "@", "#)" >>), IriCs, {}, " ", ""),
  load     |-> C("U", UpdateOf(<< "LOAD", "#(load", "#-", "@", "#-", "#)" >>), IriCs, {}, " ", " "),
  langtag  |-> C("Q", Ask(Obj(<< "#(lit", "%STRING", "@", "#)", ",", "Iri" >>)), { "LANG" }, { "VAR", "IRI", "STR", "LN", "NS", "BN", "INT", "DEC", "DBL" }, "", " "),
  named    |-> C("Q", QueryOf(<< "#(ask", "ASK", "#(from", "FROM", "NAMED", "#(n", "@", "#)", "#)", "Ggp" >> \o NoMod \o << "#)" >>), IriCs, {}, " ", " "),
  usingn   |-> C("U", UpdateOf(<< "INSERT", "#(modify", "#-", "#-", "Quads", "#(using", "USING", "NAMED", "#(n", "@", "#)", "#)", "WHERE", "Ggp", "#)" >>), IriCs, {}, " ", " "),
  using    |-> C("U", UpdateOf(<< "INSERT", "#(modify", "#-", "#-", "Quads", "#(using", "USING", "#(d", "@", "#)", "#)", "WHERE", "Ggp", "#)" >>), IriCs, {}, " ", " "),
  with     |-> C("U", UpdateOf(<< "WITH", "#(modify", "@", "#-", "INSERT", "Quads", "#(using", "#)", "WHERE", "Ggp", "#)" >>), IriCs, {}, " ", " "),
  into     |-> C("U", UpdateOf(<< "LOAD", "#(load", "#-", "%IRIREF", "INTO", "GRAPH", "@", "#)" >>), IriCs, {}, " ", ""),
  copyto   |-> C("U", UpdateOf(<< "COPY", "#(copy", "#-", "Iri", "TO", "@", "#)" >>), IriCs, {}, " ", ""),
  copyfrom |-> C("U", UpdateOf(<< "COPY", "#(copy", "#-", "@", "TO", "Iri", "#)" >>), IriCs, {}, " ", " "),
  qgraph   |-> C("U", Insert(<< "GRAPH", "#(gq", "@", "{", "}", "#)" >>), NameCs, {}, " ", ""),
  service  |-> C("Q", GroupOf(<< "SERVICE", "#(service", "#-", "@", "Ggp", "#)" >>), NameCs, {}, " ", ""),
  describe |-> C("Q", QueryOf(<< "#(describe", "DESCRIBE", "#(targets", "@", "#)" >> \o NoFrom \o << "WHERE", "Ggp" >> \o NoMod \o << "#)" >>), NameCs, { "-" }, " ", " "),
  call     |-> C("Q", FilterOf(<< "#(call", "@", "%NIL", "#nil", "#)" >>), IriCs, { "-" }, " ", ""),
  iof      |-> C("Q", BrFilter(VarExpr(<< "#(iof", "@", "#-", "#)" >>)), IriCs, { "VAR", "STR", "INT", "DEC", "DBL", "-" }, "", ""),
  exprvar  |-> C("Q", BrFilter(VarExpr(<< "@" >>)), { "VAR" }, { "LN", "NS", "IRI", "STR", "INT", "DEC", "DBL", "-" }, "", ""),
  bound    |-> C("Q", FilterOf(<< "BOUND", "#(BOUND", "(", "@", ")", "#)" >>), { "VAR" }, {}, "", ""),
  orderby  |-> C("Q", ModOf(<< "#-", "#-", "ORDER", "BY", "#(order", "@", "#)", "#(lo", "LIMIT", "%INT:lim", "#-", "#)" >>), { "VAR" }, { "-" }, " ", " "),
  groupas  |-> C("Q", ModOf(<< "GROUP", "BY", "#(group", "(", "#(gexpr", "Expr", "AS", "@", "#)", ")", "#)", "#-", "#-", "#-" >>), { "VAR" }, {}, " ", ""),
  onevar   |-> C("Q", GroupOf(<< "VALUES", "#(inline", "#(one", "@", "{", "}", "#)", "#)" >>), { "VAR" }, {}, " ", ""),
  fullvar  |-> C("Q", GroupOf(<< "VALUES", "#(inline", "#(full", "#(vs", "(", "@", ")", "#)", "{", "}", "#)", "#)" >>), { "VAR" }, { "-" }, "", ""),
  rowcell  |-> C("Q", GroupOf(<< "VALUES", "#(inline", "#(full", "#(vs", "(", "Var", ")", "#)", "{", "#(row", "(", "@", ")", "#)", "}", "#)", "#)" >>), IriCs \cup NumCs \cup { "STR" }, { "-" }, "", ""),
  member   |-> C("Q", Ask(TssOf(<< "%VAR" >>, << "%VAR" >>, << "(", "#(coll", "@", "#)", ")" >>)), TermCs \cup { "VAR" }, { "-" }, "", ""),
  inner    |-> C("Q", Ask(TssOf(<< "%VAR" >>, << "%VAR" >>, << "[", "#(bpl", "#(po", "%VAR", "#(objs", "@", "#)", "#)", "#)", "]" >>)), TermCs \cup { "VAR" }, { "-" }, " ", ""),
  cell     |-> C("Q", GroupOf(<< "VALUES", "#(inline", "#(one", "Var", "{", "@", "}", "#)", "#)" >>), IriCs \cup NumCs \cup { "STR" }, { "-" }, "", "")
])

Spaced(y) == LET T == Tokens(y) IN [ i \in 1..Len(T) |-> T[i].t \o (IF i = Len(T) THEN "" ELSE " ") ]
JoinS(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
LeftText == TLCEval([ x \in DOMAIN Ctx |-> JoinS(Spaced(Ctx[x].l)) \o Ctx[x].gl ])
RightText == TLCEval([ x \in DOMAIN Ctx |-> Ctx[x].gr \o JoinS(Spaced(Ctx[x].r)) ])
LeftTree == TLCEval([ x \in DOMAIN Ctx |-> TreeOf(Ctx[x].l) ])
RightTree == TLCEval([ x \in DOMAIN Ctx |-> TreeOf(Ctx[x].r) ])

(* nothing is said about: a comment sign outside a token, white space around the candidate (it separates), line breaks in quoted strings (the existing tests allow them),  *)
(* strings that start with three quotes (long strings), and code point escapes                                                            *)
White == { 9, 10, 13, 32 }
Unclear(s, c) == /\ s # << >>
                 /\ \/ s[1] \in White \/ s[Len(s)] \in White
                    \/ c = "-" /\ 35 \in Range(s)
                    \/ c = "STR" /\ \E i \in 1..Len(s) : s[i] \in { 10, 13 }
                    \/ Len(s) > 2 /\ s[1] \in { 34, 39 } /\ s[2] = s[1] /\ s[3] = s[1]
                    \/ \E i \in 1..(Len(s) - 1) : s[i] = 92 /\ s[i + 1] \in { 85, 117 }

(* numbers that the result cannot hold: nothing is said about their value *)
RECURSIVE Leq(_, _)
Leq(a, b) == a = << >> \/ a[1] < b[1] \/ (a[1] = b[1] /\ Leq(Tail(a), Tail(b)))
Max64 == << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55 >>
Min64 == << 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56 >>
Fits64(s) == LET d == LStrip(Unsigned(s)) IN Len(d) < 19 \/ (Len(d) = 19 /\ Leq(d, IF Minus(s) = << >> THEN Max64 ELSE Min64))
Beyond(s, c) ==
  CASE c = "INT" -> ~Fits64(s)
    [] c \in { "DEC", "DBL" } ->
         LET u == Unsigned(s)  e == Upto(u, { 69, 101 })  man == SelectSeq(SubSeq(u, 1, e - 1), LAMBDA ch : ch # 46) IN
         Len(LStrip(man)) > 15 \/ (c = "DBL" /\ ~Fits64(SubSeq(u, e + 1, Len(u))))
    [] OTHER -> FALSE

(* what is expected of candidate s (with automata states Q) in context x *)
Verdict(x, s, Q) ==
  LET c == ClassOf(Q) IN
  IF c \in Ctx[x].skip \/ Unclear(s, c) \/ Beyond(s, c) \/ (x = "verb" /\ s = << 97 >>) THEN [ k |-> "skip" ]
  ELSE IF c \in Ctx[x].ok
  THEN [ p |-> "lex:" \o x, e |-> Ctx[x].e, k |-> "ok", x |-> << LeftText[x] >> \o s \o << RightText[x] >>, a |-> LeftTree[x] \o LeafOf(c, s) \o RightTree[x] ]
  ELSE [ p |-> "lex:" \o x, e |-> Ctx[x].e, k |-> "not", x |-> << LeftText[x] >> \o s \o << RightText[x] >>, a |-> << >> ]
=============================================================================
