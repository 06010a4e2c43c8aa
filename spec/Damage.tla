-------------------------------- MODULE Damage ------------------------------
(***************************************************************************)
(* Token sequences one damage away from a given one.                       *)
(***************************************************************************)
EXTENDS Sentence

TokenFor(q, i) == LET lx == LexAt(q, i) IN [ k |-> q, t |-> lx.t, l |-> lx.l, s |-> lx.s ]
Cut(T, i) == SubSeq(T, 1, i - 1)
From(T, i) == SubSeq(T, i, Len(T))
(* numerals beyond 64 bits are only specified after LIMIT and OFFSET, so they are not moved elsewhere *)
Big == { "#18446744073709551615", "#9223372036854775808", "#18446744073709551614" }
(* ---- words that are no token of SPARQL ---- *)
BadWords == << "A", "foo", "X_1", "~", "\\", "`", "%", "&", "@", "$", "_", "_:", "ex", "Z9", "SELECTS", "trues", "notin", "inx", "b_c", "ASKS", "wherex", "a1", "aa", "by_", "asx", "ORDERBYS", "optionals", "unions", "existss", "undefs", "dataS", "tos", "`A0`", "`C`", "`B`", "`85`", "`2028`", "`3000`", "`FEFF`", "`200B`", "`0`", "`7F`", "//x", "/*c*/", "--c", "`B7`", "`D7`", "`201C`s`201D`", "`FF1F`x", "`37E`", "$ x", "_: x", "_ :", "ex :x" >>
Bad(i) == [ k |-> "%BAD", t |-> BadWords[1 + (i % Len(BadWords))], l |-> "", s |-> "" ]

(* ---- two adjacent tokens written together: where their texts form one longer token, that is what they become ---- *)
Digits == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }
RECURSIVE Strip0(_)
Strip0(t) == IF Len(t) > 1 /\ SubSeq(t, 1, 1) = "0" THEN Strip0(SubSeq(t, 2, Len(t))) ELSE t
Alpha(t) == \A i \in 1..Len(t) : SubSeq(t, i, i) \in DOMAIN LowerOf \/ SubSeq(t, i, i) \in Range(Small)
Tok(k, t, l, s) == << [ k |-> k, t |-> t, l |-> l, s |-> s ] >>
WordK == Keywords \cup { "a" }
(* << >>: nothing is known about the two together *)
Joined(p, q) ==
  LET t == p.t \o q.t IN
  CASE p.k \in WordK /\ q.k \in { "%PNAME", "%BNODE" } -> Tok("%PNAME", t, "P" \o t, "")
    [] p.k \in WordK /\ q.k = "%PNS" -> Tok("%PNS", t, "N" \o t, "")
    [] p.k = "%VAR" /\ q.k \in WordK \cup { "%INT" } -> Tok("%VAR", t, "V" \o t, "")
    [] p.k = "?" /\ q.k \in WordK \cup { "%INT" } -> Tok("%VAR", t, "V" \o t, "")
    [] p.k \in { "%PNAME", "%PNS" } /\ q.k \in WordK \cup { "%INT", "%PNAME", "%PNS" } -> Tok("%PNAME", t, "P" \o t, "")
    [] p.k = "%PNAME" /\ q.k = "%BNODE" -> Tok("%PNAME", t, "P" \o t, "")
    [] p.k = "%BNODE" /\ q.k \in WordK \cup { "%INT" } -> Tok("%BNODE", t, p.l \o q.t, "")
    [] p.k = "%LANG" /\ q.k \in WordK /\ Alpha(q.t) -> Tok("%LANG", t, p.l \o q.t, "")
    [] p.k = "%INT" /\ q.k = "%INT" /\ Len(t) < 18 -> Tok("%INT", t, "#" \o Strip0(t), "")
    [] p.k \in { "+", "-" } /\ q.k \in { "%INT", "%NUM" } -> Tok("%SNUM", t, q.l, p.k)
    [] OTHER -> << >>

(* ---- literals whose datatype says how to read them: they are reported as written all the same ---- *)
TypedText == << Lexm("\"1\"", "S1"), Lexm("'007'", "S007"), Lexm("\"-5\"", "S-5"), Lexm("'+2.50'", "S+2.50"), Lexm("\"1e0\"", "S1e0"), Lexm("'true'", "Strue"), Lexm("\"FALSE\"", "SFALSE"), Lexm("\"\"", "S"), Lexm("' a '", "S a "), Lexm("\"0\"", "S0") >>
XsdNames == << "string", "integer", "int", "decimal", "double", "float", "boolean", "date" >>
TypedData == TLCEval(FlattenSeq([ i \in 1..Len(XsdNames) |-> LET d == XsdNames[i]  u == "http://www.w3.org/2001/XMLSchema#" \o d IN
               << [ k |-> "%PNAME", t |-> "xsd:" \o d, l |-> "Pxsd:" \o d, s |-> "" ], [ k |-> "%IRIREF", t |-> "<" \o u \o ">", l |-> "I" \o u, s |-> "" ] >> ])
               \o << [ k |-> "%PNAME", t |-> "rdf:langString", l |-> "Prdf:langString", s |-> "" ], [ k |-> "%PNAME", t |-> "rdf:HTML", l |-> "Prdf:HTML", s |-> "" ] >>)
Typed(T, i, v, d) == [ [ T EXCEPT ![i].t = TypedText[v].t, ![i].l = TypedText[v].l ] EXCEPT ![i + 2] = TypedData[d] ]

(* ---- coincidences: two tokens of one kind become alike; a declared prefix is the one of a name ---- *)
RECURSIVE ColonAt(_, _)
ColonAt(t, i) == IF SubSeq(t, i, i) = ":" THEN i ELSE ColonAt(t, i + 1)
PrefixTok(tk) == LET t == SubSeq(tk.t, 1, ColonAt(tk.t, 1)) IN [ k |-> "%PNS", t |-> t, l |-> "N" \o t, s |-> "" ]
Pooled == { "%VAR", "%PNAME", "%PNS", "%IRIREF", "%STRING", "%LANG", "%BNODE", "%INT", "%NUM", "%SNUM" }
Alikes(T) == { x \in (1..Len(T)) \X (1..Len(T)) : x[1] < x[2] /\ T[x[1]].k = T[x[2]].k /\ T[x[1]].k \in Pooled /\ T[x[1]].t # T[x[2]].t }
Ties(T) == { x \in (1..Len(T)) \X (1..Len(T)) : T[x[1]].k = "%PNS" /\ T[x[2]].k = "%PNAME" }

(* ---- near misses: a token that differs a little ---- *)
UpperOf == TLCEval([ c \in Range(Small) |-> Letters[CHOOSE i \in 1..26 : Small[i] = c] ])
Flip(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c
FlipAt(t, i) == SubSeq(t, 1, i - 1) \o Flip(SubSeq(t, i, i)) \o SubSeq(t, i + 1, Len(t))
(* the letters of a text that may change their case: those not escaped, nor within the number of a code point *)
Free(t) == FoldLeft(LAMBDA a, i : LET c == SubSeq(t, i, i) IN
                      [ tick |-> IF c = "`" THEN ~a.tick ELSE a.tick, at |-> IF ~a.tick /\ Flip(c) # c /\ (i = 1 \/ SubSeq(t, i - 1, i - 1) # "\\") THEN a.at \cup { i } ELSE a.at ],
                    [ tick |-> FALSE, at |-> {} ], [ i \in 1..Len(t) |-> i ]).at
Inner(t, a, b) == SubSeq(t, 1 + a, Len(t) - b)
LeafOf(k, t) ==
  CASE k = "%VAR" -> "V" \o t  [] k = "%PNAME" -> "P" \o t  [] k = "%PNS" -> "N" \o t
    [] k = "%IRIREF" -> "I" \o Inner(t, 1, 1)  [] k = "%STRING" -> "S" \o Inner(t, 1, 1)
    [] k = "%LANG" -> "L" \o Inner(t, 1, 0)  [] k = "%BNODE" -> "B" \o Inner(t, 2, 0)
NearText(k, t) ==
  { FlipAt(t, i) : i \in { j \in Free(t) : j <= 14 \/ j >= Len(t) - 1 } }
  \cup (CASE k = "%VAR" -> { (IF SubSeq(t, 1, 1) = "?" THEN "$" ELSE "?") \o Inner(t, 1, 0), t \o "_", t \o "0" }
          [] k = "%PNAME" -> { t \o "_", t \o ":", t \o "%2f", t \o "%2F", t \o "\\-", t \o "-" }
          [] k = "%PNS" -> {}
          [] k = "%IRIREF" -> { "<" \o Inner(t, 1, 1) \o x \o ">" : x \in { "/", "#", "?", ".", "%20" } } \cup { "<./" \o Inner(t, 1, 1) \o ">" }
          [] k = "%STRING" -> { SubSeq(t, 1, 1) \o x \o Inner(t, 1, 1) \o y \o SubSeq(t, Len(t), Len(t)) : x \in { "", " " }, y \in { " ", "\\n", "`0`", "" } }
                              \cup (IF \E i \in 2..(Len(t) - 1) : SubSeq(t, i, i) \in { "'", "\"", "\\" } THEN {} ELSE { "'" \o Inner(t, 1, 1) \o "'", "\"" \o Inner(t, 1, 1) \o "\"" })
          [] k = "%LANG" -> { t \o "-x", t \o "-X", t \o "-0" }
          [] k = "%BNODE" -> { t \o "_", t \o "0" })
(* numerals many of which have the same value *)
Numerals == << Num("", "1", "#1"), Num("", "01", "#1"), Num("", "10", "#10"), Num("", "1.0", "D1"), Num("", "1.00", "D1"), Num("", "1e0", "D1e0"), Num("", "1.0E+0", "D1e0"), Num("", "1e-0", "D1e0"),
               Num("", "10e-1", "D10e-1"), Num("", "0.1e1", "D0.1e1"), Num("", ".1e01", "D0.1e1"), Num("", "100e-2", "D100e-2"), Num("", "1e1", "D1e1"), Num("", "10.0", "D10"), Num("", "10e0", "D10e0"),
               Num("", "0", "#0"), Num("", "00", "#0"), Num("", "0.0", "D0"), Num("", ".0", "D0"), Num("", "0e0", "D0e0"), Num("", "0e1", "D0e1"), Num("", "0.0e2", "D0e2"), Num("", "0e-1", "D0e-1"),
               Num("", "1e400", "D1e400"), Num("", "2e400", "D2e400"), Num("", "1e401", "D1e401"), Num("", "1e-400", "D1e-400"), Num("", "2e-400", "D2e-400"),
               Num("", "9007199254740992", "#9007199254740992"), Num("", "9007199254740993", "#9007199254740993"), Num("", "0.1", "D0.1"), Num("", "0.10", "D0.1"), Num("", "0.11", "D0.11"), Num("", "1e4294967296", "D1e4294967296") >>
NearNum == { [ k |-> IF SubSeq(x.l, 1, 1) = "#" THEN "%INT" ELSE "%NUM", t |-> x.t, l |-> x.l, s |-> "" ] : x \in Range(Numerals) }
NearTok(tk) ==
  CASE tk.k \in { "%VAR", "%PNAME", "%PNS", "%IRIREF", "%STRING", "%LANG", "%BNODE" } -> { [ tk EXCEPT !.t = x, !.l = LeafOf(tk.k, x) ] : x \in NearText(tk.k, tk.t) }
    [] tk.k \in { "%INT", "%NUM" } /\ tk.l \notin Big -> NearNum
    [] tk.k = "%SNUM" -> { [ k |-> "%SNUM", t |-> s \o x.t, l |-> x.l, s |-> s ] : s \in { "+", "-" }, x \in NearNum }
    [] OTHER -> {}
(* the keywords that may stand where another one stands: they begin some alternative of the same non-terminal *)
Sibs == TLCEval([ k \in Keywords |-> UNION { FirstSets[n] \cap Keywords : n \in { m \in NTs : k \in FirstSets[m] } } \ { k } ])
(* two neighbouring stretches of the request exchanged *)
Blocks(T, i, a, b) == Cut(T, i) \o SubSeq(T, i + a, (i + a + b) - 1) \o SubSeq(T, i, (i + a) - 1) \o From(T, i + a + b)

(* clauses that have a place of their own, to be put where they have none *)
Phrases == << << "PREFIX", "%PNS", "%IRIREF" >>, << "BASE", "%IRIREF" >>, << "FROM", "%IRIREF" >>, << "FROM", "NAMED", "%PNAME" >>, << "USING", "%PNAME" >>, << "WHERE", "{", "}" >>, << "{", "}" >>,
              << "LIMIT", "%INT" >>, << "OFFSET", "%INT" >>, << "ORDER", "BY", "%VAR" >>, << "ORDER", "BY", "DESC", "(", "%VAR", ")" >>, << "GROUP", "BY", "%VAR" >>, << "HAVING", "(", "%VAR", ")" >>,
              << "VALUES", "%VAR", "{", "%INT", "}" >>, << "VALUES", "%NIL", "{", "}" >>, << "FILTER", "(", "%VAR", ")" >>, << "FILTER", "EXISTS", "{", "}" >>, << "BIND", "(", "%INT", "AS", "%VAR", ")" >>,
              << "OPTIONAL", "{", "}" >>, << "UNION", "{", "}" >>, << "MINUS", "{", "}" >>, << "GRAPH", "%VAR", "{", "}" >>, << "GRAPH", "%IRIREF" >>, << "SERVICE", "SILENT", "%IRIREF", "{", "}" >>,
              << "SELECT", "*", "{", "}" >>, << "CONSTRUCT", "{", "}" >>, << "ASK", "{", "}" >>, << "DESCRIBE", "*" >>,
              << ";", "a", "%VAR" >>, << ";", ";" >>, << ",", "%VAR" >>, << ".", "%VAR", "a", "%VAR" >>, << "%VAR", "a", "%VAR" >>, << "%VAR", "a", "%VAR", "." >>, << "a", "%VAR" >>, << "[", "a", "%VAR", "]" >>, << "(", "%VAR", ")" >>, << "(", ")" >>, << "[", "]" >>,
              << "AS", "%VAR" >>, << "(", "%INT", "AS", "%VAR", ")" >>, << "DISTINCT", "%VAR" >>, << "INTO", "GRAPH", "%IRIREF" >>, << "TO", "DEFAULT" >>, << ";", "SEPARATOR", "=", "%STRING" >>, << "SEPARATOR", "=", "%STRING" >>,
              << "+", "%INT" >>, << "*", "%VAR" >>, << "=", "%INT" >>, << "&&", "%VAR" >>, << "||", "!", "%VAR" >>, << "IN", "(", "%INT", ")" >>, << "NOT", "IN", "%NIL" >>, << "NOT", "EXISTS", "{", "}" >>, << "!", "-" >>, << "COUNT", "(", "*", ")" >>, << "STR", "(", "%VAR", ")" >>,
              << "/", "a" >>, << "|", "^", "a" >>, << "!", "(", "a", ")" >>, << "a", "*" >>, << "%LANG" >>, << "^^", "%PNAME" >>, << "WITH", "%IRIREF" >>, << "INSERT", "{", "}" >>, << "DELETE", "{", "}" >>, << "INSERT", "DATA", "{", "}" >>,
              << ";", "CLEAR", "ALL" >>, << "SILENT", "DEFAULT" >>, << "UNDEF", "UNDEF" >>, << "(", "UNDEF", ")" >>, << "TRUE" >>, << "}", "{" >>, << ")", "(" >>, << "]", "[" >>, << "}", "}" >>, << ")", ")" >>, << "{", "{" >> >>
Spoken(p, i) == [ j \in 1..Len(Phrases[p]) |-> TokenFor(Phrases[p][j], i + j) ]

Some(k) == LET P == LexTable[k]  c == Len(Curated[k]) IN { P[i] : i \in { j \in 1..Len(P) : j <= c \/ (j + Shift) % 16 = 0 } }
Damaged(T, Ops, Kinds, Stride, d) ==
  LET n == Len(T)
      Hash(i, q) == (i * 7 + Len(q) * 3 + d * 5 + Shift) % Stride IN
  (IF "del" \in Ops THEN { Cut(T, i) \o From(T, i + 1) : i \in 1..n } ELSE {})
  \cup (IF "dup" \in Ops THEN { Cut(T, i + 1) \o From(T, i) : i \in 1..n } ELSE {})
  \cup (IF "swap" \in Ops THEN { Cut(T, i) \o << T[i + 1], T[i] >> \o From(T, i + 2) : i \in 1..(n - 1) } ELSE {})
  \cup (IF "cut" \in Ops THEN { Cut(T, i) : i \in 1..n } ELSE {})
  \cup (IF "lex" \in Ops THEN UNION { { [ T EXCEPT ![i] = [ @ EXCEPT !.t = lx.t, !.l = lx.l, !.s = lx.s ] ] : lx \in Some(T[i].k) }
                                       : i \in { j \in 1..n : T[j].k \in DOMAIN LexTable /\ T[j].l \notin Big } } ELSE {})
  \cup (IF "few" \in Ops THEN LET h == FoldLeft(LAMBDA a, t : ((a * 31) + Len(t.t) + (7 * Len(t.k))) % 9973, Shift, T) IN
                             UNION { LET P == LexTable[T[i].k]  c == Len(Curated[T[i].k]) IN
                                     { [ T EXCEPT ![i] = [ @ EXCEPT !.t = P[j].t, !.l = P[j].l, !.s = P[j].s ] ] : j \in { q \in 1..Len(P) : ((h + i) + (q * IF q > c THEN 3 ELSE 1)) % (IF q > c THEN 16 * Stride ELSE Stride) = 0 } }
                                     : i \in { j \in 1..n : T[j].k \in DOMAIN LexTable /\ T[j].l \notin Big } } ELSE {})
  \cup (IF "ins" \in Ops THEN { Cut(T, i) \o << TokenFor(q, i) >> \o From(T, i) : <<i, q>> \in { x \in (1..(n + 1)) \X Kinds : Hash(x[1], x[2]) = 0 } } ELSE {})
  \cup (IF "graft" \in Ops THEN { Cut(T, x[1]) \o Spoken(x[2], x[1]) \o From(T, x[1]) : x \in { y \in (1..(n + 1)) \X (1..Len(Phrases)) : ((y[1] * 7) + (y[2] * 3) + d + Shift) % ((Stride \div 10) + 1) = 0 } } ELSE {})
  \cup (IF "drop" \in Ops THEN { Cut(T, x[1]) \o From(T, x[1] + x[2]) : x \in { y \in (1..n) \X (2..6) : (y[1] + y[2]) - 1 <= n } } ELSE {})
  \cup (IF "echo" \in Ops THEN { Cut(T, x[1] + x[2]) \o From(T, x[1]) : x \in { y \in (1..n) \X (2..6) : (y[1] + y[2]) - 1 <= n } } ELSE {})
  \cup (IF "rep" \in Ops THEN { Cut(T, i) \o << TokenFor(q, i) >> \o From(T, i + 1) : <<i, q>> \in { x \in (1..n) \X Kinds : Hash(x[1], x[2]) = 0 } } ELSE {})
  \cup (IF "bad" \in Ops THEN UNION { { Cut(T, i) \o << Bad((i * 5) + n + Shift) >> \o From(T, i), Cut(T, i) \o << Bad((i * 7) + n + Shift) >> \o From(T, i + 1) } : i \in 1..(n + 1) } ELSE {})
  \cup (IF "alike" \in Ops THEN UNION { { [ T EXCEPT ![i].k = "%BAD", ![i].t = AlikeWord(@, v), ![i].l = "" ] : v \in AlikeNum(T[i].t) } : i \in { j \in 1..n : T[j].k \in Keywords } }
                                \cup { [ T EXCEPT ![i].k = "%BAD", ![i].t = "A", ![i].l = "" ] : i \in { j \in 1..n : T[j].k = "a" } } ELSE {})
  \cup (IF "typed" \in Ops THEN { Typed(T, x[1], x[2], x[3]) : x \in { j \in 1..(n - 2) : T[j].k = "%STRING" /\ T[j + 1].k = "^^" } \X (1..Len(TypedText)) \X (1..Len(TypedData)) } ELSE {})
  \cup (IF "same" \in Ops THEN { [ T EXCEPT ![x[2]] = T[x[1]] ] : x \in { y \in Alikes(T) : T[y[1]].l \notin Big /\ T[y[2]].l \notin Big } }
                               \cup { [ T EXCEPT ![x[1]] = PrefixTok(T[x[2]]) ] : x \in Ties(T) } ELSE {})
  \cup (IF "near" \in Ops THEN UNION { { [ T EXCEPT ![i] = x ] : x \in NearTok(T[i]) } : i \in 1..n } ELSE {})
  \cup (IF "perm" \in Ops THEN { [ T EXCEPT ![x[1]] = T[x[2]], ![x[2]] = T[x[1]] ] : x \in { y \in Alikes(T) : T[y[1]].l \notin Big /\ T[y[2]].l \notin Big } } ELSE {})
  \cup (IF "sibs" \in Ops THEN UNION { { [ T EXCEPT ![i] = [ k |-> q, t |-> q, l |-> "", s |-> "" ] ] : q \in Sibs[T[i].k] } : i \in { j \in 1..n : T[j].k \in Keywords } } ELSE {})
  \cup (IF "blocks" \in Ops THEN { Blocks(T, x[1], x[2], x[3]) : x \in { y \in (1..n) \X (1..4) \X (1..4) : (y[1] + y[2] + y[3]) - 1 <= n } } ELSE {})
  \cup (IF "join" \in Ops THEN { Cut(T, i) \o Joined(T[i], T[i + 1]) \o From(T, i + 2) : i \in { j \in 1..(n - 1) : Joined(T[j], T[j + 1]) # << >> } } ELSE {})

Specified(T) == ~ \E i \in 1..Len(T) : T[i].l \in Big
(* trees that differ in the sign of a zero only: as numbers equal, written otherwise *)
Unsigned0(l) == IF l = "D-0" \/ (Len(l) > 3 /\ SubSeq(l, 1, 4) = "D-0e") THEN "D0" \o SubSeq(l, 4, Len(l)) ELSE l
OnlyZeros(x, y) == x # y /\ Len(x) = Len(y) /\ \A i \in 1..Len(x) : Unsigned0(x[i]) = Unsigned0(y[i])
=============================================================================
