----------------------------- MODULE Sentence ------------------------------
(***************************************************************************)
(* From a derivation's terminal string to tokens, text and tree; and back: *)
(* the accepting machine.                                                  *)
(***************************************************************************)
EXTENDS SparqlGrammar, Integers

CONSTANT Shift     \* rotates the lexeme tables; every run explores another assignment of names to positions

(* In the texts of lexemes, `H` stands for the code point with hexadecimal number H (TLA+ strings are ASCII). *)
(* ---- lexemes: t = text, l = leaf entered in the tree, s = sign of a signed number ---- *)
Lexm(t, l) == [ t |-> t, l |-> l, s |-> "" ]
Num(s, t, l) == [ t |-> s \o t, l |-> l, s |-> s ]
Both(t, k) == Lexm(t, k \o t)
Long == "a23456789_b23456789_c23456789_d23456789_e23456789_f23456789_g23456789_h23456789_i23456789_j23456789_k23456789_l23456789_m23456789_n23456789_o23456789_p23456789_q23456789_r23456789_s23456789_t23456789_u23456789_v23456789_w23456789_x23456789_y23456789_z23456789"
Letters == << "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>
Small   == << "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" >>
LowerOf == TLCEval([ c \in Range(Letters) |-> Small[CHOOSE i \in 1..26 : Letters[i] = c] ])
Low(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE Head(s) \o Join(Tail(s))
LowWord(w) == Join([ i \in 1..Len(w) |-> Low(SubSeq(w, i, i)) ])
(* Letters outside ASCII that become one of ASCII when the case is changed: v = which of those in the word, 0 = all. *)
Alike == [ I |-> "`130`", i |-> "`131`", K |-> "`212A`", k |-> "`212A`", S |-> "`17F`", s |-> "`17F`" ]
AlikeAt(w) == SelectSeq([ i \in 1..Len(w) |-> i ], LAMBDA i : SubSeq(w, i, i) \in DOMAIN Alike)
AlikeWord(w, v) == LET at == AlikeAt(w) IN
  Join([ i \in 1..Len(w) |-> IF SubSeq(w, i, i) \in DOMAIN Alike /\ (v = 0 \/ at[v] = i) THEN Alike[SubSeq(w, i, i)] ELSE SubSeq(w, i, i) ])
AlikeNum(w) == LET n == Len(AlikeAt(w)) IN IF n = 0 THEN {} ELSE IF n = 1 THEN { 0 } ELSE 0..n

(* names beginning with, or being, a keyword of the grammar *)
KwSeq == TLCEval(SetToSeq(Keywords))
KwCased == TLCEval([ i \in 1..Len(KwSeq) |-> IF i % 3 = 0 THEN KwSeq[i] ELSE LowWord(KwSeq[i]) ])
KwNames(c) == [ i \in 1..Len(KwSeq) |->
  LET w == KwCased[i]  v == KwCased[1 + ((i * 7) % Len(KwSeq))] IN
  CASE c = "%VAR" -> IF i % 2 = 0 THEN Lexm("?" \o w, "V?" \o w) ELSE Lexm("$" \o w, "V$" \o w)
    [] c = "%PNAME" -> LET t == IF i % 4 = 0 THEN ":" \o w ELSE IF i % 4 = 1 THEN w \o ":" \o v ELSE w \o ":k1" IN Lexm(t, "P" \o t)
    [] c = "%PNS" -> Lexm(w \o ":", "N" \o w \o ":")
    [] c = "%BNODE" -> Lexm("_:" \o w, "B" \o w) ]
Curated == TLCEval([ c \in { TokOf[x] : x \in Classes } |->
  CASE c = "%VAR" -> << Lexm("?a", "V?a"), Lexm("?b1", "V?b1"), Lexm("$c", "V$c"), Lexm("?d_2", "V?d_2"), Lexm("?e", "V?e"), Lexm("$f0", "V$f0"),
                        Lexm("?select", "V?select"), Lexm("?0g", "V?0g"), Lexm("?h", "V?h"), Lexm("?as", "V?as"), Lexm("?i", "V?i"),
                        Lexm("$distinct", "V$distinct"), Lexm("?where", "V?where"), Lexm("?_", "V?_"), Lexm("?true", "V?true"), Lexm("$9", "V$9"),
                        Both("?`E9`t`E9`", "V"), Both("$`3B1``B7``300`", "V"), Both("?`10000`_x", "V"), Both("?" \o Long, "V"), Both("?00", "V"), Both("$_0", "V"), Both("?A", "V"), Both("?B1", "V") >>
    [] c = "%PNAME" -> << Lexm("ex:a", "Pex:a"), Lexm(":b", "P:b"), Lexm("p.q:c1", "Pp.q:c1"), Lexm("ex:d.e", "Pex:d.e"), Lexm("a:f", "Pa:f"),
                          Lexm("x-y:g-h", "Px-y:g-h"), Lexm("ex:1k", "Pex:1k"), Lexm("default:l", "Pdefault:l"), Lexm(":m:n", "P:m:n"),
                          Lexm("ex:in", "Pex:in"), Lexm("str:o", "Pstr:o"), Lexm("graph:w", "Pgraph:w"), Lexm("asc:z", "Pasc:z"),
                          Lexm("silent:q", "Psilent:q"), Lexm("distinct:r", "Pdistinct:r"), Lexm("true:t", "Ptrue:t"), Lexm("undef:u", "Pundef:u"),
                          Lexm("all:v", "Pall:v"), Lexm("named:x", "Pnamed:x"), Lexm("where:y", "Pwhere:y"), Lexm("optional:z", "Poptional:z"),
                          Lexm("count:a1", "Pcount:a1"), Lexm("not:a2", "Pnot:a2"), Lexm("union:a3", "Punion:a3"), Lexm("from:a4", "Pfrom:a4"),
                          Lexm("limit:a5", "Plimit:a5"), Lexm("values:a6", "Pvalues:a6"), Lexm("b-c.d:a7", "Pb-c.d:a7"), Lexm("to:a8", "Pto:a8"),
                          Lexm("as:a9", "Pas:a9"), Lexm("using:select", "Pusing:select"), Lexm("false:where", "Pfalse:where"), Lexm("exists:b1", "Pexists:b1"),
                          Lexm("having:%2Fb2", "Phaving:%2Fb2"), Lexm("by:b\\-3", "Pby:b\\-3"), Lexm("delete:data", "Pdelete:data"), Lexm("uri:b5", "Puri:b5"),
                          Both("`E9`x:`3B2`", "P"), Both("ex:`1F600``203F`", "P"), Both("p`B7`:q`200D`r", "P"), Both("ex:%C3%a9\\~c\\.", "P"), Both("ex:a.b..c", "P"),
                          Both(Long \o ":" \o Long, "P"), Both(":0.`D8``F6`", "P"),
                          (* names with a meaning of their own elsewhere; here they are names like any other *)
                          Both("rdf:type", "P"), Both("rdf:nil", "P"), Both("rdf:first", "P"), Both("xsd:string", "P"), Both("xsd:integer", "P"), Both("xsd:boolean", "P"),
                          Both("xsd:dateTime", "P"), Both("fn:concat", "P"), Both("EX:a", "P"), Both("ex:A", "P"),
                          Both("::c1", "P"), Both("ex:a:", "P"), Both("::", "P"), Both("ex::", "P"), Both(":0", "P"), Both("ex:%00", "P"), Both(":\\#", "P"), Both("ex:_", "P"), Both("a:a", "P") >>
    [] c = "%PNS" -> << Lexm("ex:", "Nex:"), Lexm(":", "N:"), Lexm("p.q:", "Np.q:"), Lexm("not:", "Nnot:"), Lexm("u-v:", "Nu-v:"),
                       Lexm("silent:", "Nsilent:"), Lexm("distinct:", "Ndistinct:"), Lexm("true:", "Ntrue:"), Lexm("undef:", "Nundef:"), Lexm("a:", "Na:"),
                       Lexm("default:", "Ndefault:"), Lexm("graph:", "Ngraph:"), Lexm("in:", "Nin:"), Lexm("base:", "Nbase:"), Lexm("prefix:", "Nprefix:"),
                       Lexm("named:", "Nnamed:"), Lexm("all:", "Nall:"), Lexm("bnode:", "Nbnode:"), Lexm("asc:", "Nasc:"), Lexm("where:", "Nwhere:"),
                       Lexm("offset:", "Noffset:"), Lexm("service:", "Nservice:"), Lexm("insert:", "Ninsert:"),
                       Both("`E9``300`:", "N"), Both("a.`EFFFF`:", "N"), Both(Long \o ":", "N"), Both("rdf:", "N"), Both("xsd:", "N"), Both("EX:", "N") >>
    [] c = "%IRIREF" -> << Lexm("<http://e.org/a#b>", "Ihttp://e.org/a#b"), Lexm("<b>", "Ib"), Lexm("<urn:c?d=1&e=(2)>", "Iurn:c?d=1&e=(2)"),
                           Lexm("<>", "I"), Lexm("<../f/g;h,i>", "I../f/g;h,i"), Lexm("<j*k+l!m.>", "Ij*k+l!m."), Lexm("<where>", "Iwhere"),
                           Lexm("<http://`E9`.org/`1F600`?`10FFFD`#%20>", "Ihttp://`E9`.org/`1F600`?`10FFFD`#%20"), Lexm("<urn:" \o Long \o ">", "Iurn:" \o Long),
                           Lexm("<HTTP://A.b/C%7e/./>", "IHTTP://A.b/C%7e/./"),
                           Lexm("<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>", "Ihttp://www.w3.org/1999/02/22-rdf-syntax-ns#type"),
                           Lexm("<http://www.w3.org/1999/02/22-rdf-syntax-ns#nil>", "Ihttp://www.w3.org/1999/02/22-rdf-syntax-ns#nil"),
                           Lexm("<http://www.w3.org/2001/XMLSchema#string>", "Ihttp://www.w3.org/2001/XMLSchema#string"), Lexm("<_:a>", "I_:a"), Lexm("<?v>", "I?v"),
                           Lexm("<http://e.org:80/>", "Ihttp://e.org:80/"), Lexm("<a/>", "Ia/"), Lexm("<#>", "I#") >>
    [] c = "%STRING" -> << Lexm("\"s\"", "Ss"), Lexm("'t u'", "St u"), Lexm("\"\"", "S"), Lexm("'{?v . }'", "S{?v . }"), Lexm("\"w#x\"", "Sw#x"),
                           Lexm("'y\\'z'", "Sy\\'z"), Lexm("\"it's\"", "Sit's"), Lexm("'\\\\'", "S\\\\"), Lexm("\"A\\\"@en\\n\"", "SA\\\"@en\\n"),
                           Lexm("\"`E9``1F600``FEFF` \"", "S`E9``1F600``FEFF` "), Lexm("'" \o Long \o "'", "S" \o Long), Lexm("\" Pad\t\"", "S Pad\t"),
                           Lexm("\" \"", "S "), Lexm("'1'", "S1"), Lexm("\"true\"", "Strue"), Lexm("\"-2.50\"", "S-2.50"), Lexm("'UNDEF'", "SUNDEF"), Lexm("'?v'", "S?v"), Lexm("\"<a>\"", "S<a>"),
                           Lexm("\"\\\\\"", "S\\\\"), Lexm("'\"'", "S\""), Lexm("\"'\"", "S'"), Lexm("'#'", "S#"), Lexm("'\\n'", "S\\n"), Lexm("\"\\\"\"", "S\\\""), Lexm("\",;.\"", "S,;.") >>
    [] c = "%LANG" -> << Lexm("@en", "Len"), Lexm("@de-AT", "Lde-AT"), Lexm("@x-1-a2", "Lx-1-a2"), Lexm("@EN-us", "LEN-us"), Lexm("@Zh-hANT", "LZh-hANT"), Lexm("@x", "Lx"), Lexm("@de-Latn-1996x-extended12", "Lde-Latn-1996x-extended12"), Lexm("@en-en-en-en-en-en-en-en-en", "Len-en-en-en-en-en-en-en-en") >>
    [] c = "%BNODE" -> << Lexm("_:a", "Ba"), Lexm("_:b1", "Bb1"), Lexm("_:0c", "B0c"), Lexm("_:d.e", "Bd.e"), Lexm("_:_f", "B_f"), Lexm("_:a", "Ba"), Lexm("_:where", "Bwhere"),
                         Lexm("_:g-1", "Bg-1"), Lexm("_:silent", "Bsilent"),
                         Lexm("_:`E9``B7`.`EFFFF`", "B`E9``B7`.`EFFFF`"), Lexm("_:" \o Long, "B" \o Long), Lexm("_:0", "B0"), Lexm("_:A", "BA"), Lexm("_:1.2", "B1.2"), Lexm("_:_", "B_") >>
    [] c = "%INT" -> << Num("", "1", "#1"), Num("", "23", "#23"), Num("", "0", "#0"), Num("", "9223372036854775807", "#9223372036854775807"),
                        Num("", "007", "#7"), Num("", "45", "#45"), Num("", "6", "#6"), Num("", "9007199254740993", "#9007199254740993"), Num("", "4294967297", "#4294967297") >>
    [] c = "%NUM" -> << Num("", "1.5", "D1.5"), Num("", "2e3", "D2e3"), Num("", ".25", "D0.25"), Num("", "4.50E-2", "D4.5e-2"), Num("", "0.0", "D0"),
                        Num("", ".5e+6", "D0.5e6"), Num("", "10.125", "D10.125"), Num("", "2.0", "D2"), Num("", "1e0", "D1e0"), Num("", "123456789.0", "D123456789"), Num("", "0.1000", "D0.1"), Num("", "3e00", "D3e0"), Num("", "16777217.5", "D16777217.5") >>
    [] c = "%SNUM" -> << Num("-", "1", "#1"), Num("+", "2", "#2"), Num("-", "3.5", "D3.5"), Num("+", ".25", "D0.25"), Num("-", "6e7", "D6e7"),
                         Num("+", "8.5E-9", "D8.5e-9"), Num("-", "40", "#40"), Num("+", "0", "#0"), Num("-", "0.0", "D0"), Num("-", "9007199254740993", "#9007199254740993"), Num("+", "5.0", "D5"), Num("-", "1e0", "D1e0") >>
    [] c = "%NIL" -> << Lexm("()", ""), Lexm("( )", "") >>
    [] c = "%ANON" -> << Lexm("[]", ""), Lexm("[ ]", "") >> ])

LexTable == TLCEval([ c \in DOMAIN Curated |-> IF c \in { "%VAR", "%PNAME", "%PNS", "%BNODE" } THEN Curated[c] \o KwNames(c) ELSE Curated[c] ])

(* numbers allowed after LIMIT and OFFSET: unsigned 64 bit *)
LimLex == << Num("", "10", "#10"), Num("", "0", "#0"), Num("", "18446744073709551615", "#18446744073709551615"), Num("", "7", "#7"),
             Num("", "9223372036854775808", "#9223372036854775808"), Num("", "005", "#5"), Num("", "1", "#1"),
             Num("", "9007199254740993", "#9007199254740993"), Num("", "4294967296", "#4294967296"), Num("", "18446744073709551614", "#18446744073709551614") >>
PoolOf(s) == IF s = "%INT:lim" THEN LimLex ELSE LexTable[TokOf[s]]

Lower == [ TRUE |-> "true", FALSE |-> "false" ]
Plain(t) == [ t |-> IF t \in DOMAIN Lower THEN Lower[t] ELSE t, l |-> "", s |-> "" ]

(* a number that differs from one terminal string to the next, so that each gets other names *)
Salt(y) == IF Shift < 0 THEN 0 ELSE FoldLeft(LAMBDA a, x : ((a * 3) + Len(x)) % 10007, Shift, y)
(* the lexeme that terminal symbol sym gets as the i-th token of a string of salt z *)
(* Shift < 0: names coincide, only one, two or three lexemes of each class are used *)
Few == 1 + ((0 - Shift) % 3)
LexAtZ(sym, i, z) == IF sym \in Classes
                 THEN LET P == PoolOf(sym) IN
                      IF Shift >= 0 THEN P[(((i * 5) + z) % Len(P)) + 1]
                      ELSE P[((((((i * i * 3) + i) % 17) % Few) + (0 - Shift)) % Len(P)) + 1]
                 ELSE Plain(sym)
LexAt(sym, i) == LexAtZ(sym, i, Shift)

Neg(l) == SubSeq(l, 1, 1) \o "-" \o SubSeq(l, 2, Len(l))
(* what a terminal enters in the tree *)
Enter(sym, lx) ==
  CASE sym \notin Classes -> << >>
    [] sym \in { "%NIL", "%ANON" } -> << >>
    [] sym = "%SNUM" -> IF lx.s = "-" THEN << Neg(lx.l) >> ELSE << lx.l >>
    [] sym = "%SNUM:pri" -> << IF lx.s = "-" THEN "(neg" ELSE "(plus", lx.l, ")" >>
    [] sym = "%SNUM:priu" -> IF lx.s = "-" THEN << "(neg", lx.l, ")" >> ELSE << lx.l >>
    [] sym = "%SNUM:add" -> << IF lx.s = "-" THEN "(-" ELSE "(+", "(mul", lx.l >>
    [] OTHER -> << lx.l >>

(* ---- sentence of a complete terminal string (terminals and marks) ---- *)
TermSeq(y) == SelectSeq(y, LAMBDA s : ~IsMark[s])
(* tokens: [k: kind, t: text, l, s] *)
Tokens(y) == LET ts == TermSeq(y)  z == Salt(y) IN
  [ i \in 1..Len(ts) |-> LET lx == LexAtZ(ts[i], i, z) IN [ k |-> TokOf[ts[i]], t |-> lx.t, l |-> lx.l, s |-> lx.s ] ]
TreeOf(y) == LET z == Salt(y) IN
  FoldLeft(LAMBDA a, s : IF IsMark[s] THEN [ a EXCEPT !.o = Append(@, MarkOut[s]) ]
                         ELSE [ n |-> a.n + 1, o |-> a.o \o Enter(s, LexAtZ(s, a.n + 1, z)) ],
           [ n |-> 0, o |-> << >> ], y).o

(***************************************************************************)
(* The accepting machine.  It reads tokens one at a time; after each it    *)
(* notes whether what it has read is a complete request.                   *)
(***************************************************************************)
(* "(" ")" is the token NIL and "[" "]" the token ANON; w = how many of the written tokens each one spans *)
Normal(toks) ==
  FoldLeft(LAMBDA a, t :
     IF a # << >> /\ a[Len(a)].k = "(" /\ t.k = ")" THEN [ a EXCEPT ![Len(a)] = [ k |-> "%NIL", t |-> "()", l |-> "", s |-> "", w |-> 2 ] ]
     ELSE IF a # << >> /\ a[Len(a)].k = "[" /\ t.k = "]" THEN [ a EXCEPT ![Len(a)] = [ k |-> "%ANON", t |-> "[]", l |-> "", s |-> "", w |-> 2 ] ]
     ELSE Append(a, [ k |-> t.k, t |-> t.t, l |-> t.l, s |-> t.s, w |-> 1 ]), << >>, toks)

RECURSIVE Drive(_, _, _)
(* expand until the token is on top; result: stack without it, output; ok = FALSE if impossible *)
Drive(st, out, tk) ==
  IF st = << >> THEN [ ok |-> FALSE, st |-> st, out |-> out ]
  ELSE LET s == Head(st) IN
       IF s \in NTs
       THEN LET k == Table[s][tk.k] IN
            IF k = 0 THEN [ ok |-> FALSE, st |-> st, out |-> out ]
            ELSE Drive(G[s][k] \o Tail(st), out, tk)
       ELSE IF IsMark[s] THEN Drive(Tail(st), Append(out, MarkOut[s]), tk)
       ELSE IF TokOf[s] = tk.k THEN [ ok |-> TRUE, st |-> Tail(st), out |-> out \o Enter(s, tk) ]
       ELSE [ ok |-> FALSE, st |-> st, out |-> out ]

NullStack(st) == \A i \in 1..Len(st) : st[i] \in DOMAIN EpsOf
Flush(st) == FlattenSeq([ i \in 1..Len(st) |-> EpsOf[st[i]] ])

(* result: n = number of tokens of the longest prefix that is a complete request (-1: none), ast = its tree *)
Accept(start, toks) ==
  LET init == [ ok |-> TRUE, st |-> << start >>, out |-> << >>, i |-> 0,
                n |-> IF start \in Nullable THEN 0 ELSE -1,
                ast |-> IF start \in Nullable THEN EpsOf[start] ELSE << >> ]
      stepf(a, t) ==
        IF ~a.ok THEN a
        ELSE IF t.k = "%BAD" THEN [ a EXCEPT !.ok = FALSE ]     \* not a token at all
        ELSE LET d == Drive(a.st, a.out, t) IN
             IF ~d.ok THEN [ a EXCEPT !.ok = FALSE ]
             ELSE IF NullStack(d.st)
                  THEN [ ok |-> TRUE, st |-> d.st, out |-> d.out, i |-> a.i + t.w, n |-> a.i + t.w, ast |-> d.out \o Flush(d.st) ]
                  ELSE [ ok |-> TRUE, st |-> d.st, out |-> d.out, i |-> a.i + t.w, n |-> a.n, ast |-> a.ast ]
      r == FoldLeft(stepf, init, Normal(toks))
  IN [ n |-> r.n, ast |-> r.ast ]

(***************************************************************************)
(* Layout: may the white space between two adjacent tokens be left out     *)
(* without the tokens running together?  (Conservative: FALSE when in      *)
(* doubt; the property only speaks about brackets and punctuation.)        *)
(***************************************************************************)
Brackets == { "{", "}", "(", ")", "[", "]", ",", ";", "%NIL", "%ANON" }
Numbers  == { "%INT", "%NUM", "%SNUM" }
Names    == { "%PNAME", "%PNS", "%BNODE" }
Operands == { "%VAR", "%IRIREF", "%STRING", "%LANG", "%PNAME", "%PNS" }
GlueOK(p, q) ==
  CASE p \in { "<", "<=" } -> FALSE
    [] p \in Brackets \/ q \in Brackets -> TRUE
    [] q = "." -> p \in Operands \cup { "%BNODE", "TRUE", "FALSE" }
    [] p = "." -> q \in { "%VAR", "%IRIREF", "%STRING" }
    [] q = "%LANG" \/ q = "^^" -> p = "%STRING"
    [] p = "^^" -> q \in { "%IRIREF", "%PNAME", "%PNS" }
    [] p \in { "?", "*", "+" } /\ q \in { "/", "|" } -> TRUE
    [] p \in { "/", "|", "&&", "||" } /\ q \in { "^", "!" } -> TRUE
    [] p \in { "=", "!=", ">=", ">", "&&", "||", "*", "/", "|" } -> q \in { "%VAR", "%IRIREF", "%STRING", "%PNAME", "%PNS", "a" } \cup Keywords \cup Numbers
    [] p \in { "!", "^" } -> q \in { "%VAR", "%IRIREF", "%STRING", "%PNAME", "%PNS", "a", "!" } \cup Keywords
    [] p \in { "+", "-" } -> q \in { "%VAR", "%IRIREF", "%PNAME", "%PNS" }
    [] q \in { "=", "!=", ">=", ">", "<", "<=", "&&", "||", "/" } -> p \in Operands \cup { "a" } \cup Numbers
    [] q = "*" -> p \in Operands \cup { "a" } \cup Numbers \cup Keywords
    [] q = "|" -> p \in Operands \cup { "a" }
    [] q = "?" -> p \in { "%PNAME", "%PNS", "%IRIREF", "a" }
    [] q = "+" -> p \in { "%VAR", "%STRING", "%INT", "%NUM", "%PNAME", "%PNS", "%IRIREF", "a" }
    [] q = "-" -> p \in { "%VAR", "%STRING", "%INT", "%NUM" }
    [] q \in { "^", "!" } -> p \in { "%VAR", "%IRIREF" }
    [] q = "%SNUM" -> p = "%VAR"
    [] p \in Keywords -> q \in { "%VAR", "%IRIREF", "%STRING" }
    [] p = "%IRIREF" -> q \in { "%VAR", "%IRIREF", "%STRING", "%PNAME" } \cup Keywords
    [] p = "%VAR" -> q \in { "%IRIREF", "%STRING" }
    [] p = "%PNAME" -> q \in { "%IRIREF", "%STRING" }
    [] OTHER -> FALSE
Glue(toks) == [ i \in 1..(Len(toks) - 1) |-> IF GlueOK(toks[i].k, toks[i+1].k) THEN 1 ELSE 0 ]
Text(tk) == (IF tk.k \in Keywords THEN "K" ELSE "T") \o tk.t
Texts(toks) == [ i \in 1..Len(toks) |-> Text(toks[i]) ]
=============================================================================
