------------------------------- MODULE Writing ------------------------------
(***************************************************************************)
(* The written form of a token sequence under a layout: a separator for    *)
(* every gap and a letter case for every keyword.                          *)
(***************************************************************************)
EXTENDS Sentence

Seps == << " ", "\n", "\t", "\r", "\r\n", "  \t \n ", "#c\n", " # ?x } ) . ; \" > \r", "\n#\n#\n\n", "" , " #(((\r\n#'''\n ", " #`E9``1F600``2028` #\n", "\n#" \o Long \o Long \o "\r  \r\n">>
Tight == 10
NSep == Len(Seps)

Cased(w, f(_)) == Join([ i \in 1..Len(w) |-> IF f(i) THEN SubSeq(w, i, i) ELSE Low(SubSeq(w, i, i)) ])
Variants == TLCEval([ w \in Keywords |-> << w, Cased(w, LAMBDA i : FALSE), Cased(w, LAMBDA i : i = 1), Cased(w, LAMBDA i : i % 2 = 0), Cased(w, LAMBDA i : i = Len(w)) >> ])
NCase == 5

(* the separator really written in gap i when the layout says s: nothing only where the tokens stay apart *)
Sep(T, i, s) == IF s # Tight THEN Seps[s]
                ELSE IF i = 0 \/ i = Len(T) \/ GlueOK(T[i].k, T[i + 1].k) THEN "" ELSE " "
Word(t, c) == IF t.k \in Keywords THEN Variants[t.k][c] ELSE t.t
(* l.gap, l.case: the uniform choices; l.gaps, l.cases: the departures, as sets of << index, choice >> *)
PickOf(S, i, d) == IF \E p \in S : p[1] = i THEN (CHOOSE p \in S : p[1] = i)[2] ELSE d
Written(T, l) == << Sep(T, 0, PickOf(l.gaps, 0, IF l.gap = 1 THEN Tight ELSE l.gap)) >>
                 \o FlattenSeq([ i \in 1..Len(T) |-> << Word(T[i], PickOf(l.cases, i, l.case)),
                                  Sep(T, i, PickOf(l.gaps, i, IF i = Len(T) /\ l.gap = 1 THEN Tight ELSE l.gap)) >> ])
(* the parsers of parts of a request do not skip layout in front of it *)
Fixed(l, e) == IF e \in { "Q", "U" } THEN l ELSE [ l EXCEPT !.gaps = { p \in @ : p[1] # 0 } \cup {<< 0, Tight >>} ]
=============================================================================
