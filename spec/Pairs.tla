-------------------------------- MODULE Pairs -------------------------------
(***************************************************************************)
(* Equality of results: a request and another one a token away from it are *)
(* equal results exactly when the specification gives them the same tree.  *)
(***************************************************************************)
EXTENDS Gen, Damage

CONSTANTS Kinds, Ops, Stride    \* the damages (Damage)
VARIABLES toks, dmg
qvars == << job, done, todo, left, toks, dmg >>

QInit == Init /\ toks = << >> /\ dmg = 0
QNext == \/ dmg = 0 /\ Next /\ UNCHANGED << toks, dmg >>
         \/ /\ dmg = 0 /\ dmg' = 1 /\ UNCHANGED gvars
            /\ LET T == Tokens(Yield) IN toks' \in { T } \cup Damaged(T, Ops, Kinds, Stride, 0)
QSpec == QInit /\ [][QNext]_qvars

Spread(T) == FlattenSeq([ i \in 1..Len(T) |-> << T[i].t, " " >> ])
EmitQ == dmg = 0 \/ ~Specified(toks) \/
         LET y == Yield  T == Tokens(y)  r == Accept(Start, toks) IN
         \/ r.n # Len(toks) \/ toks = << >> \/ OnlyZeros(r.ast, TreeOf(y))
         \/ PrintT(ToJson([ p |-> "pair:" \o job, e |-> IF Profile[job].entry = "U" THEN "V" ELSE "E", k |-> "ok", x |-> Spread(T), r |-> Spread(toks),
                            a |-> << IF r.ast = TreeOf(y) THEN "same" ELSE "other" >> ]))
(* all of them, to be compared with one another *)
EmitN == dmg = 0 \/ ~Specified(toks) \/ toks = << >> \/
         LET r == Accept(Start, toks) IN
         \/ r.n # Len(toks)
         \/ PrintT(ToJson([ p |-> "near:" \o job, e |-> Profile[job].entry, t |-> Texts(toks), k |-> "ok", a |-> r.ast, n |-> r.n, g |-> << >> ]))
=============================================================================
