-------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The parsers of single query forms.  A generated query, or its rest from *)
(* the keyword of its form on or from behind it, whole or with one damage, *)
(* is offered to each of the parsers; the accepting machine, started at    *)
(* the non-terminal of that parser, says what it must answer.              *)
(***************************************************************************)
EXTENDS Gen, Damage

CONSTANTS Offered,   \* the entries
          DOps, DKinds, DStride    \* the damages (Damage)
VARIABLES toks, dmg
fvars == << job, done, todo, left, toks, dmg >>

FormWords == { "ASK", "SELECT", "CONSTRUCT", "DESCRIBE" }
(* where the query proper begins (a prologue and VALUES hold no such keyword) *)
Main(T) == LET S == { i \in 1..Len(T) : T[i].k \in FormWords } IN CHOOSE i \in S : \A j \in S : i <= j
Bases(T) == LET m == Main(T) IN { T, From(T, m), From(T, m + 1) }

FInit == Init /\ toks = << >> /\ dmg = 0
FNext == \/ dmg = 0 /\ Next /\ UNCHANGED << toks, dmg >>
         \/ /\ dmg = 0 /\ dmg' = 1 /\ UNCHANGED gvars
            /\ \E b \in Bases(Tokens(Yield)) : toks' \in { b } \cup Damaged(b, DOps, DKinds, DStride, 0)
FSpec == FInit /\ [][FNext]_fvars

Told(e, T) == LET r == Accept(StartOf[e], T)
              IN PrintT(ToJson([ p |-> "form:" \o job, e |-> e, t |-> Texts(T), k |-> IF r.n < 0 THEN "err" ELSE "ok", a |-> r.ast, n |-> r.n, g |-> IF r.n = Len(T) THEN Glue(T) ELSE << >> ]))
EmitF == dmg = 0 \/ toks = << >> \/ ~Specified(toks) \/ \A e \in Offered : Told(e, toks)

(* a query form is one query form; the parser of all of them accepts what one of them accepts *)
Union == dmg = 0 \/ LET n(e) == Accept(StartOf[e], toks).n IN
           /\ n("S") >= 0 => Cardinality({ e \in { "A", "C", "D" } : n(e) >= 0 }) <= 1
           /\ \A e \in { "A", "C", "D" } : n(e) >= 0 => n("S") = n(e)
=============================================================================
