-------------------------------- MODULE TextG -------------------------------
(***************************************************************************)
(* Every single-character edit place of small requests.                    *)
(***************************************************************************)
EXTENDS Gen, Edits

CONSTANT Variants   \* edits tried at each place
VARIABLES edit      \* << >>, or << place, variant >>
tvars == << job, done, todo, left, edit >>

RECURSIVE Spread(_)
Spread(ts) == IF ts = << >> THEN "" ELSE Head(ts) \o (IF Len(ts) = 1 THEN "" ELSE " ") \o Spread(Tail(ts))
Base == LET T == Tokens(Yield) IN Spread([ x \in 1..Len(T) |-> T[x].t ])
TInit == Init /\ edit = << >>
TNext == \/ edit = << >> /\ Next /\ edit' = edit
         \/ edit = << >> /\ UNCHANGED gvars /\ edit' \in (1..Len(Base)) \X (1..Variants)
TSpec == TInit /\ [][TNext]_tvars
EmitT == edit = << >> \/
         LET b == Base IN PrintT(ToJson([ p |-> "edit:" \o job, e |-> Profile[job].entry, k |-> "any", x |-> Edit(Chars(b), edit[1], edit[1] * 7 + edit[2] * 131 + Shift * 13 + Len(b)) ]))
=============================================================================
