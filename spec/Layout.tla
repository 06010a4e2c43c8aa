------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How a token sequence may be written.  A layout fixes, for every gap     *)
(* between tokens (and before the first and after the last), a separator,  *)
(* and for every keyword the case of its letters.  The machine starts from *)
(* a uniform layout of a generated request and departs from it at single   *)
(* gaps or keywords; the tree must stay that of the request.               *)
(***************************************************************************)
EXTENDS Gen, Writing

CONSTANTS Uniform,   \* set of indices into Seps used at every gap (10 = as tight as allowed)
          Single,    \* set of indices into Seps used at a single gap
          Changes    \* number of departures from the uniform layout
VARIABLES lay
lvars == << job, done, todo, left, lay >>

None == [ gap |-> 0, case |-> 0, gaps |-> {}, cases |-> {}, left |-> 0 ]
LInit == Init /\ lay = None
Toks0 == Tokens(Yield)
LNext == \/ lay = None /\ Next /\ lay' = lay
         \/ /\ lay = None /\ UNCHANGED gvars
            /\ \E g \in Uniform : \E c \in { 1, 2, 4 } : (g \in { 1, Tight } \/ c = 1) /\
                 lay' = [ gap |-> g, case |-> c, gaps |-> {}, cases |-> {}, left |-> IF g \in { 1, Tight } /\ c = 1 THEN Changes ELSE 0 ]
         \/ /\ lay.left > 0 /\ UNCHANGED gvars
            /\ \/ \E i \in 0..Len(Toks0) : \E s \in Single : s # lay.gap /\ (\A p \in lay.gaps : p[1] < i) /\ lay' = [ lay EXCEPT !.gaps = @ \cup {<< i, s >>}, !.left = @ - 1 ]
               \/ \E i \in 1..Len(Toks0) : \E c \in 2..NCase : Toks0[i].k \in Keywords /\ (\A p \in lay.cases : p[1] < i) /\ lay' = [ lay EXCEPT !.cases = @ \cup {<< i, c >>}, !.left = @ - 1 ]
LSpec == LInit /\ [][LNext]_lvars

EmitL == lay = None \/ PrintT(ToJson([ p |-> "layout:" \o job, e |-> Profile[job].entry, k |-> "ok", x |-> Written(Toks0, Fixed(lay, Profile[job].entry)), a |-> TreeOf(Yield) ]))
=============================================================================
