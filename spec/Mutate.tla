------------------------------- MODULE Mutate -------------------------------
(***************************************************************************)
(* Token sequences around the well-formed ones: a generated request is     *)
(* damaged at one place (a token deleted, doubled, exchanged with its      *)
(* successor, replaced, inserted, or everything from it on cut off), and   *)
(* the accepting machine says what must become of it.                      *)
(***************************************************************************)
EXTENDS Gen, Damage

CONSTANTS Kinds,    \* token kinds for insertion and replacement
          Ops,      \* the operations to use
          Stride,   \* every Stride-th of the insertions and replacements (1 = all)
          Damages   \* number of successive damages
VARIABLES toks, dmg
mvars == << job, done, todo, left, toks, dmg >>

MInit == Init /\ toks = << >> /\ dmg = 0
MNext == \/ dmg = 0 /\ Next /\ UNCHANGED << toks, dmg >>
         \/ /\ dmg = 0
            /\ dmg' = 1 /\ toks' \in Damaged(Tokens(Yield), Ops, Kinds, Stride, 0) /\ UNCHANGED gvars
         \/ /\ dmg > 0 /\ dmg < Damages
            /\ dmg' = dmg + 1 /\ toks' \in Damaged(toks, Ops, Kinds, Stride, dmg) /\ UNCHANGED gvars
MSpec == MInit /\ [][MNext]_mvars

EmitM == dmg = 0 \/ ~Specified(toks) \/
         LET r == Accept(Start, toks)
         IN PrintT(ToJson([ p |-> "damaged:" \o job, e |-> Profile[job].entry, t |-> Texts(toks), k |-> IF r.n < 0 THEN "err" ELSE "ok", a |-> r.ast, n |-> r.n,
                            g |-> IF r.n = Len(toks) THEN Glue(toks) ELSE << >> ]))
=============================================================================
