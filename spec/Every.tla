-------------------------------- MODULE Every -------------------------------
(***************************************************************************)
(* Every code point that a token may hold, at one place of it.  The        *)
(* automaton of the token's class is at that place in state `at`; a state  *)
(* of this machine is a block of code points, and the next block follows.  *)
(* The code points that keep the automaton in `at` make one long token     *)
(* (frames of kind "run"), those that lead to `to` one token each, in a    *)
(* list of objects ("each"); all but line breaks make a comment in front   *)
(* of the token ("note").  Frames of kind "pairs" take two code points     *)
(* below 128, the first of which is the number of the block; "notes" makes *)
(* a comment of each such pair; "gaps" separates the tokens by every       *)
(* sequence of up to four pieces of white space.                           *)
(***************************************************************************)
EXTENDS Lexical, Json

CONSTANTS Frames,  \* << kind, machine, before, at, to, after, class, context >>
          Width,   \* code points in a block
          Skip     \* every so many blocks beyond the first 64 (1 = all)
VARIABLES frame, block
evars == << frame, block >>

Final == 1114111 \div Width
Init == /\ frame \in 1..Len(Frames) /\ block = 0
Next == /\ block < Final
        /\ block' = block + (IF block < 64 \/ Skip = 1 THEN 1 ELSE Skip) /\ UNCHANGED frame
Spec == Init /\ [][Next]_evars

Placed == LET f == Frames[frame] IN Run(f[2], f[3]) = f[4]      \* the frame is right
Dull == { 10, 13 }
Pieces == << << >>, << 32 >>, << 9 >>, << 10 >>, << 13 >>, << 35, 32, 44, 10 >>, << 35, 13 >>, << 35, 35, 39, 10 >> >>   \* nothing, white space, and comments
Two(f) == f[1] \in { "pairs", "notes", "gaps" }
Fits(f, c) == CASE f[1] = "note" -> TRUE
                [] f[1] = "notes" -> block \in (1..127) \ Dull
                [] f[1] = "gaps" -> block < 64 /\ c <= 64
                [] f[1] = "pairs" -> block \in (1..127) \ Dull /\ Class(f[2], Run(f[2], f[3] \o << block, c >> \o f[6])) = f[7]
                [] OTHER -> Step(f[2], f[4], c) = f[5]
Held(f) == TLCEval(SelectSeq([ i \in 1..(IF Two(f) THEN 127 ELSE Width) |-> IF Two(f) THEN i ELSE (block * Width) + i ], LAMBDA c : c < 1114112 /\ (f[1] = "gaps" \/ c \notin Dull) /\ ~(55296 <= c /\ c <= 57343) /\ Fits(f, c)))
EmitE ==
  LET f == Frames[frame]  x == f[8]  held == Held(f)  n == Len(held)  noted == f[1] \in { "note", "notes", "gaps" }
      Item(w) == f[3] \o w \o f[6]
      items == TLCEval(CASE f[1] = "note" -> << << 35 >> \o held \o << 10 >> \o f[3] >>
                         [] f[1] = "notes" -> [ i \in 1..n |-> << 35, block, held[i], IF held[i] % 2 = 0 THEN 10 ELSE 13 >> \o f[3] ]
                         [] f[1] = "gaps" -> [ i \in 1..n |-> LET Pc(d) == Pieces[1 + (d % 8)] IN Pc(block \div 8) \o Pc(block) \o Pc((held[i] - 1) \div 8) \o Pc(held[i] - 1) \o f[3] ]
                         [] f[1] = "run" -> << Item(held) >>
                         [] f[1] = "pairs" -> [ i \in 1..n |-> Item(<< block, held[i] >>) ]
                         [] OTHER -> [ i \in 1..n |-> Item(<< held[i] >>) ])
  IN \/ n = 0
     \/ /\ Assert(noted \/ \A i \in IF f[1] = "run" THEN { 1 } ELSE { 1, n } : Class(f[2], Run(f[2], items[i])) = f[7], << "class", frame, block >>)
        /\ PrintT(ToJson([ p |-> "every:" \o f[7], e |-> Ctx[x].e, k |-> "ok",
                           x |-> << LeftText[x] >> \o FlattenSeq([ i \in 1..Len(items) |-> IF i = 1 THEN items[1] ELSE << " , " >> \o items[i] ]) \o << RightText[x] >>,
                           a |-> LeftTree[x] \o FlattenSeq([ i \in 1..Len(items) |-> LeafOf(f[7], IF noted THEN f[3] ELSE items[i]) ]) \o RightTree[x] ]))
=============================================================================
