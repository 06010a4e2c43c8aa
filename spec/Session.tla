------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* What a client may observe of the parsers over a history of calls, and   *)
(* the validation of recorded histories against it.                        *)
(*                                                                         *)
(* The abstract parser is a function from texts to answers, unknown to the *)
(* client except for what its calls have revealed (`said`).  Call is       *)
(* enabled for an answer that the function may give:                       *)
(*  - it is one of: refused, at a place of the text; accepted, with a      *)
(*    remainder and a tree;                                                *)
(*  - a remainder is a suffix of the text, and a part of it in memory;     *)
(*  - a text asked before gets the answer given before, whatever was asked *)
(*    in between and from whichever thread;                                *)
(*  - the consumed part of an accepted text is itself accepted, with the   *)
(*    same tree and nothing left.                                          *)
(* A history that stops (a crash, no return) is not one of this machine.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT File
Log == TLCEval(ndJsonDeserialize(File))
VARIABLES ses, pos, said, bad
svars == << ses, pos, said, bad >>

Suffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Answer(e) == IF e.kind = "ok" THEN << "ok", e.rest, e.tree >> ELSE << e.kind, e.at >>
TextOf(e, L) == IF e.op = "prefix"
                THEN LET a == said[<< e.e, e.id >>] IN SubSeq(L.texts[e.id], 1, Len(L.texts[e.id]) - Len(a[2]))
                ELSE L.texts[e.id]
Key(e) == << e.e, e.id >>
Known(e) == Key(e) \in DOMAIN said

Why(e, L) ==
  IF e.kind \notin { "ok", "err" } THEN "does not return an answer: " \o e.kind
  ELSE IF e.kind = "ok" /\ (~Suffix(e.rest, TextOf(e, L)) \/ e.at < 0) THEN "the remainder is not a suffix of the text"
  ELSE IF e.kind = "err" /\ (e.at < 0) THEN "the place of the refusal is not in the text"
  ELSE IF e.op = "parse" /\ Known(e) /\ said[Key(e)] # Answer(e) THEN "the same text gets another answer"
  ELSE IF e.op = "prefix" /\ Answer(e) # << "ok", "", said[Key(e)][3] >> THEN "the consumed part alone gets another answer"
  ELSE ""

Init == /\ ses \in 1..Len(Log) /\ pos = 1 /\ said = << >> /\ bad = << >>
Call == /\ bad = << >> /\ pos <= Len(Log[ses].events)
        /\ LET e == Log[ses].events[pos] IN
             /\ Why(e, Log[ses]) = ""
             /\ said' = IF e.op = "prefix" \/ Known(e) THEN said ELSE [ q \in DOMAIN said \cup { Key(e) } |-> IF q = Key(e) THEN Answer(e) ELSE said[q] ]
        /\ pos' = pos + 1 /\ UNCHANGED << ses, bad >>
Stuck == /\ bad = << >> /\ pos <= Len(Log[ses].events)
         /\ LET e == Log[ses].events[pos] IN Why(e, Log[ses]) # "" /\ bad' = << e.e, e.id, Why(e, Log[ses]), pos >>
         /\ UNCHANGED << ses, pos, said >>
Next == Call \/ Stuck
Spec == Init /\ [][Next]_svars

Whole == /\ bad = << >> \/ PrintT(ToJson([ bad |-> bad, ses |-> ses ]))
         /\ pos # Len(Log[ses].events) + 1 \/ PrintT(ToJson([ full |-> ses ]))
=============================================================================
