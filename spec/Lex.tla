--------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* Candidates for tokens, piece by piece: a state is the text so far and   *)
(* the state of every automaton; every text of at most so many pieces      *)
(* (characters, or longer texts such as numbers at the limits of their     *)
(* range), and every given frame with every code point put in its hole.    *)
(***************************************************************************)
EXTENDS Lexical, Json

CONSTANTS Jobs,    \* << first text, pieces (each a sequence of code points), greatest number of pieces, contexts >>
          Frames,  \* << before, after, contexts >>
          Points   \* set of code points
VARIABLES job, text, cnt, Q
lexvars == << job, text, cnt, Q >>

Init == \/ /\ job \in 1..Len(Jobs) /\ text = Jobs[job][1] /\ cnt = 0 /\ Q = RunAll(text)
        \/ /\ \E f \in 1..Len(Frames) : job = 100 + f
           /\ text = << >> /\ cnt = 0 /\ Q = Q0
Next == \/ /\ job < 100 /\ cnt < Jobs[job][3]
           /\ \E w \in Range(Jobs[job][2]) : text' = text \o w /\ Q' = [ m \in Machines |-> FoldLeft(LAMBDA q, c : Step(m, q, c), Q[m], w) ]
           /\ job' = job /\ cnt' = cnt + 1
        \/ /\ job > 100 /\ text = << >>
           /\ \E c \in Points : text' = Frames[job - 100][1] \o << c >> \o Frames[job - 100][2]
           /\ Q' = RunAll(text') /\ job' = job /\ cnt' = cnt
Spec == Init /\ [][Next]_lexvars

Contexts == IF job < 100 THEN Jobs[job][4] ELSE Frames[job - 100][3]
Exclusive == OneClass(Q)
Incremental == Q = RunAll(text)
EmitLex == (job > 100 /\ text = << >>) \/
           \A x \in Contexts : LET v == Verdict(x, text, Q) IN v.k = "skip" \/ PrintT(ToJson(v))
=============================================================================
