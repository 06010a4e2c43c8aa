-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The generating machine.  A state is a leftmost sentential form: done    *)
(* (terminals and marks already fixed) and todo.  Completing todo with the *)
(* default alternatives gives the state's request.  A transition lets the  *)
(* request depart from the defaults at one more point, to the right of all *)
(* earlier departures, so every derivation with at most `left` departures  *)
(* inside the profile's focus is a state, exactly once.                    *)
(***************************************************************************)
EXTENDS Sentence, Profiles, Json

CONSTANT Jobs      \* sequence of << profile name, number of departures >>
VARIABLES job, done, todo, left
gvars == << job, done, todo, left >>

RECURSIVE Walk(_, _, _)
Walk(d, t, F) ==
  IF t = << >> THEN {}
  ELSE LET s == Head(t) IN
       IF s \in NTs
       THEN (IF s \in F THEN { [ d |-> d, t |-> G[s][k] \o Tail(t) ] : k \in 2..Len(G[s]) } ELSE {})
            \cup Walk(d, G[s][1] \o Tail(t), F)
       ELSE Walk(Append(d, s), Tail(t), F)

Init == \E j \in 1..Len(Jobs) :
          /\ job = Jobs[j][1] /\ left = Jobs[j][2]
          /\ done = << >> /\ todo = Profile[Jobs[j][1]].start
Next == /\ left > 0
        /\ \E w \in Walk(done, todo, Profile[job].focus) : done' = w.d /\ todo' = w.t
        /\ left' = left - 1 /\ job' = job
Spec == Init /\ [][Next]_gvars

Yield == done \o FlattenSeq([ i \in 1..Len(todo) |-> DefYield[todo[i]] ])
Start == StartOf[Profile[job].entry]

(* properties of the model: the accepting machine reads every generated request completely, to the generated tree *)
RoundTrip == LET y == Yield  T == Tokens(y)  r == Accept(Start, T)
             IN r.n = Len(T) /\ r.ast = TreeOf(y)
Balanced == FoldLeft(LAMBDA a, x : IF x = ")" THEN a - 1 ELSE IF Len(x) > 1 /\ SubSeq(x, 1, 1) = "(" /\ x # "()" THEN a + 1 ELSE a, 0, TreeOf(Yield)) = 0

Out == LET y == Yield  T == Tokens(y)
       IN PrintT(ToJson([ p |-> job, e |-> Profile[job].entry, t |-> Texts(T), g |-> Glue(T), a |-> TreeOf(y), n |-> Len(T) ]))
=============================================================================
