-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* Large derivations: a pseudo-random walk through the grammar.  State num  *)
(* of a chain is the num-th derivation of a job; the draws come from a       *)
(* Wichmann-Hill generator, so a run is determined by Seed.                *)
(***************************************************************************)
EXTENDS Sentence, Profiles, Json

CONSTANTS Jobs,    \* sequence of << profile, departures allowed, chance in percent, number of derivations >>
          Seed
VARIABLES job, num
rvars == << job, num >>

R0(s, j, i) == [ x |-> 1 + ((s * 31 + i * 97 + j * 1013) % 30268), y |-> 1 + ((s * 57 + i * 11 + j * 211) % 30306), z |-> 1 + ((s * 7 + i * 389 + j * 17) % 30322) ]
Rn(r) == [ x |-> (171 * r.x) % 30269, y |-> (172 * r.y) % 30307, z |-> (170 * r.z) % 30323 ]
Val(r, n) == (r.x + r.y + r.z) % n

RECURSIVE Walk(_, _, _, _, _, _)
Walk(out, t, r, fuel, ch, F) ==
  IF t = << >> THEN out
  ELSE LET s == Head(t) IN
       IF s \notin NTs THEN Walk(Append(out, s), Tail(t), r, fuel, ch, F)
       ELSE IF Len(G[s]) = 1 THEN Walk(out, G[s][1] \o Tail(t), r, fuel, ch, F)
       ELSE LET r1 == Rn(r)  r2 == Rn(r1) IN
            IF fuel > 0 /\ s \in F /\ Val(r1, 100) < ch
            THEN Walk(out, G[s][2 + Val(r2, Len(G[s]) - 1)] \o Tail(t), r2, fuel - 1, ch, F)
            ELSE Walk(out, G[s][1] \o Tail(t), r2, fuel, ch, F)

Prof == Profile[Jobs[job][1]]
Start0 == R0(Seed, job, num)
Warm == Rn(Rn(Rn(Start0)))
Yield == Walk(<< >>, Prof.start, Warm, Jobs[job][2], Jobs[job][3] - (num % 4) * (Jobs[job][3] \div 6), Prof.focus)
Start == StartOf[Prof.entry]

Chains == 16
Init == job \in 1..Len(Jobs) /\ num \in 1..Chains
Next == num + Chains <= Jobs[job][4] /\ num' = num + Chains /\ job' = job
Spec == Init /\ [][Next]_rvars

Emit == LET y == Yield  T == Tokens(y)  A == TreeOf(y)  r == Accept(Start, T)
        IN /\ r.n = Len(T) /\ r.ast = A
           /\ PrintT(ToJson([ p |-> Jobs[job][1], e |-> Prof.entry, t |-> Texts(T), g |-> Glue(T), a |-> A, n |-> Len(T) ]))
=============================================================================
