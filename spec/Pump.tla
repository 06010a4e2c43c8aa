-------------------------------- MODULE Pump --------------------------------
(***************************************************************************)
(* Unbounded length and nesting: every way in which a non-terminal can     *)
(* contain itself is found in the grammar (one per occurrence of a symbol  *)
(* on a cycle), and repeated, alone or in turn with another one (a mate).  *)
(* A state is (profile, occurrence, mate, number of repetitions).          *)
(***************************************************************************)
EXTENDS Sentence, Profiles, Json

CONSTANTS Jobs,    \* sequence of << profile, set of non-terminals whose cycles are pumped >>
          Counts,  \* set of numbers of repetitions
          Mates,   \* with how many other cycles of the same non-terminal each one takes turns
          MateMax  \* greatest number of repetitions then
VARIABLES job, occ, mate, cnt
pvars == << job, occ, mate, cnt >>

Inf == 1000
OccFrom == TLCEval([ n \in NTs |-> { o \in Occ : o[1] = n } ])
SymAt(o) == G[o[1]][o[2]][o[3]]
SymsFrom == TLCEval([ n \in NTs |-> { SymAt(o) : o \in OccFrom[n] } ])
(* DistTo[m][n] = least number of expansions that take n to a form containing m *)
RECURSIVE DistFix(_)
DistFix(D) ==
  LET E == TLCEval([ n \in NTs |-> LET S == { D[m] : m \in SymsFrom[n] }
                                   IN IF D[n] = 0 THEN 0 ELSE IF S = {} THEN Inf
                                      ELSE LET b == CHOOSE x \in S : \A y \in S : x <= y IN IF b + 1 < D[n] THEN b + 1 ELSE D[n] ])
  IN IF E = D THEN D ELSE DistFix(E)
DistTo == TLCEval([ m \in NTs |-> DistFix([ n \in NTs |-> IF n = m THEN 0 ELSE Inf ]) ])

(* the occurrences on a shortest way from n to m *)
RECURSIVE PathTo(_, _)
PathTo(n, m) == IF n = m THEN << >>
                ELSE LET o == CHOOSE q \in OccFrom[n] : DistTo[m][SymAt(q)] = DistTo[m][n] - 1 IN << o >> \o PathTo(SymAt(o), m)
Before(o) == SubSeq(G[o[1]][o[2]], 1, o[3] - 1)
DefAll(f) == FlattenSeq([ i \in 1..Len(f) |-> DefYield[f[i]] ])
Ctx(path) == FoldLeft(LAMBDA a, o : [ u |-> a.u \o DefAll(Before(o)), v |-> DefAll(Rest(o)) \o a.v ], [ u |-> << >>, v |-> << >> ], path)
(* the cycles: o leads from its non-terminal to a symbol from which that non-terminal is reached again *)
OnCycle == TLCEval({ o \in Occ : DistTo[o[1]][SymAt(o)] < Inf })
CycleOf(o) == << o >> \o PathTo(SymAt(o), o[1])
Cycles == TLCEval([ o \in OnCycle |-> Ctx(CycleOf(o)) ])
CycleSeq == TLCEval([ n \in NTs |-> SetToSeq({ o \in OnCycle : o[1] = n }) ])
(* the other cycle that takes turns with o *)
MateOf(o, m) == LET S == CycleSeq[o[1]]  i == CHOOSE j \in 1..Len(S) : S[j] = o
                IN IF m = 0 THEN o ELSE S[1 + (((i + (m * m * 5)) + (Shift * (1 + m))) % Len(S))]

(* from the profile's start to the cycle's non-terminal *)
Entries(p, n) == { i \in 1..Len(Profile[p].start) : Profile[p].start[i] \in NTs /\ DistTo[n][Profile[p].start[i]] < Inf }
EntryOf(p, n) == LET S == Profile[p].start  i == CHOOSE j \in Entries(p, n) : TRUE  c == Ctx(PathTo(S[i], n))
                 IN [ u |-> DefAll(SubSeq(S, 1, i - 1)) \o c.u, v |-> c.v \o DefAll(SubSeq(S, i + 1, Len(S))) ]

Yield == LET n == occ[1]  e == EntryOf(Jobs[job][1], n)  c == Cycles[occ]  d == Cycles[MateOf(occ, mate)]
         IN e.u \o FlattenSeq([ i \in 1..cnt |-> IF i % 2 = 1 THEN c.u ELSE d.u ]) \o DefYield[n]
            \o FlattenSeq([ i \in 1..cnt |-> IF (cnt + 1 - i) % 2 = 1 THEN c.v ELSE d.v ]) \o e.v

Init == /\ job \in 1..Len(Jobs)
        /\ occ \in { o \in OnCycle : o[1] \in Jobs[job][2] /\ Entries(Jobs[job][1], o[1]) # {} }
        /\ mate \in { m \in 0..Mates : m = 0 \/ MateOf(occ, m) # occ }
        /\ cnt = 0
Next == /\ \E c \in Counts : c > cnt /\ (\A d \in Counts : d > cnt => c <= d) /\ (mate = 0 \/ c <= MateMax) /\ cnt' = c
        /\ UNCHANGED << job, occ, mate >>
Spec == Init /\ [][Next]_pvars

Start == StartOf[Profile[Jobs[job][1]].entry]
Emit == LET y == Yield  T == Tokens(y)  A == TreeOf(y)  r == Accept(Start, T)
        IN /\ r.n = Len(T) /\ r.ast = A
           /\ PrintT(ToJson([ p |-> "pump:" \o Jobs[job][1], e |-> Profile[Jobs[job][1]].entry, t |-> Texts(T), g |-> Glue(T), a |-> A, n |-> Len(T) ]))
=============================================================================
