-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Lists of many thousand elements.  A cycle of the grammar that adds      *)
(* tokens on its left side only is a list: n more rounds of it add n times *)
(* the same to the text, and to the tree before and behind its end.  A     *)
(* record gives one period of the list (Period rounds, each with its own   *)
(* names); whoever reads it repeats the period.  The request with a    *)
(* single period is checked against the accepting machine here.            *)
(***************************************************************************)
EXTENDS Pump

Period == 7
Flat(o) == LET c == Cycles[o] IN
  /\ \A i \in 1..Len(c.v) : IsMark[c.v[i]]
  /\ \E i \in 1..Len(c.u) : ~IsMark[c.u[i]]
Times(x) == FlattenSeq([ i \in 1..Period |-> x ])
(* the tree of a piece of a terminal string of salt z that follows n terminals *)
TreePart(y, n, z) ==
  FoldLeft(LAMBDA a, s : IF IsMark[s] THEN [ a EXCEPT !.o = Append(@, MarkOut[s]) ]
                         ELSE [ n |-> a.n + 1, o |-> a.o \o Enter(s, LexAtZ(s, a.n + 1, z)) ],
           [ n |-> n, o |-> << >> ], y).o
HInit == Init /\ Flat(occ) /\ mate = 0
HSpec == HInit /\ [][FALSE]_pvars
EmitU ==
  LET e == EntryOf(Jobs[job][1], occ[1])
      u == Times(Cycles[occ].u)
      m == DefYield[occ[1]]
      v == Times(Cycles[occ].v)
      y == e.u \o u \o m \o v \o e.v
      z == Salt(y)  T == Tokens(y)  r == Accept(Start, T)
      n1 == Len(TermSeq(e.u))  n2 == n1 + Len(TermSeq(u))  n3 == n2 + Len(TermSeq(m))
      A == << TreePart(e.u, 0, z), TreePart(u, n1, z), TreePart(m, n2, z), TreePart(v, n3, z), TreePart(e.v, n3, z) >>
  IN /\ r.n = Len(T) /\ r.ast = FlattenSeq(A)
     /\ PrintT(ToJson([ p |-> "huge:" \o Jobs[job][1], e |-> Profile[Jobs[job][1]].entry, k |-> "ok",
                        rep |-> << Texts(SubSeq(T, 1, n1)), Texts(SubSeq(T, n1 + 1, n2)), Texts(SubSeq(T, n2 + 1, Len(T))) >>, reptree |-> A ]))
=============================================================================
