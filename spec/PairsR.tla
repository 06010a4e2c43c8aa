------------------------------- MODULE PairsR -------------------------------
(***************************************************************************)
(* Equality of the results of large pseudo-random requests that differ in  *)
(* one token or in layout only.                                            *)
(***************************************************************************)
EXTENDS RandX

Spread(T) == FlattenSeq([ i \in 1..Len(T) |-> << T[i].t, " " >> ])
(* another lexeme of the same class at one place *)
Exchange(T, b, c) ==
  LET J == { i \in 1..Len(T) : T[i].k \in DOMAIN LexTable /\ T[i].l \notin Big }
      S == SetToSortSeq(J, LAMBDA x, z : x < z)
      i == S[1 + (b % Len(S))]  q == LexTable[T[i].k]  lx == q[1 + (c % Len(q))] IN
  IF J = {} THEN T ELSE [ T EXCEPT ![i].t = lx.t, ![i].l = lx.l, ![i].s = lx.s ]
Tell(T, A, U, x) ==
  LET r == Accept(Start, U) IN
  \/ U = << >> \/ ~Specified(U) \/ r.n # Len(U) \/ OnlyZeros(r.ast, A)
  \/ PrintT(ToJson([ p |-> "pair:" \o Jobs[job][1], e |-> IF Prof.entry = "U" THEN "V" ELSE "E", k |-> "ok", x |-> Spread(T), r |-> x, a |-> << IF r.ast = A THEN "same" ELSE "other" >> ]))
EmitR ==
  LET y == Yield  T == Tokens(y)  A == TreeOf(y)  d == Draws(R1, 12, 9973) IN
  /\ Tell(T, A, T, Written(T, RandomLayout(T)))
  /\ \A j \in 0..2 : LET U == Exchange(T, d[1 + (2 * j)], d[2 + (2 * j)]) IN Tell(T, A, U, Spread(U))
  /\ \A j \in 0..2 : LET U == OneDamage(T, d[7 + j] % 9, d[8 + j], d[9 + j]) IN Tell(T, A, U, Spread(U))
=============================================================================
