-------------------------------- MODULE RandX -------------------------------
(***************************************************************************)
(* Large pseudo-random requests, written in random layouts, or damaged at  *)
(* a few random places.                                                    *)
(***************************************************************************)
EXTENDS Rand, Writing, Damage

CONSTANT Style     \* "layout" or "damage"

RECURSIVE Draws(_, _, _)
(* n numbers below m *)
Draws(r, n, m) == IF n = 0 THEN << >> ELSE LET q == Rn(r) IN << Val(q, m) >> \o Draws(q, n - 1, m)
R1 == Rn(Rn([ Start0 EXCEPT !.y = (@ * 3 + 1) % 30307 ]))

RandomLayout(T) ==
  LET d == Draws(R1, 2 * Len(T) + 2, 5 * NSep)
      m == 1 + (num % 4)     \* a quarter of the requests in nearly tight layout, the others mixed
      s(i) == IF m = 1 /\ d[i + 1] >= 7 THEN Tight ELSE (d[i + 1] % NSep) + 1
  IN [ gap |-> 2, case |-> 1, gaps |-> { << i, s(i) >> : i \in 0..Len(T) }, cases |-> { << i, (d[Len(T) + 1 + i] % NCase) + 1 >> : i \in 1..Len(T) }, left |-> 0 ]

KindSeq == SetToSeq(Toks)
OneDamage(T, a, b, c) ==
  LET n == Len(T)  i == 1 + (b % n)  t == TokenFor(KindSeq[1 + (c % Len(KindSeq))], c) IN
  CASE n = 0 -> << t >>
    [] a = 0 -> Cut(T, i) \o From(T, i + 1)
    [] a = 1 -> Cut(T, i + 1) \o From(T, i)
    [] a = 2 /\ i < n -> Cut(T, i) \o << T[i + 1], T[i] >> \o From(T, i + 2)
    [] a = 3 -> Cut(T, i) \o << t >> \o From(T, i)
    [] a = 4 -> Cut(T, i) \o << t >> \o From(T, i + 1)
    [] a = 5 -> LET j == 1 + (c % n) IN Cut(T, i) \o << T[j] >> \o From(T, i + 1)       \* a token of the request itself
    [] a = 6 -> LET j == 1 + (c % n) IN Cut(T, i) \o << T[j] >> \o From(T, i)
    [] a = 7 -> Cut(T, i) \o << Bad(c) >> \o From(T, i)
    [] a = 8 /\ i < n -> LET J == { j \in 1..(n - 1) : Joined(T[j], T[j + 1]) # << >> }
                            S == SetToSortSeq(J, LAMBDA x, z : x < z)
                            j == IF J = {} THEN 0 ELSE S[1 + (b % Len(S))] IN
                        IF j = 0 THEN Cut(T, i) \o << Bad(c) >> \o From(T, i + 1) ELSE Cut(T, j) \o Joined(T[j], T[j + 1]) \o From(T, j + 2)
    [] a \in { 10, 11 } -> Cut(T, i) \o Spoken(1 + (c % Len(Phrases)), c) \o From(T, i)
    [] a = 12 -> Cut(T, i) \o From(T, i + 2 + (c % 7))
    [] OTHER -> Cut(T, i)
RandomDamage(T) == LET d == Draws(R1, 10, 9973)
                       T1 == OneDamage(T, d[1] % 13, d[2], d[3])
                       T2 == IF d[10] % 3 = 0 THEN OneDamage(T1, (d[4] % 12) + (IF d[4] % 12 >= 9 THEN 1 ELSE 0), d[5], d[6]) ELSE T1
                   IN IF d[10] % 9 = 0 THEN OneDamage(T2, (d[7] % 12) + (IF d[7] % 12 >= 9 THEN 1 ELSE 0), d[8], d[9]) ELSE T2

EmitX ==
  LET y == Yield  T == Tokens(y) IN
  IF Style = "layout"
  THEN PrintT(ToJson([ p |-> "written:" \o Jobs[job][1], e |-> Prof.entry, k |-> "ok", x |-> Written(T, Fixed(RandomLayout(T), Prof.entry)), a |-> TreeOf(y) ]))
  ELSE LET D == RandomDamage(T)  r == Accept(Start, D)
       IN ~Specified(D) \/ PrintT(ToJson([ p |-> "damaged:" \o Jobs[job][1], e |-> Prof.entry, t |-> Texts(D), k |-> IF r.n < 0 THEN "err" ELSE "ok", a |-> r.ast, n |-> r.n,
                                          g |-> IF r.n = Len(D) THEN Glue(D) ELSE << >> ]))
=============================================================================
