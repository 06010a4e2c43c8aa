-------------------------------- MODULE TextP -------------------------------
(***************************************************************************)
(* Deep and long requests, whole, cut off in the middle, or spoilt at one  *)
(* token.                                                                  *)
(***************************************************************************)
EXTENDS Pump

CutAt(T, n) == SubSeq(T, 1, n)
Spoil(T, n, w) == SubSeq(T, 1, n - 1) \o << w >> \o SubSeq(T, n + 1, Len(T))
Forms == << "whole", "half", "three", "last", "spoilt", "lost", "close", "late" >>
FormOf(f, T) ==
  LET n == Len(T)  m == 1 + (n \div 2) IN
  CASE f = "whole" -> T
    [] f = "half" -> CutAt(T, m)
    [] f = "three" -> CutAt(T, (3 * n) \div 4)
    [] f = "last" -> CutAt(T, n - 1)
    [] f = "spoilt" -> Spoil(T, m, "!")
    [] f = "lost" -> SubSeq(T, 1, m - 1) \o SubSeq(T, m + 1, n)
    [] f = "close" -> CutAt(T, m) \o << ")", "}", "]" >>
    [] OTHER -> Spoil(T, n - 1, "\"x")
EmitT == cnt = 0 \/
         LET Tk == Tokens(Yield)  T == [ x \in 1..Len(Tk) |-> Tk[x].t ]
         IN \A f \in Range(Forms) : LET W == FormOf(f, T) IN
              PrintT(ToJson([ p |-> "deep:" \o Jobs[job][1], e |-> Profile[Jobs[job][1]].entry, k |-> "any", x |-> FlattenSeq([ x \in 1..Len(W) |-> << W[x], " " >> ]) ]))
=============================================================================
