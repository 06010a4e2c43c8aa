-------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* Texts as sequences of characters (a one-character string, or a code     *)
(* point), and edits of them that know nothing of tokens.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Chars(s) == [ x \in 1..Len(s) |-> SubSeq(s, x, x) ]
(* characters that start, end or break tokens, and characters outside ASCII at class boundaries and of every UTF-8 length *)
Nasty == << 34, 39, 92, 60, 62, 35, 123, 125, 40, 41, 91, 93, 46, 44, 59, 58, 63, 36, 64, 94, 95, 37, 43, 45, 42, 47, 33, 38, 124, 61, 48, 57, 97, 101, 69, 117, 85,
            0, 1, 9, 10, 13, 32, 127, 128, 160, 173, 183, 215, 233, 304, 383, 768, 894, 8204, 8232, 8255, 8490, 12288, 55295, 57344, 65279, 65533, 65535, 65536, 128512, 983040, 1114111 >>
NastyAt(h) == Nasty[1 + (h % Len(Nasty))]
EditOps == << "drop", "put", "ins", "cut", "dup", "swap", "tail", "hole", "ins" >>
(* the edit h of text s at place p (1..Len(s)) *)
Edit(s, p, h) ==
  LET o == EditOps[1 + (h % Len(EditOps))]  c == NastyAt(h \div Len(EditOps))  n == Len(s) IN
  CASE n = 0 -> << c >>
    [] o = "drop" -> SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, n)
    [] o = "put"  -> SubSeq(s, 1, p - 1) \o << c >> \o SubSeq(s, p + 1, n)
    [] o = "ins"  -> SubSeq(s, 1, p - 1) \o << c >> \o SubSeq(s, p, n)
    [] o = "cut"  -> SubSeq(s, 1, p - 1)
    [] o = "dup"  -> SubSeq(s, 1, p) \o SubSeq(s, p, n)
    [] o = "swap" /\ p < n -> SubSeq(s, 1, p - 1) \o << s[p + 1], s[p] >> \o SubSeq(s, p + 2, n)
    [] o = "tail" -> SubSeq(s, p, n)
    [] o = "hole" -> SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1 + (h % 7), n)
    [] OTHER -> SubSeq(s, 1, p - 1) \o << c, c >> \o SubSeq(s, p, n)
=============================================================================
