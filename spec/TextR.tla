-------------------------------- MODULE TextR -------------------------------
(***************************************************************************)
(* Large pseudo-random requests edited at a few random characters, and     *)
(* texts of random fragments.                                              *)
(***************************************************************************)
EXTENDS RandX, Edits

Heads == << "", "", "ASK {", "SELECT * {", "SELECT ", "CONSTRUCT {", "DESCRIBE ", "PREFIX ", "ASK { FILTER (", "ASK { ?a ", "INSERT DATA {", "DELETE WHERE {", "LOAD ", "WITH :g ", "CLEAR ", "ASK {} VALUES ", "ASK {} ORDER BY ",
            "SELECT (", "ASK { BIND(", "ASK { VALUES " >>
Fragments == TLCEval(SetToSeq((Keywords \cup { LexAt(q, 1).t : q \in Toks } \cup { LexAt(q, 4).t : q \in Toks })) \o
  << "\"", "'", "\"\"\"", "'''", "\\", "\\u00e9", "<", ">", "<<", ">>", "{{", "}}", "((", "))", "[[", "]]", "{ {", "} }", "( (", ") )", "!", "!!", "^^", "@", "@en", "_:", "?", "$", ":", "a:", "%", "%41", "1e", "1.", ".1", "-",
     "--", "+", "..", "#", "#x\n", "\n", "\t", " ", "  ", ";", ";;", ",", "|", "||", "&", "&&", "\"a", "'b", "<c", "a", "e", "0", "00", "99999999999999999999", "1e999", "1e99999999999999999999", "-1.5E-18446744073709551616", "-9223372036854775808", "1E+", "()", "( )", "[]", "[ ]", "{}", "{ }", "*", "**", "/" >>)
Soup(d) == << Heads[1 + (d[1] % Len(Heads))] >> \o
           FlattenSeq([ x \in 1..(d[2] % 18) |-> << (IF d[2 * x + 2] % 11 = 0 THEN NastyAt(d[2 * x + 1]) ELSE Fragments[1 + (d[2 * x + 1] % Len(Fragments))]), IF d[3] % 3 = 0 \/ d[2 * x + 2] % 5 = 0 THEN "" ELSE " " >> ])

TextOf == LET d == Draws(R1, 44, 9973) IN
          IF Style = "soup" THEN Soup(d)
          ELSE LET y == Yield
                   b == FlattenSeq([ x \in 1..1 |-> Written(Tokens(y), RandomLayout(Tokens(y))) ])
                   s == Chars(Join(b))
                   E1 == IF Len(s) = 0 THEN s ELSE Edit(s, 1 + (d[1] % Len(s)), d[2])
                   E2 == IF Len(E1) = 0 \/ d[3] % 2 = 0 THEN E1 ELSE Edit(E1, 1 + (d[4] % Len(E1)), d[5])
                   E3 == IF Len(E2) = 0 \/ d[6] % 3 # 0 THEN E2 ELSE Edit(E2, 1 + (d[7] % Len(E2)), d[8])
               IN E3
EmitT == PrintT(ToJson([ p |-> Style \o ":" \o Jobs[job][1], e |-> IF Style = "soup" /\ num % 3 = 0 THEN "U" ELSE Prof.entry, k |-> "any", x |-> TextOf ]))
=============================================================================
