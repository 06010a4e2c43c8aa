-------------------------------- MODULE TextL -------------------------------
(***************************************************************************)
(* Small requests in which one word is replaced by an unusual one: of the  *)
(* same class but at its limits (very large, very small, very long, from   *)
(* the far end of Unicode), or almost of that class, or unfinished.        *)
(***************************************************************************)
EXTENDS Gen, Edits

VARIABLES word      \* << >>, or << place, number of the word (0 or less: the keyword with letters that look like others) >>
tvars == << job, done, todo, left, word >>

Many(s, n) == [ x \in 1..n |-> s ]
(* odd words are sequences of pieces: strings or code points *)
Numerals == << <<"0">>, <<"00000000000000000000000">>, <<"2147483648">>, <<"4294967296">>, <<"9223372036854775808">>, <<"18446744073709551616">>, <<"99999999999999999999">>, <<"-9223372036854775808">>,
               <<"-9223372036854775809">>, <<"+18446744073709551615">>, <<"340282366920938463463374607431768211456">>, Many("9", 400), Many("0", 400) \o <<".">> \o Many("0", 400) \o <<"1">>,
               <<"1e308">>, <<"1e309">>, <<"1e-324">>, <<"1e999">>, <<"-1E-999">>, <<"1e2147483648">>, <<"1e-2147483649">>, <<"1e9223372036854775807">>, <<"1e9223372036854775808">>, <<"1e-9223372036854775808">>,
               <<"1e-9223372036854775809">>, <<"1E+18446744073709551616">>, <<"1e99999999999999999999">>, <<".5e-99999999999999999999">>, <<"-1.5E99999999999999999999">>, <<"0e0">>, <<"-0">>, <<"+0">>, <<"-0.0">>, <<"-.0e-0">>,
               <<"1.">>, <<"1.e">>, <<"1e">>, <<"1e+">>, <<".">>, <<".e1">>, <<"1.2.3">>, <<"1e1e1">>, <<"--1">>, <<"+-1">>, <<"1e--1">>, <<"0x1F">>, <<"1_000">>, <<"1,5">>, << 1633 >>, << 65297 >>, <<"inf">>, <<"NaN">>, <<"1f">> >>
Strings == << <<"\"">>, <<"'">>, <<"\"\\\"">>, <<"'\\">>, <<"\"\\u00e9\"">>, <<"\"\\U0001F600\"">>, <<"\"\\q\"">>, <<"\"\\ \"">>, <<"\"\"\"a\"\"\"">>, <<"'''a'b''c'''">>, <<"\"\"\"">>, <<"''''">>, <<"\"a\"\"b\"">>,
              << "\"", 10, "\"" >>, << "'", 13, "'" >>, << "\"", 0, "\"" >>, << "\"", 233, 8364, 128512, 1114111, "\"" >>, <<"\"">> \o Many("\\\\", 300) \o <<"\"">>, <<"'">> \o Many("\\'", 300), <<"\"">> \o Many("long ", 600) \o <<"\"">>,
              << 8220, "a", 8221 >>, <<"\"a\"@">>, <<"\"a\"@1">>, <<"\"a\"@en--de">>, <<"\"a\"@en-">>, <<"\"a\"^^">>, <<"\"a\"^^1">>, <<"\"a\"^^\"b\"">>, <<"\"a\"@en^^<b>">>, << "\"a\"@", 233 >>, <<"\"a\"@">> \o Many("ab-1", 200) >>
Identifiers == << <<":">>, <<"::">>, <<"a:">>, <<"a.:b">>, <<".a:b">>, <<"a..b:c">>, <<"a:b.">>, <<"a:b..">>, <<"a:b...c">>, <<"a:.b">>, <<"a:%">>, <<"a:%4">>, <<"a:%4g">>, <<"a:%zz">>, <<"a:%C3%A9">>, <<"a:\\">>, <<"a:\\a">>, <<"a:\\.">>,
            <<"a:b\\">>, <<"_:">>, <<"_:.">>, <<"_:a.">>, <<"_:-">>, <<"_">>, <<"__:a">>, <<"-a:b">>, <<"1:b">>, <<"a:-">>, << 233, ":", 233 >>, << 128512, ":a" >>, << "a:", 65536, 983039 >>, << "a:", 983040 >>, << "a", 183, ":b", 183 >>,
            << "a", 768, ":", 8255 >>, << "a:", 8204, 8205 >>, << 1114111 >>, << 65279, "a:b" >>, <<"a:">> \o Many("b.c", 400), Many("ab-", 300) \o <<":c">>, <<"a:">> \o Many(":", 400), <<"a:b">> \o Many(".", 400), <<"_:">> \o Many("a.", 400),
            <<"?">>, <<"$">>, <<"??a">>, <<"?a?b">>, <<"$$">>, <<"?1">>, <<"?-">>, <<"?a-b">>, << "?", 233, 183 >>, << "?", 183 >>, << "?", 128512 >>, <<"?">> \o Many("abc", 300), <<"? a">>, <<"?\\u0061">> >>
Iris == << <<"<">>, <<"<>">>, <<"< >">>, <<"<a">>, <<"<a b>">>, <<"<a\\u0062>">>, <<"<a\\>">>, <<"<<a>>">>, <<"<a>>">>, <<"<a<b>">>, << "<", 10, ">" >>, << "<", 0, ">" >>, << "<", 127, ">" >>, << "<", 233, 8364, 128512, 1114111, ">" >>,
           <<"<\"a\">">>, <<"<{a}>">>, <<"<a|b^c`d>">>, <<"<%>">>, <<"<%zz>">>, <<"<">> \o Many("a/b?c#d", 200) \o <<">">>, <<"<">> \o Many("a", 900), <<"<=">>, <<"<-1>">>, << 8249, "a", 8250 >> >>
Others == << <<"selecta">>, <<"select1">>, <<"_select">>, <<"SELECT:">>, <<"TrUe">>, <<"falsE1">>, << 383, "elect" >>, << "f", 305, "lter" >>, << "l", 304, "mit" >>, << 8490 >>, <<"{}">>, <<"}{">>, <<")(">>, <<"][">>, <<"{{{{">>, <<"((((">>, <<"[[[[">>,
             <<"))))">>, <<"...">>, <<";;">>, <<",,">>, <<"||">>, <<"|||">>, <<"&">>, <<"&&&">>, <<"^^^">>, <<"!!!!">>, <<"!=!=">>, <<"<=>">>, <<"=<">>, <<"==">>, <<"**">>, <<"++">>, <<"?*+">>, <<"//">>, <<"^">>, <<"#">>, << "#", 10 >>, << "#", 13 >>,
             << 10, "#", 10, "#" >>, << 160 >>, << 8232 >>, << 12288 >>, << 65279 >>, << 0 >>, << 11 >>, << 12 >>, << 127 >>, <<"\\u0061">>, <<"\\">>, <<"%">>, <<"~">>, <<"`">>, << 55295, 57344 >>, << 65535 >>, << "" >>, <<"()">>, <<"( )">>, <<"[]">>, << "[#", 10, "]" >>,
             << "(#)", 10, ")" >>, Many("(", 70), Many("!", 90), Many("{", 80), Many("[", 60), Many("^", 50), Many("-", 90), Many(" ", 1000), Many("# ", 500) \o << 10 >> >>
Odd == << Numerals, Strings, Identifiers, Iris, Others >>
All == TLCEval(FlattenSeq(Odd))
(* the words of the class of token kind k, as indices of All *)
OwnKind(k) == LET c == CASE k \in { "%INT", "%NUM", "%SNUM" } -> 1
                         [] k \in { "%STRING", "%LANG" } -> 2
                         [] k \in { "%PNAME", "%PNS", "%BNODE", "%VAR" } -> 3
                         [] k = "%IRIREF" -> 4
                         [] OTHER -> 5
                  n == FoldLeft(LAMBDA x, w : x + Len(w), 0, SubSeq(Odd, 1, c - 1))
              IN (n + 1)..(n + Len(Odd[c]))

CONSTANT Strangers  \* how many words of other classes are tried at each place
Base == LET T == Tokens(Yield) IN [ x \in 1..Len(T) |-> T[x] ]
TInit == Init /\ word = << >>
TNext == \/ word = << >> /\ Next /\ word' = word
         \/ /\ word = << >> /\ UNCHANGED gvars
            /\ LET T == Base IN \E p \in 1..Len(T) :
                 \/ \E w \in OwnKind(T[p].k) : word' = << p, w >>
                 \/ T[p].k \in Keywords /\ \E v \in AlikeNum(T[p].t) : word' = << p, 0 - v >>
                 \/ \E v \in 1..Strangers : word' = << p, 1 + ((((p * 37) + (v * 101)) + ((Shift * 17) + (Len(T) * 5))) % Len(All)) >>
TSpec == TInit /\ [][TNext]_tvars
EmitT == word = << >> \/
         LET T == Base
             W == [ x \in 1..Len(T) |-> (IF x = word[1] THEN IF word[2] > 0 THEN All[word[2]] ELSE << AlikeWord(T[x].t, 0 - word[2]) >> ELSE << T[x].t >>) \o (IF x = Len(T) THEN << >> ELSE << " " >>) ]
         IN PrintT(ToJson([ p |-> "word:" \o job, e |-> Profile[job].entry, k |-> "any", x |-> FlattenSeq(W) ]))
=============================================================================
