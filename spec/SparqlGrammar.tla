--------------------------- MODULE SparqlGrammar ---------------------------
(***************************************************************************)
(* The SPARQL 1.1 grammar (W3C Recommendation, section 19.8) as data, as   *)
(* the syntax-directed transducer that defines the abstract syntax tree a  *)
(* request must parse to.                                                  *)
(*                                                                         *)
(* G maps each non-terminal to its alternatives; an alternative is a       *)
(* sequence of symbols:                                                    *)
(*   a name in DOMAIN G   non-terminal                                     *)
(*   "%C" or "%C:v"       a token of lexical class C (variant v only       *)
(*                        changes how it is entered in the tree)           *)
(*   "#x"                 no token; enters the atom x in the tree.         *)
(*                        "#(x" opens a node, "#)" closes it               *)
(*   anything else        a keyword or punctuation token                   *)
(* The FIRST alternative of every non-terminal is its default; following   *)
(* defaults always terminates.                                             *)
(*                                                                         *)
(* FIRST, FOLLOW and the LL(1) table are computed below; that the grammar  *)
(* is LL(1), hence unambiguous, is an ASSUME.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Call1 == << "STR", "LANG", "DATATYPE", "IRI", "URI", "ABS", "CEIL", "FLOOR", "ROUND",
            "STRLEN", "UCASE", "LCASE", "ENCODE_FOR_URI", "YEAR", "MONTH", "DAY", "HOURS",
            "MINUTES", "SECONDS", "TIMEZONE", "TZ", "MD5", "SHA1", "SHA256", "SHA384", "SHA512",
            "ISIRI", "ISURI", "ISBLANK", "ISLITERAL", "ISNUMERIC" >>
Call2 == << "LANGMATCHES", "CONTAINS", "STRSTARTS", "STRENDS", "STRBEFORE", "STRAFTER",
            "STRLANG", "STRDT", "SAMETERM" >>
Call0 == << "RAND", "NOW", "UUID", "STRUUID" >>
CallL == << "CONCAT", "COALESCE" >>
Aggr  == << "SUM", "MIN", "MAX", "AVG", "SAMPLE" >>
OneBr == << <<"%INT">>, <<"%SNUM:pri">> >>

Map(S, Op(_)) == [i \in 1..Len(S) |-> Op(S[i])]
A1(n) == << n, "#(" \o n, "(", "Expr", ")", "#)" >>
A2(n) == << n, "#(" \o n, "(", "Expr", ",", "Expr", ")", "#)" >>
A0(n) == << n, "#(" \o n, "%NIL", "#)" >>
AL(n) == << n, "#(" \o n, "ExprList", "#)" >>
AG(n) == << n, "#(" \o n, "(", "Distinct", "Expr", ")", "#)" >>

(* Built-in calls and aggregates; the first one is the default. *)
BuiltIns ==
  << << "BOUND", "#(BOUND", "(", "Var", ")", "#)" >> >>
  \o Map(Call1, A1) \o Map(Call2, A2) \o Map(Call0, A0) \o Map(CallL, AL)
  \o << << "BNODE", "#(BNODE", "BnodeArg", "#)" >>,
        << "IF", "#(IF", "(", "Expr", ",", "Expr", ",", "Expr", ")", "#)" >>,
        << "SUBSTR", "#(SUBSTR", "(", "Expr", ",", "Expr", "ThirdOpt", ")", "#)" >>,
        << "REPLACE", "#(REPLACE", "(", "Expr", ",", "Expr", ",", "Expr", "ThirdOpt", ")", "#)" >>,
        << "REGEX", "#(REGEX", "(", "Expr", ",", "Expr", "ThirdOpt", ")", "#)" >>,
        << "EXISTS", "#(EXISTS", "Ggp", "#)" >>,
        << "NOT", "EXISTS", "#(NOTEXISTS", "Ggp", "#)" >>,
        << "COUNT", "#(COUNT", "(", "Distinct", "CountTarget", ")", "#)" >>,
        << "GROUP_CONCAT", "#(GROUP_CONCAT", "(", "Distinct", "Expr", "SepOpt", ")", "#)" >> >>
  \o Map(Aggr, AG)

G == TLCEval([
  (* ---- queries ---- *)
  QueryUnit     |-> << << "#(query", "Prologue", "Query", "ValuesClause", "#)" >> >>,
  Prologue      |-> << << "#(pro", "Decls", "#)" >> >>,
  Decls         |-> << << >>,
                       << "#(base", "BASE", "%IRIREF", "#)", "Decls" >>,
                       << "#(prefix", "PREFIX", "%PNS", "%IRIREF", "#)", "Decls" >> >>,
  Query         |-> << << "AskQuery" >>, << "SelectQuery" >>, << "ConstructQuery" >>, << "DescribeQuery" >> >>,
  AskQuery      |-> << << "#(ask", "ASK", "Datasets", "WhereClause", "SolMod", "#)" >> >>,
  SelectQuery   |-> << << "#(select", "SelectClause", "Datasets", "WhereClause", "SolMod", "#)" >> >>,
  ConstructQuery|-> << << "CONSTRUCT", "ConstructTail" >> >>,
  ConstructTail |-> << << "ConstructLong" >>, << "ConstructShort" >> >>,
  ConstructLong |-> << << "#(construct", "#(tpl", "{", "TplList", "}", "#)", "Datasets", "WhereClause", "SolMod", "#)" >> >>,
  ConstructShort|-> << << "#(constructw", "Datasets", "WHERE", "#(tpl", "{", "TplList", "}", "#)", "SolMod", "#)" >> >>,
  DescribeQuery |-> << << "#(describe", "DESCRIBE", "DescTargets", "Datasets", "WhereOpt", "SolMod", "#)" >> >>,
  DescTargets   |-> << << "*", "#*" >>, << "#(targets", "VarOrIri", "DescRest", "#)" >> >>,
  DescRest      |-> << << >>, << "VarOrIri", "DescRest" >> >>,
  WhereOpt      |-> << << "#-" >>, << "WhereClause" >> >>,
  WhereClause   |-> << << "WhereKw", "Ggp" >> >>,
  WhereKw       |-> << << >>, << "WHERE" >> >>,
  SelectClause  |-> << << "SELECT", "SelectMod", "SelectVars" >> >>,
  SelectMod     |-> << << "#-" >>, << "DISTINCT", "#distinct" >>, << "REDUCED", "#reduced" >> >>,
  SelectVars    |-> << << "*", "#*" >>, << "#(vars", "SelectVar", "SelectRest", "#)" >> >>,
  SelectVar     |-> << << "Var" >>, << "(", "#(as", "Expr", "AS", "Var", "#)", ")" >> >>,
  SelectRest    |-> << << >>, << "SelectVar", "SelectRest" >> >>,
  Datasets      |-> << << "#(from", "DatasetRest", "#)" >> >>,
  DatasetRest   |-> << << >>, << "FROM", "DatasetClause", "DatasetRest" >> >>,
  DatasetClause |-> << << "#(d", "Iri", "#)" >>, << "NAMED", "#(n", "Iri", "#)" >> >>,
  (* ---- solution modifiers ---- *)
  SolMod        |-> << << "#(mod", "GroupClause", "HavingClause", "OrderClause", "LimitClause", "#)" >> >>,
  GroupClause   |-> << << "#-" >>, << "GROUP", "BY", "#(group", "GroupCond", "GroupRest", "#)" >> >>,
  GroupRest     |-> << << >>, << "GroupCond", "GroupRest" >> >>,
  GroupCond     |-> << << "Var" >>, << "BuiltIn" >>, << "FunctionCall" >>,
                       << "(", "#(gexpr", "Expr", "AsOpt", "#)", ")" >> >>,
  AsOpt         |-> << << "#-" >>, << "AS", "Var" >> >>,
  HavingClause  |-> << << "#-" >>, << "HAVING", "#(having", "Constraint", "HavingRest", "#)" >> >>,
  HavingRest    |-> << << >>, << "Constraint", "HavingRest" >> >>,
  OrderClause   |-> << << "#-" >>, << "ORDER", "BY", "#(order", "OrderCond", "OrderRest", "#)" >> >>,
  OrderRest     |-> << << >>, << "OrderCond", "OrderRest" >> >>,
  OrderCond     |-> << << "Var" >>, << "ASC", "#(asc", "(", "Expr", ")", "#)" >>,
                       << "DESC", "#(desc", "(", "Expr", ")", "#)" >>, << "Constraint" >> >>,
  Constraint    |-> << << "(", "#(br", "Expr", "#)", ")" >>, << "BuiltIn" >>, << "FunctionCall" >> >>,
  LimitClause   |-> << << "#-" >>, << "LIMIT", "#(lo", "%INT:lim", "OffsetOpt", "#)" >>,
                       << "OFFSET", "#(ol", "%INT:lim", "LimitOpt", "#)" >> >>,
  OffsetOpt     |-> << << "#-" >>, << "OFFSET", "%INT:lim" >> >>,
  LimitOpt      |-> << << "#-" >>, << "LIMIT", "%INT:lim" >> >>,
  (* ---- VALUES ---- *)
  ValuesClause  |-> << << "#-" >>, << "VALUES", "DataBlock" >> >>,
  DataBlock     |-> << << "#(one", "Var", "{", "DataValues", "}", "#)" >>,
                       << "#(full", "DataVars", "{", "DataRows", "}", "#)" >> >>,
  DataVars      |-> << << "#(vs", "%NIL", "#)" >>, << "#(vs", "(", "Var", "VarRest", ")", "#)" >> >>,
  VarRest       |-> << << >>, << "Var", "VarRest" >> >>,
  DataRows      |-> << << >>, << "#(row", "%NIL", "#)", "DataRows" >>,
                       << "#(row", "(", "DataValue", "DataValues", ")", "#)", "DataRows" >> >>,
  DataValues    |-> << << >>, << "DataValue", "DataValues" >> >>,
  DataValue     |-> << << "Iri" >>, << "RdfLiteral" >>, << "Numeric" >>, << "Boolean" >>, << "UNDEF", "#undef" >> >>,
  (* ---- graph patterns ---- *)
  Ggp           |-> << << "{", "GgpInner", "}" >> >>,
  GgpInner      |-> << << "#(ggp", "TbOpt", "GpRest", "#)" >>,
                       << "#(subselect", "SelectClause", "WhereClause", "SolMod", "ValuesClause", "#)" >> >>,
  TbOpt         |-> << << >>, << "#(tb", "TssP", "TbRest", "#)" >> >>,
  TbRest        |-> << << >>, << ".", "TbRest2" >> >>,
  TbRest2       |-> << << >>, << "TssP", "TbRest" >> >>,
  GpRest        |-> << << >>, << "Gpnt", "DotOpt", "TbOpt", "GpRest" >> >>,
  DotOpt        |-> << << >>, << "." >> >>,
  Gpnt          |-> << << "#(union", "Ggp", "UnionRest", "#)" >>,
                       << "OPTIONAL", "#(optional", "Ggp", "#)" >>,
                       << "MINUS", "#(minus", "Ggp", "#)" >>,
                       << "GRAPH", "#(graph", "VarOrIri", "Ggp", "#)" >>,
                       << "SERVICE", "#(service", "Silent", "VarOrIri", "Ggp", "#)" >>,
                       << "FILTER", "#(filter", "Constraint", "#)" >>,
                       << "BIND", "(", "#(bind", "Expr", "AS", "Var", "#)", ")" >>,
                       << "VALUES", "#(inline", "DataBlock", "#)" >> >>,
  UnionRest     |-> << << >>, << "UNION", "Ggp", "UnionRest" >> >>,
  Silent        |-> << << "#-" >>, << "SILENT", "#silent" >> >>,
  (* ---- triples in templates and quads ---- *)
  TplList       |-> << << >>, << "Tss", "TplRest" >> >>,
  TplRest       |-> << << >>, << ".", "TplList" >> >>,
  Tss           |-> << << "#(tss", "VarOrTerm", "#(pl", "PropList", "#)", "#)" >>,
                       << "#(tssn", "TriplesNode", "PropListOpt", "#)" >> >>,
  PropListOpt   |-> << << "#-" >>, << "#(pl", "PropList", "#)" >> >>,
  PropList      |-> << << "VerbObjects", "PropRest" >> >>,
  PropRest      |-> << << >>, << ";", "PropRest2" >> >>,
  PropRest2     |-> << << "PropRest" >>, << "VerbObjects", "PropRest" >> >>,
  VerbObjects   |-> << << "#(po", "Verb", "#(objs", "GraphNode", "ObjRest", "#)", "#)" >> >>,
  ObjRest       |-> << << >>, << ",", "GraphNode", "ObjRest" >> >>,
  Verb          |-> << << "Var" >>, << "Iri" >>, << "a", "#a" >> >>,
  GraphNode     |-> << << "VarOrTerm" >>, << "TriplesNode" >> >>,
  TriplesNode   |-> << << "(", "#(coll", "GraphNode", "NodeRest", "#)", ")" >>,
                       << "[", "#(bpl", "PropList", "#)", "]" >> >>,
  NodeRest      |-> << << >>, << "GraphNode", "NodeRest" >> >>,
  (* ---- triples in patterns ---- *)
  TssP          |-> << << "#(tss", "VarOrTerm", "#(pl", "PropListP", "#)", "#)" >>,
                       << "#(tssn", "TriplesNodeP", "PropListPOpt", "#)" >> >>,
  PropListPOpt  |-> << << "#-" >>, << "#(pl", "PropListP", "#)" >> >>,
  PropListP     |-> << << "#(po", "VerbP", "#(objs", "GraphNodeP", "ObjRestP", "#)", "#)", "PropRestP" >> >>,
  PropRestP     |-> << << >>, << ";", "PropRestP2" >> >>,
  PropRestP2    |-> << << "PropRestP" >>,
                       << "#(po", "VerbP", "#(objs", "GraphNode", "ObjRest", "#)", "#)", "PropRestP" >> >>,
  ObjRestP      |-> << << >>, << ",", "GraphNodeP", "ObjRestP" >> >>,
  VerbP         |-> << << "Var" >>, << "Path" >> >>,
  GraphNodeP    |-> << << "VarOrTerm" >>, << "TriplesNodeP" >> >>,
  TriplesNodeP  |-> << << "(", "#(coll", "GraphNodeP", "NodeRestP", "#)", ")" >>,
                       << "[", "#(bpl", "PropListP", "#)", "]" >> >>,
  NodeRestP     |-> << << >>, << "GraphNodeP", "NodeRestP" >> >>,
  (* ---- property paths ---- *)
  Path          |-> << << "#(alt", "PathSeq", "PathAltRest", "#)" >> >>,
  PathAltRest   |-> << << >>, << "|", "PathSeq", "PathAltRest" >> >>,
  PathSeq       |-> << << "#(seq", "PathStep", "PathSeqRest", "#)" >> >>,
  PathSeqRest   |-> << << >>, << "/", "PathStep", "PathSeqRest" >> >>,
  PathStep      |-> << << "#(elt", "PathPrimary", "PathMod", "#)" >>,
                       << "^", "#(inv", "PathPrimary", "PathMod", "#)" >> >>,
  PathMod       |-> << << "#-" >>, << "?", "#?" >>, << "*", "#*" >>, << "+", "#+" >> >>,
  PathPrimary   |-> << << "Iri" >>, << "a", "#a" >>, << "!", "#(nps", "NegSet", "#)" >>,
                       << "(", "#(p", "Path", "#)", ")" >> >>,
  NegSet        |-> << << "PathOneIn" >>, << "(", "PathOneIn", "NegRest", ")" >>, << "%NIL" >> >>,
  NegRest       |-> << << >>, << "|", "PathOneIn", "NegRest" >> >>,
  PathOneIn     |-> << << "IriOrA" >>, << "^", "#(inv", "IriOrA", "#)" >> >>,
  IriOrA        |-> << << "Iri" >>, << "a", "#a" >> >>,
  (* ---- terms ---- *)
  Var           |-> << << "%VAR" >> >>,
  Iri           |-> << << "%PNAME" >>, << "%IRIREF" >>, << "%PNS" >> >>,
  VarOrIri      |-> << << "Var" >>, << "Iri" >> >>,
  VarOrTerm     |-> << << "Var" >>, << "GraphTerm" >> >>,
  GraphTerm     |-> << << "Iri" >>, << "RdfLiteral" >>, << "Numeric" >>, << "Boolean" >>,
                       << "%BNODE" >>, << "%ANON", "#B[]" >>, << "%NIL", "#()" >> >>,
  RdfLiteral    |-> << << "#(lit", "%STRING", "LitTail", "#)" >> >>,
  LitTail       |-> << << "#-" >>, << "%LANG" >>, << "^^", "Iri" >> >>,
  Numeric       |-> << << "%INT" >>, << "%NUM" >>, << "%SNUM" >> >>,
  Boolean       |-> << << "TRUE", "#true" >>, << "FALSE", "#false" >> >>,
  (* ---- expressions ---- *)
  Expr          |-> << << "#(or", "AndExpr", "OrRest", "#)" >> >>,
  OrRest        |-> << << >>, << "||", "AndExpr", "OrRest" >> >>,
  AndExpr       |-> << << "#(and", "RelExpr", "AndRest", "#)" >> >>,
  AndRest       |-> << << >>, << "&&", "RelExpr", "AndRest" >> >>,
  RelExpr       |-> << << "#(rel", "AddExpr", "RelTail", "#)" >> >>,
  RelTail       |-> << << "#-" >>, << "=", "#=", "AddExpr" >>, << "!=", "#!=", "AddExpr" >>,
                       << "<", "#<", "AddExpr" >>, << ">", "#>", "AddExpr" >>,
                       << "<=", "#<=", "AddExpr" >>, << ">=", "#>=", "AddExpr" >>,
                       << "IN", "#in", "ExprList" >>, << "NOT", "IN", "#nin", "ExprList" >> >>,
  AddExpr       |-> << << "#(add", "MulExpr", "AddRest", "#)" >> >>,
  AddRest       |-> << << >>, << "+", "#(+", "MulExpr", "#)", "AddRest" >>,
                       << "-", "#(-", "MulExpr", "#)", "AddRest" >>,
                       << "%SNUM:add", "MulRest", "#)", "#)", "AddRest" >> >>,
  MulExpr       |-> << << "#(mul", "UnaryExpr", "MulRest", "#)" >> >>,
  MulRest       |-> << << >>, << "*", "#(*", "UnaryExpr", "#)", "MulRest" >>,
                       << "/", "#(/", "UnaryExpr", "#)", "MulRest" >> >>,
  UnaryExpr     |-> << << "Primary" >>, << "%SNUM:pri" >>,
                       << "!", "#(not", "PrimaryU", "#)" >>, << "+", "#(plus", "PrimaryU", "#)" >>,
                       << "-", "#(neg", "PrimaryU", "#)" >> >>,
  PrimaryU      |-> << << "Primary" >>, << "%SNUM:priu" >> >>,
  Primary       |-> << << "Var" >>, << "(", "#(br", "Expr", "#)", ")" >>, << "BuiltIn" >>,
                       << "#(iof", "Iri", "ArgListOpt", "#)" >>, << "RdfLiteral" >>,
                       << "%INT" >>, << "%NUM" >>, << "Boolean" >> >>,
  ArgListOpt    |-> << << "#-" >>, << "ArgList" >> >>,
  ArgList       |-> << << "%NIL", "#nil" >>, << "(", "#(args", "Distinct", "Expr", "ExprRest", "#)", ")" >> >>,
  ExprList      |-> << << "%NIL", "#nil" >>, << "(", "#(list", "Expr", "ExprRest", "#)", ")" >> >>,
  ExprRest      |-> << << >>, << ",", "Expr", "ExprRest" >> >>,
  Distinct      |-> << << "#-" >>, << "DISTINCT", "#distinct" >> >>,
  FunctionCall  |-> << << "#(call", "Iri", "ArgList", "#)" >> >>,
  BuiltIn       |-> BuiltIns,
  BnodeArg      |-> << << "#-", "%NIL" >>, << "(", "Expr", ")" >> >>,
  ThirdOpt      |-> << << "#-" >>, << ",", "Expr" >> >>,
  CountTarget   |-> << << "*", "#*" >>, << "Expr" >> >>,
  SepOpt        |-> << << "#-" >>, << ";", "SEPARATOR", "=", "%STRING" >> >>,
  (* ---- updates ---- *)
  Update        |-> << << "#(update", "Prologue", "UpdateBody", "#)" >> >>,
  UpdateBody    |-> << << "#-", "#-" >>, << "UpdateStmt", "UpdateTail" >> >>,
  UpdateTail    |-> << << "#-" >>, << ";", "Update" >> >>,
  UpdateStmt    |-> << << "CLEAR", "#(clear", "Silent", "GraphRefAll", "#)" >>,
                       << "DROP", "#(drop", "Silent", "GraphRefAll", "#)" >>,
                       << "LOAD", "#(load", "Silent", "Iri", "IntoOpt", "#)" >>,
                       << "CREATE", "#(create", "Silent", "GRAPH", "Iri", "#)" >>,
                       << "ADD", "#(addg", "FromTo", "#)" >>,
                       << "MOVE", "#(move", "FromTo", "#)" >>,
                       << "COPY", "#(copy", "FromTo", "#)" >>,
                       << "INSERT", "InsertTail" >>,
                       << "DELETE", "DeleteTail" >>,
                       << "WITH", "#(modify", "Iri", "DeleteInsert", "Using", "WHERE", "Ggp", "#)" >> >>,
  FromTo        |-> << << "Silent", "GraphOrDefault", "TO", "GraphOrDefault" >> >>,
  GraphOrDefault|-> << << "DEFAULT", "#DEFAULT" >>, << "GRAPH", "Iri" >>, << "Iri" >> >>,
  GraphRefAll   |-> << << "ALL", "#ALL" >>, << "DEFAULT", "#DEFAULT" >>, << "NAMED", "#NAMED" >>, << "GRAPH", "Iri" >> >>,
  IntoOpt       |-> << << "#-" >>, << "INTO", "GRAPH", "Iri" >> >>,
  InsertTail    |-> << << "DATA", "#(insdata", "Quads", "#)" >>,
                       << "#(modify", "#-", "#-", "Quads", "Using", "WHERE", "Ggp", "#)" >> >>,
  DeleteTail    |-> << << "DATA", "#(deldata", "Quads", "#)" >>,
                       << "WHERE", "#(delwhere", "Quads", "#)" >>,
                       << "#(modify", "#-", "Quads", "InsertOpt", "Using", "WHERE", "Ggp", "#)" >> >>,
  DeleteInsert  |-> << << "DELETE", "Quads", "InsertOpt" >>, << "#-", "INSERT", "Quads" >> >>,
  InsertOpt     |-> << << "#-" >>, << "INSERT", "Quads" >> >>,
  Using         |-> << << "#(using", "UsingRest", "#)" >> >>,
  UsingRest     |-> << << >>, << "USING", "DatasetClause", "UsingRest" >> >>,
  Quads         |-> << << "#(quads", "{", "TtOpt", "QuadsRest", "}", "#)" >> >>,
  TtOpt         |-> << << >>, << "#(tt", "Tss", "TplRest", "#)" >> >>,
  QuadsRest     |-> << << >>, << "GRAPH", "#(gq", "VarOrIri", "{", "TtOpt", "}", "#)", "DotOpt", "TtOpt", "QuadsRest" >> >>
])

NTs  == TLCEval(DOMAIN G)
Syms == TLCEval(NTs \cup UNION { UNION { Range(G[n][k]) : k \in 1..Len(G[n]) } : n \in NTs })
First1(s) == SubSeq(s, 1, 1)
IsMark == TLCEval([ s \in Syms |-> Len(s) > 1 /\ First1(s) = "#" ])
MarkOut == TLCEval([ s \in { x \in Syms : IsMark[x] } |-> SubSeq(s, 2, Len(s)) ])
Terms == TLCEval({ s \in Syms : s \notin NTs /\ ~IsMark[s] })
Classes == TLCEval({ s \in Terms : Len(s) > 1 /\ First1(s) = "%" })

(* the token kind a terminal symbol stands for: class variants share one kind *)
TokOf == TLCEval([ s \in Terms |->
             CASE s \in { "%SNUM:add", "%SNUM:pri", "%SNUM:priu" } -> "%SNUM"
               [] s = "%INT:lim" -> "%INT"
               [] OTHER -> s ])
Toks == TLCEval({ TokOf[s] : s \in Terms })
Keywords == { t \in Toks : t \notin Classes /\ First1(t) \in
              {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} }

(***************************************************************************)
(* Nullable, FIRST, FOLLOW, LL(1) table                                    *)
(***************************************************************************)
SeqNull(alt, N) == \A i \in 1..Len(alt) : (alt[i] \in NTs /\ alt[i] \in N) \/ (alt[i] \notin NTs /\ IsMark[alt[i]])
RECURSIVE NullFix(_)
NullFix(N) == LET M == TLCEval({ n \in NTs : \E k \in 1..Len(G[n]) : SeqNull(G[n][k], N) })
              IN IF M = N THEN N ELSE NullFix(M)
Nullable == TLCEval(NullFix({}))

RECURSIVE SeqFirst(_, _)
SeqFirst(alt, F) ==
  IF alt = << >> THEN {}
  ELSE LET s == Head(alt) IN
       IF s \in NTs THEN F[s] \cup (IF s \in Nullable THEN SeqFirst(Tail(alt), F) ELSE {})
       ELSE IF IsMark[s] THEN SeqFirst(Tail(alt), F) ELSE { TokOf[s] }
RECURSIVE FirstFix(_)
FirstFix(F) == LET H == TLCEval([ n \in NTs |-> UNION { SeqFirst(G[n][k], F) : k \in 1..Len(G[n]) } ])
               IN IF H = F THEN F ELSE FirstFix(H)
FirstSets == TLCEval(FirstFix(TLCEval([ n \in NTs |-> {} ])))
FirstOf == TLCEval([ n \in NTs |-> [ k \in 1..Len(G[n]) |-> SeqFirst(G[n][k], FirstSets) ] ])

EOF == "$"
Occ == TLCEval({ <<n, k, i>> \in UNION { UNION { { <<n, k, i>> : i \in 1..Len(G[n][k]) } : k \in 1..Len(G[n]) } : n \in NTs } :
           G[n][k][i] \in NTs })
Rest(o) == SubSeq(G[o[1]][o[2]], o[3] + 1, Len(G[o[1]][o[2]]))
OccOf == TLCEval([ m \in NTs |-> { o \in Occ : G[o[1]][o[2]][o[3]] = m } ])
RECURSIVE FollowFix(_)
FollowFix(F) ==
  LET H == TLCEval([ m \in NTs |-> F[m] \cup UNION { SeqFirst(Rest(o), FirstSets) \cup
                                 (IF SeqNull(Rest(o), Nullable) THEN F[o[1]] ELSE {}) : o \in OccOf[m] } ])
  IN IF H = F THEN F ELSE FollowFix(H)
Follow == TLCEval(FollowFix(TLCEval([ n \in NTs |-> IF n \in {"QueryUnit", "Update"} THEN {EOF} ELSE {} ])))

NullAlt == TLCEval([ n \in NTs |-> { k \in 1..Len(G[n]) : SeqNull(G[n][k], Nullable) } ])
NullAlts(n) == NullAlt[n]
(* the tokens that select alternative k of n *)
Select == TLCEval([ n \in NTs |-> [ k \in 1..Len(G[n]) |-> FirstOf[n][k] \cup (IF k \in NullAlt[n] THEN Follow[n] ELSE {}) ] ])
Predict(n, t) == { k \in 1..Len(G[n]) : t \in Select[n][k] }
(* 0 = no alternative *)
Table == TLCEval([ n \in NTs |-> [ t \in Toks \cup {EOF} |->
            LET S == Select[n] P == { k \in 1..Len(S) : t \in S[k] } IN IF P = {} THEN 0 ELSE CHOOSE k \in P : TRUE ] ])

LL1 == \A n \in NTs : /\ Cardinality(NullAlt[n]) <= 1
                      /\ \A j, k \in 1..Len(G[n]) : j # k => Select[n][j] \cap Select[n][k] = {}
ASSUME GrammarIsLL1 == LL1

(* marks a nullable symbol leaves in the tree when it derives no token *)
RECURSIVE EpsOut(_)
EpsOut(s) == IF s \in NTs
             THEN LET k == CHOOSE j \in NullAlts(s) : TRUE
                  IN FlattenSeq([ i \in 1..Len(G[s][k]) |-> EpsOut(G[s][k][i]) ])
             ELSE << MarkOut[s] >>
EpsOf == TLCEval([ s \in Nullable \cup { x \in Syms : IsMark[x] } |-> EpsOut(s) ])

(* default yield: the terminal and mark symbols of the all-default derivation *)
RECURSIVE DefY(_)
DefY(s) == IF s \in NTs THEN FlattenSeq([ i \in 1..Len(G[s][1]) |-> DefY(G[s][1][i]) ]) ELSE << s >>
DefYield == TLCEval([ s \in Syms |-> DefY(s) ])

(* every non-terminal is reachable *)
RECURSIVE ReachFix(_)
ReachFix(R) == LET S == TLCEval(R \cup { m \in NTs : \E o \in OccOf[m] : o[1] \in R }) IN IF S = R THEN R ELSE ReachFix(S)
ASSUME AllReachable == ReachFix({"QueryUnit", "Update"}) = NTs
=============================================================================
