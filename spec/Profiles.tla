------------------------------ MODULE Profiles ------------------------------
(***************************************************************************)
(* Where exploration starts and which part of the grammar may depart from  *)
(* its defaults.  start is a sentential form (a request with holes), so a  *)
(* construct is placed in each of the positions where it may stand.        *)
(***************************************************************************)
EXTENDS SparqlGrammar

NoPro  == << "#(pro", "#)" >>
NoFrom == << "#(from", "#)" >>
NoMod  == << "#(mod", "#-", "#-", "#-", "#-", "#)" >>
QueryOf(q)  == << "#(query" >> \o NoPro \o q \o << "#-", "#)" >>
AskOf(ggp)  == QueryOf(<< "#(ask", "ASK" >> \o NoFrom \o ggp \o NoMod \o << "#)" >>)
GroupOf(ms) == AskOf(<< "{", "#(ggp" >> \o ms \o << "#)", "}" >>)
ModOf(mods) == QueryOf(<< "#(ask", "ASK" >> \o NoFrom \o << "{", "#(ggp", "#)", "}", "#(mod" >> \o mods \o << "#)", "#)" >>)
BlockOf(ts) == GroupOf(<< "#(tb" >> \o ts \o << "#)" >>)
FilterOf(c) == GroupOf(<< "FILTER", "#(filter" >> \o c \o << "#)" >>)
BrFilter(x) == FilterOf(<< "(", "#(br" >> \o x \o << "#)", ")" >>)
SelectOf(vs)== QueryOf(<< "#(select", "SELECT", "#-" >> \o vs \o NoFrom \o << "{", "#(ggp", "#)", "}" >> \o NoMod \o << "#)" >>)
VarExpr(x)  == << "#(or", "#(and", "#(rel", "#(add", "#(mul" >> \o x \o << "#)", "#)", "#-", "#)", "#)", "#)" >>
UpdateOf(u) == << "#(update" >> \o NoPro \o u \o << "#-", "#)" >>

ExprNTs == { "Expr", "OrRest", "AndExpr", "AndRest", "RelExpr", "RelTail", "AddExpr", "AddRest", "MulExpr", "MulRest", "UnaryExpr",
             "PrimaryU", "Primary", "ArgListOpt", "ArgList", "ExprList", "ExprRest", "Distinct", "FunctionCall" }
TermNTs == { "VarOrTerm", "GraphTerm", "VarOrIri", "Iri", "RdfLiteral", "LitTail", "Numeric", "Boolean" }
PathNTs == { "Path", "PathAltRest", "PathSeq", "PathSeqRest", "PathStep", "PathMod", "PathPrimary", "NegSet", "NegRest", "PathOneIn", "IriOrA" }
TplNTs  == { "TplList", "TplRest", "Tss", "PropListOpt", "PropList", "PropRest", "PropRest2", "VerbObjects", "ObjRest", "Verb", "GraphNode",
             "TriplesNode", "NodeRest" }
TriNTs  == { "TbRest", "TbRest2", "TssP", "PropListPOpt", "PropListP", "PropRestP", "PropRestP2", "ObjRestP", "VerbP", "GraphNodeP",
             "TriplesNodeP", "NodeRestP" }
PatNTs  == { "Ggp", "GgpInner", "TbOpt", "GpRest", "DotOpt", "Gpnt", "UnionRest", "Silent" }
ModNTs  == { "GroupClause", "GroupRest", "GroupCond", "AsOpt", "HavingClause", "HavingRest", "OrderClause", "OrderRest", "OrderCond",
             "Constraint", "LimitClause", "OffsetOpt", "LimitOpt" }
ValNTs  == { "ValuesClause", "DataBlock", "DataVars", "VarRest", "DataRows", "DataValues", "DataValue" }
QryNTs  == { "Query", "ConstructTail", "DescTargets", "DescRest", "WhereOpt", "WhereKw", "SelectMod", "SelectVars", "SelectVar", "SelectRest",
             "DatasetRest", "DatasetClause" }
CallNTs == { "BuiltIn", "BnodeArg", "ThirdOpt", "CountTarget", "SepOpt", "Distinct", "ExprList", "ExprRest", "ArgList", "FunctionCall" }
UpdNTs  == { "UpdateBody", "UpdateTail", "UpdateStmt" }
GmNTs   == { "UpdateStmt", "Silent", "FromTo", "GraphOrDefault", "GraphRefAll", "IntoOpt", "Iri" }
QuadNTs == { "TtOpt", "QuadsRest", "DotOpt" }
DataNTs == { "InsertTail", "DeleteTail", "DeleteInsert", "InsertOpt", "UsingRest", "DatasetClause", "Quads" }

(* the entries of the parser, and the non-terminal each one reads *)
StartOf == [ Q |-> "QueryUnit", U |-> "Update", S |-> "Query", A |-> "AskQuery", C |-> "ConstructQuery", B |-> "ConstructLong", T |-> "ConstructShort", D |-> "DescribeQuery" ]

P(e, s, f) == [ entry |-> e, start |-> s, focus |-> f ]

Profile == TLCEval([
  all_q      |-> P("Q", << "QueryUnit" >>, NTs),
  all_u      |-> P("U", << "Update" >>, NTs),
  (* C01 *)
  query      |-> P("Q", << "QueryUnit" >>, QryNTs \cup { "Decls", "GroupClause", "LimitClause", "ValuesClause", "TplList", "TbOpt", "GgpInner" }),
  (* C02 *)
  prologue_q |-> P("Q", << "QueryUnit" >>, { "Decls", "Query" }),
  pro_terms  |-> P("Q", << "#(query", "#(pro", "#(prefix", "PREFIX", "%PNS", "%IRIREF", "#)", "Decls", "#)", "CONSTRUCT", "#(construct", "#(tpl", "{", "TplList", "}", "#)", "Datasets",
                           "WHERE", "{", "#(ggp", "TbOpt", "GpRest", "#)", "}" >> \o NoMod \o << "#)", "#-", "#)" >>,
                   { "Decls", "Iri", "DatasetRest", "TplList", "TbOpt", "VarOrTerm", "VarOrIri", "VerbP", "Verb", "GpRest", "Gpnt", "RdfLiteral", "LitTail" }),
  pro_update |-> P("U", << "#(update", "#(pro", "#(base", "BASE", "%IRIREF", "#)", "#(prefix", "PREFIX", "%PNS", "%IRIREF", "#)", "Decls", "#)", "UpdateStmt", "UpdateTail", "#)" >>,
                   { "Decls", "Iri", "UpdateStmt", "UpdateTail", "UpdateBody", "GraphOrDefault", "GraphRefAll", "IntoOpt", "TtOpt", "VarOrTerm", "Verb" }),
  prologue_u |-> P("U", << "Update" >>, { "Decls", "UpdateBody", "UpdateTail", "UpdateStmt" }),
  (* C03 *)
  pattern    |-> P("Q", AskOf(<< "Ggp" >>), PatNTs \cup { "ValuesClause", "DataBlock", "Constraint", "VarOrIri" }),
  pat_select |-> P("Q", QueryOf(<< "#(select", "SELECT", "#-", "*", "#*" >> \o NoFrom \o << "WHERE", "Ggp" >> \o NoMod \o << "#)" >>), PatNTs),
  pat_exists |-> P("Q", FilterOf(<< "EXISTS", "#(EXISTS", "Ggp", "#)" >>), PatNTs),
  pat_modify |-> P("U", UpdateOf(<< "INSERT", "#(modify", "#-", "#-", "Quads", "Using", "WHERE", "Ggp", "#)" >>), PatNTs),
  subselect  |-> P("Q", GroupOf(<< "#(union", "{", "#(subselect", "SelectClause", "WhereClause", "SolMod", "ValuesClause", "#)", "}", "#)" >>),
                   QryNTs \cup { "ValuesClause", "GroupClause", "HavingClause", "OrderClause", "LimitClause", "OffsetOpt" }),
  (* C04 *)
  triples    |-> P("Q", BlockOf(<< "TssP", "TbRest" >>), TriNTs \cup TermNTs \cup { "GraphNode", "TriplesNode", "ObjRest", "PropRest", "Verb" }),
  template   |-> P("Q", QueryOf(<< "CONSTRUCT", "#(construct", "#(tpl", "{", "TplList", "}", "#)" >> \o NoFrom \o << "{", "#(ggp", "#)", "}" >> \o NoMod \o << "#)" >>),
                   TplNTs \cup TermNTs),
  templatew  |-> P("Q", QueryOf(<< "CONSTRUCT", "#(constructw" >> \o NoFrom \o << "WHERE", "#(tpl", "{", "TplList", "}", "#)" >> \o NoMod \o << "#)" >>),
                   TplNTs \cup { "VarOrTerm" }),
  (* C05 *)
  path       |-> P("Q", BlockOf(<< "#(tss", "Var", "#(pl", "#(po", "Path", "#(objs", "Var", "#)", "#)", "#)", "#)" >>), PathNTs \cup { "Iri" }),
  path_num   |-> P("Q", BlockOf(<< "#(tss", "Var", "#(pl", "#(po", "Path", "#(objs", "%SNUM", "#)", "#)", ";",
                                   "#(po", "Path", "#(objs", "%INT", "#)", "#)", "#)", "#)" >>), PathNTs),
  path_later |-> P("Q", BlockOf(<< "#(tssn", "[", "#(bpl", "#(po", "Path", "#(objs", "Iri", "#)", "#)", "#)", "]",
                                   "#(pl", "#(po", "Path", "#(objs", "RdfLiteral", "#)", "#)", "#)", "#)" >>), PathNTs),
  (* C06 *)
  expr       |-> P("Q", BrFilter(<< "Expr" >>), ExprNTs),
  expr_bind  |-> P("Q", GroupOf(<< "BIND", "(", "#(bind", "Expr", "AS", "Var", "#)", ")" >>), ExprNTs),
  expr_select|-> P("Q", SelectOf(<< "#(vars", "(", "#(as", "Expr", "AS", "Var", "#)", ")", "#)" >>), ExprNTs),
  expr_having|-> P("Q", ModOf(<< "#-", "HAVING", "#(having", "(", "#(br", "Expr", "#)", ")", "#)", "#-", "#-" >>), ExprNTs),
  expr_group |-> P("Q", ModOf(<< "GROUP", "BY", "#(group", "(", "#(gexpr", "Expr", "AsOpt", "#)", ")", "#)", "#-", "#-", "#-" >>), ExprNTs \cup { "AsOpt" }),
  expr_order |-> P("Q", ModOf(<< "#-", "#-", "ORDER", "BY", "#(order", "DESC", "#(desc", "(", "Expr", ")", "#)", "#)", "#-" >>), ExprNTs),
  expr_args  |-> P("Q", FilterOf(<< "#(call", "Iri", "ArgList", "#)" >>), ExprNTs),
  expr_call  |-> P("Q", FilterOf(<< "COALESCE", "#(COALESCE", "ExprList", "#)" >>), ExprNTs),
  lit_expr   |-> P("Q", BrFilter(<< "Expr" >>), { "Primary", "LitTail", "Iri", "RelTail", "AddRest", "UnaryExpr" }),
  (* C07 *)
  builtin    |-> P("Q", FilterOf(<< "BuiltIn" >>), CallNTs \cup { "Primary" }),
  builtin_ex |-> P("Q", GroupOf(<< "BIND", "(", "#(bind" >> \o VarExpr(<< "BuiltIn" >>) \o << "AS", "Var", "#)", ")" >>), CallNTs),
  builtin_gr |-> P("Q", ModOf(<< "GROUP", "BY", "#(group", "BuiltIn", "#)", "HAVING", "#(having", "BuiltIn", "#)", "ORDER", "BY", "#(order", "BuiltIn", "#)", "#-" >>), CallNTs),
  builtin_se |-> P("Q", SelectOf(<< "#(vars", "(", "#(as" >> \o VarExpr(<< "BuiltIn" >>) \o << "AS", "Var", "#)", ")", "#)" >>), CallNTs),
  options    |-> P("Q", ModOf(<< "#-", "HAVING", "#(having", "COUNT", "#(COUNT", "(", "Distinct", "CountTarget", ")", "#)", "GROUP_CONCAT", "#(GROUP_CONCAT", "(", "Distinct", "Expr", "SepOpt", ")", "#)",
                                 "SUBSTR", "#(SUBSTR", "(", "Expr", ",", "Expr", "ThirdOpt", ")", "#)", "BNODE", "#(BNODE", "BnodeArg", "#)", "#)", "#-", "#-" >>),
                    { "ThirdOpt", "CountTarget", "SepOpt", "Distinct", "BnodeArg" }),
  builtin_in |-> P("Q", BrFilter(VarExpr(<< "BuiltIn" >>)), CallNTs \cup { "Primary", "MulRest", "AddRest", "RelTail" }),
  functions  |-> P("Q", ModOf(<< "GROUP", "BY", "#(group", "FunctionCall", "#)", "HAVING", "#(having", "FunctionCall", "#)", "ORDER", "BY", "#(order", "FunctionCall", "#)", "#-" >>), CallNTs),
  (* C08 *)
  modifiers  |-> P("Q", ModOf(<< "GroupClause", "HavingClause", "OrderClause", "LimitClause" >>), ModNTs),
  mod_select |-> P("Q", QueryOf(<< "#(select", "SelectClause" >> \o NoFrom \o << "WHERE", "{", "#(ggp", "#)", "}", "SolMod", "#)" >>), ModNTs),
  mod_constr |-> P("Q", QueryOf(<< "CONSTRUCT", "#(constructw" >> \o NoFrom \o << "WHERE", "#(tpl", "{", "}", "#)", "SolMod", "#)" >>), ModNTs),
  mod_desc   |-> P("Q", QueryOf(<< "#(describe", "DESCRIBE", "DescTargets" >> \o NoFrom \o << "WhereOpt", "SolMod", "#)" >>), ModNTs \cup { "DescTargets", "WhereOpt" }),
  mod_sub    |-> P("Q", GroupOf(<< "#(union", "{", "#(subselect", "SelectClause", "WhereClause", "SolMod", "#-", "#)", "}", "#)" >>), ModNTs),
  mod_all    |-> P("Q", ModOf(<< "GROUP", "BY", "#(group", "GroupCond", "GroupRest", "#)", "HAVING", "#(having", "Constraint", "HavingRest", "#)",
                                 "ORDER", "BY", "#(order", "OrderCond", "OrderRest", "#)", "LIMIT", "#(lo", "%INT:lim", "OffsetOpt", "#)" >>), ModNTs),
  mod_expr   |-> P("Q", ModOf(<< "GROUP", "BY", "#(group", "(", "#(gexpr", "Expr", "AsOpt", "#)", ")", "BuiltIn", "#)", "HAVING", "#(having", "(", "#(br", "Expr", "#)", ")", "BuiltIn", "#)",
                                 "ORDER", "BY", "#(order", "DESC", "#(desc", "(", "Expr", ")", "#)", "BuiltIn", "ASC", "#(asc", "(", "Expr", ")", "#)", "#)", "#-" >>), ExprNTs \cup CallNTs \cup { "AsOpt" }),
  (* C09 *)
  values_end |-> P("Q", << "#(query" >> \o NoPro \o << "Query", "VALUES", "DataBlock", "#)" >>, ValNTs \cup TermNTs \cup { "Query" }),
  values_in  |-> P("Q", GroupOf(<< "VALUES", "#(inline", "DataBlock", "#)", "DotOpt", "TbOpt", "GpRest" >>), ValNTs \cup TermNTs \cup { "DotOpt", "TbOpt" }),
  values_sub |-> P("Q", GroupOf(<< "#(union", "{", "#(subselect", "SelectClause", "WhereClause", "SolMod", "VALUES", "DataBlock", "#)", "}", "#)" >>), ValNTs \cup { "LimitClause" }),
  values_row |-> P("Q", GroupOf(<< "VALUES", "#(inline", "#(full", "DataVars", "{", "DataRows", "}", "#)", "#)" >>), ValNTs),
  (* C12 *)
  manage     |-> P("U", UpdateOf(<< "UpdateStmt" >>), GmNTs),
  (* C13 *)
  ins_data   |-> P("U", UpdateOf(<< "INSERT", "InsertTail" >>), DataNTs \cup QuadNTs \cup { "Iri", "VarOrIri", "TplRest", "TbOpt" }),
  del_data   |-> P("U", UpdateOf(<< "DELETE", "DeleteTail" >>), DataNTs \cup QuadNTs \cup { "Iri", "VarOrIri", "TplRest" }),
  with       |-> P("U", UpdateOf(<< "WITH", "#(modify", "Iri", "DeleteInsert", "Using", "WHERE", "Ggp", "#)" >>),
                   DataNTs \cup { "TtOpt", "QuadsRest", "TbOpt", "GgpInner", "Iri" }),
  quads      |-> P("U", UpdateOf(<< "INSERT", "DATA", "#(insdata", "Quads", "#)" >>), QuadNTs \cup TplNTs \cup { "VarOrIri", "VarOrTerm" }),
  quads_term |-> P("U", UpdateOf(<< "DELETE", "WHERE", "#(delwhere", "Quads", "#)" >>), QuadNTs \cup TplNTs \cup TermNTs),
  (* C14 *)
  sequence   |-> P("U", << "Update" >>, UpdNTs \cup { "Decls" }),
  seq_all    |-> P("U", << "Update" >>, UpdNTs \cup { "InsertTail", "DeleteTail", "GraphRefAll", "Silent" }),
  (* C19 *)
  form_any   |-> P("S", << "Query" >>, NTs),
  form_ask   |-> P("A", << "AskQuery" >>, NTs),
  form_con   |-> P("C", << "ConstructQuery" >>, NTs),
  form_long  |-> P("B", << "ConstructLong" >>, NTs),
  form_short |-> P("T", << "ConstructShort" >>, NTs),
  form_desc  |-> P("D", << "DescribeQuery" >>, NTs)
])
ASSUME \A p \in DOMAIN Profile : Profile[p].focus \subseteq NTs /\ \A i \in 1..Len(Profile[p].start) : Profile[p].start[i] \in Syms
=============================================================================
