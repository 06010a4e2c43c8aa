//! Projection of nom-sparql's syntax tree onto the flat tree of the specification
//! (spec/SparqlGrammar.tla): a sequence of leaves, "(node" and ")".
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::*;
use nom_sparql::call::*;
use nom_sparql::clauses::*;
use nom_sparql::data::*;
use nom_sparql::expression::functions::*;
use nom_sparql::expression::iri::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::literal::*;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::order::*;
use nom_sparql::path::*;
use nom_sparql::prologue::*;
use nom_sparql::quads::*;
use nom_sparql::query::ask::*;
use nom_sparql::query::construct::*;
use nom_sparql::query::describe::*;
use nom_sparql::query::select::*;
use nom_sparql::query::*;
use nom_sparql::triple::*;
use nom_sparql::update::*;
use nom_sparql::var::*;

#[derive(Default)]
pub struct Out(pub Vec<String>);

impl Out {
    fn l<T: Into<String>>(&mut self, s: T) {
        self.0.push(s.into())
    }
    fn o(&mut self, s: &str) {
        self.0.push(format!("({}", s))
    }
    fn c(&mut self) {
        self.0.push(")".into())
    }
    fn n(&mut self, s: &str, f: impl FnOnce(&mut Self)) {
        self.o(s);
        f(self);
        self.c()
    }
    fn none(&mut self) {
        self.l("-")
    }
    fn opt<T>(&mut self, x: &Option<T>, f: impl FnOnce(&mut Self, &T)) {
        match x {
            Some(x) => f(self, x),
            None => self.none(),
        }
    }
    fn flag(&mut self, b: bool, s: &str) {
        self.l(if b { s } else { "-" })
    }

    // ---- terms ----
    fn iri(&mut self, x: &Iri) {
        match x {
            Iri::Iri(s) => self.l(format!("I{}", s)),
            Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
                self.l(format!("P{}:{}", pn_prefix.as_deref().unwrap_or(""), pn_local))
            }
            Iri::PrefixedName(PrefixedName::PnameNS(p)) => {
                self.l(format!("N{}:", p.as_deref().unwrap_or("")))
            }
        }
    }
    fn var(&mut self, x: &Var) {
        match x {
            Var::QMark(s) => self.l(format!("V?{}", s)),
            Var::Dollar(s) => self.l(format!("V${}", s)),
        }
    }
    fn var_or_iri(&mut self, x: &VarOrIri) {
        match x {
            VarOrIri::Var(v) => self.var(v),
            VarOrIri::Iri(i) => self.iri(i),
        }
    }
    fn literal(&mut self, x: &RdfLiteral) {
        self.n("lit", |o| {
            o.l(format!("S{}", x.literal));
            match &x.descriptor {
                None => o.none(),
                Some(RdfLiteralDescriptor::LangTag(t)) => o.l(format!("L{}", t)),
                Some(RdfLiteralDescriptor::IriRef(i)) => o.iri(i),
            }
        })
    }
    fn number(x: &NumericLiteral) -> String {
        match x {
            NumericLiteral::Int(i) => format!("#{}", i),
            NumericLiteral::Double((d, e)) => match e {
                Some(e) => format!("D{}e{}", d, e),
                None => format!("D{}", d),
            },
        }
    }
    fn boolean(&mut self, b: bool) {
        self.l(if b { "true" } else { "false" })
    }
    fn blank(&mut self, x: &BlankNode) {
        match x {
            BlankNode::Anon => self.l("B[]"),
            BlankNode::Label(s) => self.l(format!("B{}", s)),
        }
    }
    fn term(&mut self, x: &GraphTerm) {
        match x {
            GraphTerm::Iri(i) => self.iri(i),
            GraphTerm::RdfLiteral(l) => self.literal(l),
            GraphTerm::NumericLiteral(n) => self.l(Self::number(n)),
            GraphTerm::BooleanLiteral(b) => self.boolean(*b),
            GraphTerm::BlankNode(b) => self.blank(b),
            GraphTerm::Nil => self.l("()"),
        }
    }
    fn var_or_term(&mut self, x: &VarOrTerm) {
        match x {
            VarOrTerm::Var(v) => self.var(v),
            VarOrTerm::Term(t) => self.term(t),
        }
    }

    // ---- prologue ----
    fn prologue(&mut self, x: &Prologue) {
        self.n("pro", |o| {
            for d in &x.0 {
                match d {
                    BaseOrPrefixDecl::Base(s) => o.n("base", |o| o.l(format!("I{}", s))),
                    BaseOrPrefixDecl::Prefix(p) => o.n("prefix", |o| {
                        o.l(format!("N{}:", p.pname_ns.as_deref().unwrap_or("")));
                        o.l(format!("I{}", p.iri_ref));
                    }),
                }
            }
        })
    }

    // ---- queries ----
    pub fn query_statement(&mut self, x: &SparqlQueryStatement) {
        self.n("query", |o| {
            o.prologue(&x.prologue);
            o.query(&x.query);
            o.opt(&x.values, |o, v| o.data_block(v));
        })
    }
    pub fn prologue_of(&mut self, x: &SparqlQueryStatement) {
        self.prologue(&x.prologue)
    }
    pub fn query(&mut self, x: &SparqlQuery) {
        match x {
            SparqlQuery::Ask(q) => self.ask(q),
            SparqlQuery::Select(q) => self.select(q),
            SparqlQuery::Describe(q) => self.describe(q),
            SparqlQuery::Construct(q) => self.construct(q),
        }
    }
    fn dataset(&mut self, name: &str, x: &[DefaultOrNamedIri]) {
        self.n(name, |o| {
            for d in x {
                match d {
                    DefaultOrNamedIri::Default(i) => o.n("d", |o| o.iri(i)),
                    DefaultOrNamedIri::Named(i) => o.n("n", |o| o.iri(i)),
                }
            }
        })
    }
    pub fn ask(&mut self, q: &AskQuery) {
        self.n("ask", |o| {
            o.dataset("from", &q.dataset_clauses);
            o.ggp(&q.where_clause);
            o.modifier(&q.solution_modifier);
        })
    }
    fn select_clause(&mut self, x: &SelectClause) {
        match &x.modifier {
            None => self.none(),
            Some(SelectModifier::Distinct) => self.l("distinct"),
            Some(SelectModifier::Reduced) => self.l("reduced"),
        }
        match &x.vars {
            SelectVars::All => self.l("*"),
            SelectVars::VarOrExpressionAsVar(vs) => self.n("vars", |o| {
                for v in vs {
                    match v {
                        VarOrExpressionAsVar::Var(v) => o.var(v),
                        VarOrExpressionAsVar::ExpressionAsVar(e) => o.n("as", |o| {
                            o.expr(&e.expression);
                            o.var(&e.var);
                        }),
                    }
                }
            }),
        }
    }
    fn select(&mut self, q: &SelectQuery) {
        self.n("select", |o| {
            o.select_clause(&q.select_clause);
            o.dataset("from", &q.dataset_clauses);
            o.ggp(&q.where_clause);
            o.modifier(&q.solution_modifier);
        })
    }
    fn subselect(&mut self, q: &SubSelect) {
        self.n("subselect", |o| {
            o.select_clause(&q.select_clause);
            o.ggp(&q.where_clause);
            o.modifier(&q.solution_modifier);
            o.opt(&q.values_clause, |o, v| o.data_block(v));
        })
    }
    pub fn describe(&mut self, q: &DescribeQuery) {
        self.n("describe", |o| {
            match &q.var_or_iris_or_all {
                VarOrIrisOrAll::All => o.l("*"),
                VarOrIrisOrAll::VarIri(vs) => o.n("targets", |o| {
                    for v in vs {
                        o.var_or_iri(v)
                    }
                }),
            }
            o.dataset("from", &q.dataset_clauses);
            o.opt(&q.where_clause, |o, w| o.ggp(w));
            o.modifier(&q.solution_modifier);
        })
    }
    pub fn construct(&mut self, q: &ConstructQuery) {
        match q {
            ConstructQuery::SubConstruct(q) => self.construct_long(q),
            ConstructQuery::SubTriples(q) => self.construct_short(q),
        }
    }
    pub fn construct_long(&mut self, q: &SubConstruct) {
        self.n("construct", |o| {
                o.n("tpl", |o| o.triples(&q.construct_template.0));
                o.dataset("from", &q.dataset_clauses);
                o.ggp(&q.where_clause);
                o.modifier(&q.solution_modifier);
            })
    }
    pub fn construct_short(&mut self, q: &SubTriples) {
        self.n("constructw", |o| {
                o.dataset("from", &q.dataset_clauses);
                o.n("tpl", |o| {
                    if let Some(t) = &q.triples_template {
                        o.triples(t)
                    }
                });
                o.modifier(&q.solution_modifier);
            })
    }

    // ---- modifiers ----
    fn modifier(&mut self, x: &SolutionModifier) {
        self.n("mod", |o| {
            o.opt(&x.group_by, |o, g| {
                o.n("group", |o| {
                    for c in &g.0 {
                        match c {
                            GroupCondition::BuiltInCall(b) => o.builtin(b),
                            GroupCondition::FunctionCall(f) => o.call(f),
                            GroupCondition::ExpressionAsVarOpt(e) => o.n("gexpr", |o| {
                                o.expr(&e.expression);
                                o.opt(&e.var, |o, v| o.var(v));
                            }),
                            GroupCondition::Var(v) => o.var(v),
                        }
                    }
                })
            });
            o.opt(&x.having, |o, h| {
                o.n("having", |o| {
                    for c in &h.0 {
                        o.constraint(c)
                    }
                })
            });
            o.opt(&x.order_by, |o, b| {
                o.n("order", |o| {
                    for c in &b.0 {
                        match c {
                            OrderCondition::Order(e) => o.n(
                                match e.order {
                                    Order::Asc => "asc",
                                    Order::Desc => "desc",
                                },
                                |o| o.expr(&e.expression),
                            ),
                            OrderCondition::Constraint(c) => o.constraint(c),
                            OrderCondition::Var(v) => o.var(v),
                        }
                    }
                })
            });
            let num = |o: &mut Out, n: &Option<u64>| o.opt(n, |o, n| o.l(format!("#{}", n)));
            o.opt(&x.limit_offset, |o, l| match l {
                LimitOffsetClause::LimitOffset { limit, offset } => o.n("lo", |o| {
                    num(o, &Some(*limit));
                    num(o, offset);
                }),
                LimitOffsetClause::OffsetLimit { offset, limit } => o.n("ol", |o| {
                    num(o, &Some(*offset));
                    num(o, limit);
                }),
            });
        })
    }
    fn constraint(&mut self, x: &Constraint) {
        match x {
            Constraint::Bracketted(e) => self.n("br", |o| o.expr(e)),
            Constraint::BuiltInCall(b) => self.builtin(b),
            Constraint::FunctionCall(f) => self.call(f),
        }
    }

    // ---- VALUES ----
    fn data_value(&mut self, x: &DataBlockValue) {
        match x {
            DataBlockValue::Iri(i) => self.iri(i),
            DataBlockValue::RdfLiteral(l) => self.literal(l),
            DataBlockValue::NumericLiteral(n) => self.l(Self::number(n)),
            DataBlockValue::BooleanLiteral(b) => self.boolean(*b),
            DataBlockValue::UnDef => self.l("undef"),
        }
    }
    fn data_block(&mut self, x: &DataBlock) {
        match x {
            DataBlock::InlineDataOneVar(d) => self.n("one", |o| {
                o.var(&d.var);
                for v in &d.values {
                    o.data_value(v)
                }
            }),
            DataBlock::InlineDataFull(d) => self.n("full", |o| {
                o.n("vs", |o| {
                    for v in &d.vars {
                        o.var(v)
                    }
                });
                for r in &d.data_block_values {
                    o.n("row", |o| {
                        for v in r {
                            o.data_value(v)
                        }
                    })
                }
            }),
        }
    }

    // ---- patterns ----
    fn ggp(&mut self, x: &GroupGraphPattern) {
        match x {
            GroupGraphPattern::SubSelect(s) => self.subselect(s),
            GroupGraphPattern::GroupGraphPatternSub(g) => self.n("ggp", |o| {
                if let Some(t) = &g.triples_block {
                    o.triples_block(t)
                }
                for p in &g.graph_pattern_and_triples {
                    o.pattern(&p.graph_pattern);
                    if let Some(t) = &p.triples {
                        o.triples_block(t)
                    }
                }
            }),
        }
    }
    fn pattern(&mut self, x: &GraphPatternNotTriples) {
        match x {
            GraphPatternNotTriples::GroupOrUnion(u) => self.n("union", |o| {
                for g in &u.0 {
                    o.ggp(g)
                }
            }),
            GraphPatternNotTriples::Optional(g) => self.n("optional", |o| o.ggp(g)),
            GraphPatternNotTriples::Minus(g) => self.n("minus", |o| o.ggp(g)),
            GraphPatternNotTriples::Graph(g) => self.n("graph", |o| {
                o.var_or_iri(&g.var_or_iri);
                o.ggp(&g.graph_pattern);
            }),
            GraphPatternNotTriples::Service(g) => self.n("service", |o| {
                o.flag(g.silent, "silent");
                o.var_or_iri(&g.var_or_iri);
                o.ggp(&g.graph_pattern);
            }),
            GraphPatternNotTriples::Filter(c) => self.n("filter", |o| o.constraint(c)),
            GraphPatternNotTriples::Bind(e) => self.n("bind", |o| {
                o.expr(&e.expression);
                o.var(&e.var);
            }),
            GraphPatternNotTriples::InlineData(d) => self.n("inline", |o| o.data_block(d)),
        }
    }
    fn triples_block(&mut self, x: &TriplesBlock) {
        self.n("tb", |o| {
            for t in &x.0 {
                match t {
                    TriplesSameSubjectPath::Term {
                        var_or_term,
                        property_list,
                    } => o.n("tss", |o| {
                        o.var_or_term(var_or_term);
                        o.n("pl", |o| o.property_list_path(property_list));
                    }),
                    TriplesSameSubjectPath::Node {
                        triples_node,
                        property_list,
                    } => o.n("tssn", |o| {
                        o.node_path(triples_node);
                        o.opt(property_list, |o, p| o.n("pl", |o| o.property_list_path(p)));
                    }),
                }
            }
        })
    }
    fn property_list_path(&mut self, x: &PropertyListPath) {
        self.n("po", |o| {
            o.verb_path(&x.verb_path_or_simple);
            o.n("objs", |o| {
                for g in &x.object_list_path.0 {
                    o.graph_node_path(g)
                }
            });
        });
        for e in &x.entries {
            self.n("po", |o| {
                o.verb_path(&e.verb_path_or_simple);
                o.objects(&e.object_list);
            })
        }
    }
    fn verb_path(&mut self, x: &VerbPathOrSimple) {
        match x {
            VerbPathOrSimple::Path(p) => self.path(p),
            VerbPathOrSimple::Simple(v) => self.var(v),
        }
    }
    fn graph_node_path(&mut self, x: &GraphNodePath) {
        match x {
            GraphNodePath::VarOrTerm(v) => self.var_or_term(v),
            GraphNodePath::TriplesNodePath(t) => self.node_path(t),
        }
    }
    fn node_path(&mut self, x: &TriplesNodePath) {
        match x {
            TriplesNodePath::CollectionPath(c) => self.n("coll", |o| {
                for g in c {
                    o.graph_node_path(g)
                }
            }),
            TriplesNodePath::BlankNodePropertyListPath(p) => {
                self.n("bpl", |o| o.property_list_path(p))
            }
        }
    }
    fn path(&mut self, x: &PathAlternative) {
        self.n("alt", |o| {
            for s in &x.0 {
                o.n("seq", |o| {
                    for e in &s.0 {
                        let (n, e) = match e {
                            PathEltOrInverse::PathElt(e) => ("elt", e),
                            PathEltOrInverse::Inverse(e) => ("inv", e),
                        };
                        o.n(n, |o| {
                            o.path_primary(&e.path_primary);
                            match e.path_mod {
                                None => o.none(),
                                Some(PathMod::QuestionMark) => o.l("?"),
                                Some(PathMod::Asterisk) => o.l("*"),
                                Some(PathMod::Plus) => o.l("+"),
                            }
                        })
                    }
                })
            }
        })
    }
    fn iri_or_a(&mut self, x: &IriOrA) {
        match x {
            IriOrA::Iri(i) => self.iri(i),
            IriOrA::A => self.l("a"),
        }
    }
    fn path_primary(&mut self, x: &PathPrimary) {
        match x {
            PathPrimary::Iri(i) => self.iri(i),
            PathPrimary::A => self.l("a"),
            PathPrimary::PathNegatedPropertySet(s) => self.n("nps", |o| {
                for p in &s.0 {
                    match &p.0 {
                        IriOrAOrCaret::IriOrA(i) => o.iri_or_a(i),
                        IriOrAOrCaret::Caret(i) => o.n("inv", |o| o.iri_or_a(i)),
                    }
                }
            }),
            PathPrimary::Path(p) => self.n("p", |o| o.path(p)),
        }
    }

    // ---- templates ----
    fn triples(&mut self, x: &[TriplesSameSubject]) {
        for t in x {
            match t {
                TriplesSameSubject::Term {
                    var_or_term,
                    property_list,
                } => self.n("tss", |o| {
                    o.var_or_term(var_or_term);
                    o.n("pl", |o| o.property_list(property_list));
                }),
                TriplesSameSubject::Node {
                    triples_node,
                    property_list,
                } => self.n("tssn", |o| {
                    o.node(triples_node);
                    o.opt(property_list, |o, p| o.n("pl", |o| o.property_list(p)));
                }),
            }
        }
    }
    fn property_list(&mut self, x: &PropertyList) {
        for v in &x.0 {
            self.n("po", |o| {
                match &v.verb {
                    Verb::VarOrIri(v) => o.var_or_iri(v),
                    Verb::A => o.l("a"),
                }
                o.objects(&v.object_list);
            })
        }
    }
    fn objects(&mut self, x: &ObjectList) {
        self.n("objs", |o| {
            for g in &x.0 {
                o.graph_node(g)
            }
        })
    }
    fn graph_node(&mut self, x: &GraphNode) {
        match x {
            GraphNode::VarOrTerm(v) => self.var_or_term(v),
            GraphNode::TriplesNode(t) => self.node(t),
        }
    }
    fn node(&mut self, x: &TriplesNode) {
        match x {
            TriplesNode::Collection(c) => self.n("coll", |o| {
                for g in &c.0 {
                    o.graph_node(g)
                }
            }),
            TriplesNode::BlankNodePropertyList(p) => self.n("bpl", |o| o.property_list(p)),
        }
    }

    // ---- expressions ----
    fn expr(&mut self, x: &Expression) {
        self.n("or", |o| {
            for a in &x.0 {
                o.n("and", |o| {
                    for r in &a.0 {
                        o.n("rel", |o| {
                            o.add(&r.lhs);
                            match &r.rhs {
                                None => o.none(),
                                Some(OpExpression::EQ(e)) => o.op("=", e),
                                Some(OpExpression::NE(e)) => o.op("!=", e),
                                Some(OpExpression::LT(e)) => o.op("<", e),
                                Some(OpExpression::GT(e)) => o.op(">", e),
                                Some(OpExpression::LE(e)) => o.op("<=", e),
                                Some(OpExpression::GE(e)) => o.op(">=", e),
                                Some(OpExpression::IN(l)) => {
                                    o.l("in");
                                    o.expr_list(l)
                                }
                                Some(OpExpression::NIN(l)) => {
                                    o.l("nin");
                                    o.expr_list(l)
                                }
                            }
                        })
                    }
                })
            }
        })
    }
    fn op(&mut self, s: &str, e: &AdditiveExpression) {
        self.l(s);
        self.add(e)
    }
    fn add(&mut self, x: &AdditiveExpression) {
        self.n("add", |o| {
            o.mul(&x.lhs);
            for a in &x.rhs {
                match a {
                    AddExpression::Add(m) => o.n("+", |o| o.mul(m)),
                    AddExpression::Sub(m) => o.n("-", |o| o.mul(m)),
                    // a signed number continues the sum: "?x -1" is "?x - 1"
                    AddExpression::Numeric {
                        numeric,
                        expressions,
                    } => {
                        let n = Self::number(numeric);
                        let neg = n.as_bytes()[1] == b'-';
                        o.n(if neg { "-" } else { "+" }, |o| {
                            o.n("mul", |o| {
                                o.l(if neg {
                                    format!("{}{}", &n[..1], &n[2..])
                                } else {
                                    n.clone()
                                });
                                o.mul_rest(expressions);
                            })
                        })
                    }
                }
            }
        })
    }
    fn mul(&mut self, x: &MultiplicativeExpression) {
        self.n("mul", |o| {
            o.unary(&x.lhs);
            o.mul_rest(&x.rhs);
        })
    }
    fn mul_rest(&mut self, x: &[MultExpression]) {
        for m in x {
            match m {
                MultExpression::Mult(u) => self.n("*", |o| o.unary(u)),
                MultExpression::Div(u) => self.n("/", |o| o.unary(u)),
            }
        }
    }
    fn unary(&mut self, x: &UnaryExpression) {
        match x {
            UnaryExpression::Not(p) => self.n("not", |o| o.primary(p)),
            UnaryExpression::Add(p) => self.n("plus", |o| o.primary(p)),
            UnaryExpression::Sub(p) => self.n("neg", |o| o.primary(p)),
            UnaryExpression::Default(p) => self.primary(p),
        }
    }
    fn primary(&mut self, x: &PrimaryExpression) {
        match x {
            PrimaryExpression::BrackettedExpression(e) => self.n("br", |o| o.expr(e)),
            PrimaryExpression::BuiltInCall(b) => self.builtin(b),
            PrimaryExpression::IriOrFunction(f) => self.n("iof", |o| {
                o.iri(&f.iri);
                o.opt(&f.arg_list, |o, a| o.args(a));
            }),
            PrimaryExpression::RdfLiteral(l) => self.literal(l),
            PrimaryExpression::NumericLiteral(n) => {
                let n = Self::number(n);
                if n.as_bytes()[1] == b'-' {
                    self.n("neg", |o| o.l(format!("{}{}", &n[..1], &n[2..])))
                } else {
                    self.l(n)
                }
            }
            PrimaryExpression::BooleanLiteral(b) => self.boolean(*b),
            PrimaryExpression::Var(v) => self.var(v),
        }
    }
    fn args(&mut self, x: &ArgList) {
        match x {
            ArgList::Nil => self.l("nil"),
            ArgList::Expression {
                distinct,
                expressions,
            } => self.n("args", |o| {
                o.flag(*distinct, "distinct");
                for e in expressions {
                    o.expr(e)
                }
            }),
        }
    }
    fn expr_list(&mut self, x: &ExpressionList) {
        match x {
            ExpressionList::Nil => self.l("nil"),
            ExpressionList::List(es) => self.n("list", |o| {
                for e in es {
                    o.expr(e)
                }
            }),
        }
    }
    fn call(&mut self, x: &FunctionCall) {
        self.n("call", |o| {
            o.iri(&x.iri);
            o.args(&x.args);
        })
    }
    fn f1(&mut self, s: &str, e: &Expression) {
        self.n(s, |o| o.expr(e))
    }
    fn f2(&mut self, s: &str, e: &(Expression, Expression)) {
        self.n(s, |o| {
            o.expr(&e.0);
            o.expr(&e.1);
        })
    }
    fn f0(&mut self, s: &str) {
        self.n(s, |_| ())
    }
    fn f23(&mut self, s: &str, r: &RegexExpression) {
        self.n(s, |o| {
            o.expr(&r.first);
            o.expr(&r.second);
            o.opt(&r.third, |o, e| o.expr(e));
        })
    }
    fn builtin(&mut self, x: &BuiltInCall) {
        use BuiltInCall::*;
        match x {
            Aggregate(a) => self.aggregate(a),
            Str(e) => self.f1("STR", e),
            Lang(e) => self.f1("LANG", e),
            LangMatches(e) => self.f2("LANGMATCHES", e),
            Datatype(e) => self.f1("DATATYPE", e),
            Bound(v) => self.n("BOUND", |o| o.var(v)),
            Iri(e) => self.f1("IRI", e),
            Uri(e) => self.f1("URI", e),
            Bnode(e) => self.n("BNODE", |o| o.opt(e, |o, e| o.expr(e))),
            Rand => self.f0("RAND"),
            Abs(e) => self.f1("ABS", e),
            Ceil(e) => self.f1("CEIL", e),
            Floor(e) => self.f1("FLOOR", e),
            Round(e) => self.f1("ROUND", e),
            Concat(l) => self.n("CONCAT", |o| o.expr_list(l)),
            SubStr(r) => self.f23("SUBSTR", r),
            StrLen(e) => self.f1("STRLEN", e),
            Replace(r) => self.n("REPLACE", |o| {
                o.expr(&r.first);
                o.expr(&r.second);
                o.expr(&r.third);
                o.opt(&r.fourth, |o, e| o.expr(e));
            }),
            UCase(e) => self.f1("UCASE", e),
            LCase(e) => self.f1("LCASE", e),
            EncodeForUri(e) => self.f1("ENCODE_FOR_URI", e),
            Contains(e) => self.f2("CONTAINS", e),
            StrStarts(e) => self.f2("STRSTARTS", e),
            StrEnds(e) => self.f2("STRENDS", e),
            StrBefore(e) => self.f2("STRBEFORE", e),
            StrAfter(e) => self.f2("STRAFTER", e),
            Year(e) => self.f1("YEAR", e),
            Month(e) => self.f1("MONTH", e),
            Day(e) => self.f1("DAY", e),
            Hours(e) => self.f1("HOURS", e),
            Minutes(e) => self.f1("MINUTES", e),
            Seconds(e) => self.f1("SECONDS", e),
            Timezone(e) => self.f1("TIMEZONE", e),
            Tz(e) => self.f1("TZ", e),
            Now => self.f0("NOW"),
            UUID => self.f0("UUID"),
            StrUUID => self.f0("STRUUID"),
            MD5(e) => self.f1("MD5", e),
            SHA1(e) => self.f1("SHA1", e),
            SHA256(e) => self.f1("SHA256", e),
            SHA384(e) => self.f1("SHA384", e),
            SHA512(e) => self.f1("SHA512", e),
            Coalesce(l) => self.n("COALESCE", |o| o.expr_list(l)),
            If((a, b, c)) => self.n("IF", |o| {
                o.expr(a);
                o.expr(b);
                o.expr(c);
            }),
            StrLang(e) => self.f2("STRLANG", e),
            StrDt(e) => self.f2("STRDT", e),
            SameTerm(e) => self.f2("SAMETERM", e),
            IsIri(e) => self.f1("ISIRI", e),
            IsUri(e) => self.f1("ISURI", e),
            IsBlank(e) => self.f1("ISBLANK", e),
            IsLiteral(e) => self.f1("ISLITERAL", e),
            IsNumeric(e) => self.f1("ISNUMERIC", e),
            Regex(r) => self.f23("REGEX", r),
            ExistsFunc(g) => self.n("EXISTS", |o| o.ggp(g)),
            NotExistsFunc(g) => self.n("NOTEXISTS", |o| o.ggp(g)),
        }
    }
    fn distinct(&mut self, s: &str, e: &DistinctExpression) {
        self.n(s, |o| {
            o.flag(e.distinct, "distinct");
            o.expr(&e.expression);
        })
    }
    fn aggregate(&mut self, x: &Aggregate) {
        match x {
            Aggregate::Count(c) => self.n("COUNT", |o| {
                o.flag(c.distinct, "distinct");
                match &c.target {
                    CountTarget::All => o.l("*"),
                    CountTarget::Expr(e) => o.expr(e),
                }
            }),
            Aggregate::Sum(e) => self.distinct("SUM", e),
            Aggregate::Min(e) => self.distinct("MIN", e),
            Aggregate::Max(e) => self.distinct("MAX", e),
            Aggregate::Avg(e) => self.distinct("AVG", e),
            Aggregate::Sample(e) => self.distinct("SAMPLE", e),
            Aggregate::GroupConcat(g) => self.n("GROUP_CONCAT", |o| {
                o.flag(g.expression.distinct, "distinct");
                o.expr(&g.expression.expression);
                o.opt(&g.separator, |o, s| o.l(format!("S{}", s)));
            }),
        }
    }

    // ---- updates ----
    pub fn update(&mut self, x: &Update) {
        self.n("update", |o| {
            o.prologue(&x.prologue);
            o.opt(&x.update_stmt, |o, s| o.statement(s));
            o.opt(&x.inner_update, |o, u| o.update(u));
        })
    }
    fn graph_or_default(&mut self, x: &GraphOrDefault) {
        match x {
            GraphOrDefault::Graph(i) => self.iri(i),
            GraphOrDefault::Default => self.l("DEFAULT"),
        }
    }
    fn graph_ref_all(&mut self, x: &GraphRefAll) {
        match x {
            GraphRefAll::GraphRef(i) => self.iri(i),
            GraphRefAll::Default => self.l("DEFAULT"),
            GraphRefAll::Named => self.l("NAMED"),
            GraphRefAll::All => self.l("ALL"),
        }
    }
    fn from_to(&mut self, s: &str, silent: bool, from: &GraphOrDefault, to: &GraphOrDefault) {
        self.n(s, |o| {
            o.flag(silent, "silent");
            o.graph_or_default(from);
            o.graph_or_default(to);
        })
    }
    fn statement(&mut self, x: &UpdateStatement) {
        match x {
            UpdateStatement::Load(s) => self.n("load", |o| {
                o.flag(s.silent, "silent");
                o.iri(&s.iri);
                o.opt(&s.graph_ref, |o, i| o.iri(i));
            }),
            UpdateStatement::Clear(s) => self.n("clear", |o| {
                o.flag(s.silent, "silent");
                o.graph_ref_all(&s.graph_ref_all);
            }),
            UpdateStatement::Drop(s) => self.n("drop", |o| {
                o.flag(s.silent, "silent");
                o.graph_ref_all(&s.graph_ref_all);
            }),
            UpdateStatement::Create(s) => self.n("create", |o| {
                o.flag(s.silent, "silent");
                o.iri(&s.graph_ref);
            }),
            UpdateStatement::Add(s) => self.from_to("addg", s.silent, &s.from, &s.to),
            UpdateStatement::Move(s) => self.from_to("move", s.silent, &s.from, &s.to),
            UpdateStatement::Copy(s) => self.from_to("copy", s.silent, &s.from, &s.to),
            UpdateStatement::InsertData(q) => self.n("insdata", |o| o.quads(q)),
            UpdateStatement::DeleteData(q) => self.n("deldata", |o| o.quads(q)),
            UpdateStatement::DeleteWhere(q) => self.n("delwhere", |o| o.quads(q)),
            UpdateStatement::Modify(m) => self.n("modify", |o| {
                o.opt(&m.iri, |o, i| o.iri(i));
                match &m.delete_insert {
                    DeleteInsert::DeleteInsert { delete, insert } => {
                        o.quads(delete);
                        o.opt(insert, |o, q| o.quads(q));
                    }
                    DeleteInsert::Insert(q) => {
                        o.none();
                        o.quads(q);
                    }
                }
                o.dataset("using", &m.using_clauses);
                o.ggp(&m.where_group_graph);
            }),
        }
    }
    fn template(&mut self, x: &Option<TriplesTemplate>) {
        if let Some(t) = x {
            if !t.is_empty() {
                self.n("tt", |o| o.triples(t))
            }
        }
    }
    fn quads(&mut self, x: &Quads) {
        self.n("quads", |o| {
            o.template(&x.first_triple);
            for e in &x.entries {
                o.n("gq", |o| {
                    o.var_or_iri(&e.quads_not_triples.var_or_iri);
                    o.template(&e.quads_not_triples.triples_template);
                });
                o.template(&e.triples_template);
            }
        })
    }
}
