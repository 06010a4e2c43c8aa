//! Calls of the helper functions: one function name and its arguments, answered by a list of strings.
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::Sign;
use nom_sparql::call::BuiltInCall;
use nom_sparql::clauses::LimitOffsetClause;
use nom_sparql::data::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::expression::functions::Constraint;
use nom_sparql::literal::StringLiteral;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::parser::sparql_query;
use nom_sparql::path::PathMod;
use nom_sparql::prologue::PrefixDecl;
use nom_sparql::quads::*;
use nom_sparql::query::SparqlQuery;
use nom_sparql::triple::TriplesSameSubject;
use nom_sparql::var::*;

fn string_literal(a: &[&str]) -> StringLiteral {
    match a[0] {
        "simple" => StringLiteral::Simple(a[1].into()),
        "typed" => StringLiteral::Typed(a[1].into()),
        _ => StringLiteral::Language((a[1].into(), a[2].into())),
    }
}
fn yes(b: bool) -> String {
    if b { "yes" } else { "no" }.into()
}
fn iri(s: &str) -> Iri {
    Iri::Iri(s.into())
}
fn show_iri(i: &Iri) -> String {
    match i {
        Iri::Iri(s) => format!("I{}", s),
        Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
            format!("P{}:{}", pn_prefix.as_deref().unwrap_or("-"), pn_local)
        }
        Iri::PrefixedName(PrefixedName::PnameNS(p)) => format!("N{}", p.as_deref().unwrap_or("-")),
    }
}
fn option(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        Some(s.to_string())
    }
}
fn var(s: &str) -> Var {
    if let Some(n) = s.strip_prefix('$') {
        Var::Dollar(n.into())
    } else {
        Var::QMark(s.trim_start_matches('?').into())
    }
}
fn show_var(v: &Var) -> String {
    match v {
        Var::QMark(n) => format!("?{}", n),
        Var::Dollar(n) => format!("${}", n),
    }
}
fn template(s: &str) -> Vec<TriplesSameSubject> {
    vec![TriplesSameSubject::Term {
        var_or_term: VarOrTerm::Var(var(s)),
        property_list: PropertyList(vec![]),
    }]
}
fn template_opt(s: &str) -> Option<Vec<TriplesSameSubject>> {
    option(s).map(|s| template(&s))
}
fn show_template(t: &Option<Vec<TriplesSameSubject>>) -> String {
    match t {
        None => "-".into(),
        Some(t) => t
            .iter()
            .map(|t| match t {
                TriplesSameSubject::Term { var_or_term: VarOrTerm::Var(v), .. } => show_var(v),
                _ => "other".into(),
            })
            .collect::<Vec<_>>()
            .join(" "),
    }
}
fn graph_ref_all(s: &str) -> GraphRefAll {
    match s {
        "DEFAULT" => GraphRefAll::Default,
        "NAMED" => GraphRefAll::Named,
        "ALL" => GraphRefAll::All,
        s => GraphRefAll::GraphRef(iri(s)),
    }
}
fn show_graph_ref_all(g: &GraphRefAll) -> String {
    match g {
        GraphRefAll::Default => "DEFAULT".into(),
        GraphRefAll::Named => "NAMED".into(),
        GraphRefAll::All => "ALL".into(),
        GraphRefAll::GraphRef(i) => show_iri(i),
    }
}
fn number(s: &str) -> Option<u64> {
    s.parse().ok()
}
fn show_limit(l: &LimitOffsetClause) -> Vec<String> {
    let o = |x: &Option<u64>| x.map(|n| n.to_string()).unwrap_or_else(|| "-".into());
    match l {
        LimitOffsetClause::LimitOffset { limit, offset } => {
            vec!["limit first".into(), limit.to_string(), o(offset)]
        }
        LimitOffsetClause::OffsetLimit { offset, limit } => {
            vec!["offset first".into(), offset.to_string(), o(limit)]
        }
    }
}
fn show_literal(l: &RdfLiteral) -> Vec<String> {
    vec![
        l.literal.clone(),
        match &l.descriptor {
            None => "-".into(),
            Some(RdfLiteralDescriptor::LangTag(t)) => format!("L{}", t),
            Some(RdfLiteralDescriptor::IriRef(i)) => show_iri(i),
        },
    ]
}

/// The aggregate of `ASK { FILTER <text> }`.
fn aggregate_of(text: &str) -> Option<Aggregate> {
    let q = format!("ASK {{ FILTER {} }}", text);
    match sparql_query(&q) {
        Ok(("", SparqlQuery::Ask(a))) => match a.where_clause {
            GroupGraphPattern::GroupGraphPatternSub(g) => {
                match g.graph_pattern_and_triples.into_iter().next()?.graph_pattern {
                    GraphPatternNotTriples::Filter(Constraint::BuiltInCall(BuiltInCall::Aggregate(a))) => Some(a),
                    _ => None,
                }
            }
            _ => None,
        },
        _ => None,
    }
}

fn built(a: &[&str]) -> Aggregate {
    let d = a[1] == "distinct";
    let e = DistinctExpression {
        distinct: d,
        expression: Expression(vec![]),
    };
    match a[0] {
        "COUNT" => Aggregate::Count(Count {
            distinct: d,
            target: if a[2] == "*" {
                CountTarget::All
            } else {
                CountTarget::Expr(Box::new(Expression(vec![])))
            },
        }),
        "SUM" => Aggregate::Sum(e),
        "MIN" => Aggregate::Min(e),
        "MAX" => Aggregate::Max(e),
        "AVG" => Aggregate::Avg(e),
        "SAMPLE" => Aggregate::Sample(e),
        _ => Aggregate::GroupConcat(GroupConcat {
            expression: e,
            separator: option(a[2]),
        }),
    }
}

pub fn call(text: &str) -> Vec<String> {
    let a: Vec<&str> = text.split('\u{1f}').collect();
    let (f, a) = (a[0], &a[1..]);
    match f {
        "compatible_arg" => vec![yes(string_literal(&a[..3]).compatible_arg(&string_literal(&a[3..])))],
        "is_distinct" => vec![yes(built(a).is_distinct())],
        "is_distinct of" => match aggregate_of(a[0]) {
            Some(x) => vec![yes(x.is_distinct())],
            None => vec!["not an aggregate".into()],
        },
        "Sign" => match a[0].parse::<Sign>() {
            Ok(s) => vec![
                if s == Sign::POS { "POS" } else { "NEG" }.into(),
                s.to_string(),
                s.as_ref().to_string(),
                yes(s.to_string().parse::<Sign>() == Ok(s)),
            ],
            Err(()) => vec!["refused".into()],
        },
        "sign" => {
            let s = if a[0] == "POS" { Sign::POS } else { Sign::NEG };
            vec![s.to_string(), s.as_ref().to_string(), format!("{}{}", s, 1), yes(s.as_ref().parse::<Sign>() == Ok(s))]
        }
        "Sign::default" => vec![if Sign::default() == Sign::POS { "POS" } else { "NEG" }.into()],
        "PathMod" => match a[0].parse::<PathMod>() {
            Ok(m) => vec![match m {
                PathMod::QuestionMark => "QuestionMark",
                PathMod::Asterisk => "Asterisk",
                PathMod::Plus => "Plus",
            }
            .into()],
            Err(()) => vec!["refused".into()],
        },
        "PrefixDecl" => {
            let p = PrefixDecl::new(option(a[0]), a[1].into());
            vec![p.pname_ns.unwrap_or_else(|| "-".into()), p.iri_ref]
        }
        "InlineDataOneVar" => {
            let d = InlineDataOneVar::new(var(a[0]), a[1..].iter().map(|s| DataBlockValue::Iri(iri(s))).collect());
            let mut o = vec![show_var(&d.var)];
            o.extend(d.values.iter().map(show_value));
            o
        }
        "InlineDataFull" => {
            let d = InlineDataFull::new(
                a[0].split_whitespace().map(var).collect(),
                a[1..]
                    .iter()
                    .map(|r| r.split_whitespace().map(|s| DataBlockValue::Iri(iri(s))).collect())
                    .collect(),
            );
            let mut o: Vec<String> = vec![d.vars.iter().map(show_var).collect::<Vec<_>>().join(" ")];
            o.extend(d.data_block_values.iter().map(|r| r.iter().map(show_value).collect::<Vec<_>>().join(" ")));
            o
        }
        "VerbList" => {
            let verb = if a[0] == "a" {
                Verb::A
            } else if a[0].starts_with(|c| c == '?' || c == '$') {
                Verb::VarOrIri(VarOrIri::Var(var(a[0])))
            } else {
                Verb::VarOrIri(VarOrIri::Iri(iri(a[0])))
            };
            let objs = a[1..].iter().map(|s| GraphNode::VarOrTerm(VarOrTerm::Var(var(s)))).collect();
            let v = VerbList::new(verb, ObjectList(objs));
            let mut o = vec![match &v.verb {
                Verb::A => "a".into(),
                Verb::VarOrIri(VarOrIri::Var(v)) => show_var(v),
                Verb::VarOrIri(VarOrIri::Iri(i)) => show_iri(i),
            }];
            o.extend(v.object_list.0.iter().map(|g| match g {
                GraphNode::VarOrTerm(VarOrTerm::Var(v)) => show_var(v),
                _ => "other".into(),
            }));
            o
        }
        "QuadsNotTriples" => {
            let q = QuadsNotTriples::new(VarOrIri::Iri(iri(a[0])), template_opt(a[1]));
            vec![show_voi(&q.var_or_iri), show_template(&q.triples_template)]
        }
        "QuadsEntry" => {
            let q = QuadsEntry::new(QuadsNotTriples::new(VarOrIri::Var(var(a[0])), template_opt(a[1])), template_opt(a[2]));
            vec![
                show_voi(&q.quads_not_triples.var_or_iri),
                show_template(&q.quads_not_triples.triples_template),
                show_template(&q.triples_template),
            ]
        }
        "Quads" => {
            let e = |s: &&str| QuadsEntry::new(QuadsNotTriples::new(VarOrIri::Iri(iri(s)), None), None);
            let q = Quads::new(template_opt(a[0]), a[1..].iter().map(e).collect());
            let mut o = vec![show_template(&q.first_triple)];
            o.extend(q.entries.iter().map(|e| show_voi(&e.quads_not_triples.var_or_iri)));
            o
        }
        "LoadStatement" => {
            let l = LoadStatement::new(iri(a[0]), a[1] == "yes", option(a[2]).map(|s| iri(&s)));
            vec![
                show_iri(&l.iri),
                yes(l.silent),
                l.graph_ref.as_ref().map(show_iri).unwrap_or_else(|| "-".into()),
            ]
        }
        "ClearStatement" => {
            let c = ClearStatement::new(a[0] == "yes", graph_ref_all(a[1]));
            vec![yes(c.silent), show_graph_ref_all(&c.graph_ref_all)]
        }
        "DropStatement" => {
            let c = DropStatement::new(a[0] == "yes", graph_ref_all(a[1]));
            vec![yes(c.silent), show_graph_ref_all(&c.graph_ref_all)]
        }
        "CreateStatement" => {
            let c = CreateStatement::new(a[0] == "yes", iri(a[1]));
            vec![yes(c.silent), show_iri(&c.graph_ref)]
        }
        "limit_offset" => show_limit(&LimitOffsetClause::limit_offset(number(a[0]).expect("number"), number(a[1]))),
        "offset_limit" => show_limit(&LimitOffsetClause::offset_limit(number(a[0]).expect("number"), number(a[1]))),
        "RdfLiteral::new" => {
            let d = match a[1] {
                "lang" => RdfLiteralDescriptor::LangTag(a[2].into()),
                _ => RdfLiteralDescriptor::IriRef(iri(a[2])),
            };
            show_literal(&RdfLiteral::new(a[0], d))
        }
        "RdfLiteral::literal" => show_literal(&RdfLiteral::literal(a[0])),
        "Iri::iri_ref" => vec![show_iri(&Iri::iri_ref(a[0]))],
        "Iri::prefixed_name" => vec![show_iri(&Iri::prefixed_name(match a[0] {
            "name" => PrefixedName::PnameLN {
                pn_prefix: option(a[1]),
                pn_local: a[2].into(),
            },
            _ => PrefixedName::PnameNS(option(a[1])),
        }))],
        _ => vec!["unknown function".into()],
    }
}
fn show_value(v: &DataBlockValue) -> String {
    match v {
        DataBlockValue::Iri(i) => show_iri(i),
        _ => "other".into(),
    }
}
fn show_voi(v: &VarOrIri) -> String {
    match v {
        VarOrIri::Var(v) => show_var(v),
        VarOrIri::Iri(i) => show_iri(i),
    }
}
