//! Places an expression or a type at every position of a plan where one can
//! stand, with unrelated neighbours.

#![allow(deprecated)]

use substrait::proto::aggregate_rel::{Grouping, Measure};
use substrait::proto::expression::if_then::IfClause;
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::expression::{Cast, IfThen, Literal, RexType, ScalarFunction, nested};
use substrait::proto::extensions::AdvancedExtension;
use substrait::proto::fetch_rel::{CountMode, OffsetMode};
use substrait::proto::function_argument::ArgType;
use substrait::proto::plan_rel::RelType as PlanRelType;
use substrait::proto::read_rel::{self, ReadType};
use substrait::proto::rel::RelType;
use substrait::proto::sort_field::SortKind;
use substrait::proto::r#type::{self as ty, Kind, Parameter, parameter};
use substrait::proto::{
    AggregateFunction, AggregateRel, Expression, ExtensionLeafRel, ExtensionSingleRel, FetchRel, FilterRel, FunctionArgument, JoinRel,
    NamedStruct, Plan, PlanRel, ProjectRel, ReadRel, Rel, RelRoot, SortField, SortRel, Type,
};

use crate::ext::{self, Col, NamedVal, Payload, V, Val, ValList};
use crate::r#gen::Gen;
use crate::model::{self, Cfg, Decl, Env, REQ, direct, emit_for, field_expr, lit_expr, rel_of};
use crate::render;

pub const EXPR_SLOTS: &[&str] = &[
    "filter", "project", "sort", "limit", "offset", "join condition", "post filter", "function argument", "cast input", "condition", "then", "else",
    "table cell", "table filter", "extension positional", "extension named", "extension tuple", "extension column", "enhancement argument",
    "optimization argument", "extension table argument", "grouping", "measure argument",
];

pub const TYPE_SLOTS: &[&str] = &[
    "column", "table column", "extension table column", "cast", "function result", "typed null", "type parameter", "list item", "extension column", "measure result",
    "cast in extension argument", "null in table cell",
];

pub const HOLE: &str = "@@SLOT@@";
pub const TYPE_HOLE: &str = "zzslot";

pub fn string_lit(s: &str) -> Expression {
    lit_expr(Literal { literal_type: Some(LiteralType::String(s.into())), nullable: false, type_variation_reference: 0 })
}

pub fn value(e: &Expression) -> Val {
    Val { v: Some(ext::plain(e).unwrap_or_else(|| V::Expr(e.clone()))) }
}

pub struct Place {
    pub env: Env,
    pub slot: usize,
    before: Vec<Expression>,
    after: Vec<Expression>,
    types: Vec<Type>,
    wrap: usize,
    kind: usize,
    cols: usize,
}

pub fn slot_env() -> Env {
    Env {
        urns: vec![(1, "urn:a".into())],
        funcs: vec![
            Decl { anchor: 1, urn: 1, name: "add".into() },
            Decl { anchor: 2, urn: 1, name: "sum:i64".into() },
            Decl { anchor: 3, urn: 1, name: "sum:fp64".into() },
        ],
        types: vec![
            Decl { anchor: 1, urn: 1, name: "json".into() },
            Decl { anchor: 2, urn: 1, name: "point".into() },
            Decl { anchor: 3, urn: 1, name: "point".into() },
            Decl { anchor: 7, urn: 1, name: "i8x".into() },
            Decl { anchor: 9, urn: 1, name: TYPE_HOLE.into() },
        ],
        vars: vec![],
    }
}

impl Place {
    pub fn new(g: &mut Gen, env: Env, slot: usize) -> Place {
        let cfg = Cfg { expr_depth: 1, ext: false, ..Cfg::default() };
        let all = env;
        let mut env = all.clone();
        env.types.retain(|d| d.name != TYPE_HOLE);
        let n = g.usize(3);
        let before = (0..n).map(|_| model::computed(g, &cfg, &env, 2, 1)).collect();
        let n = g.usize(3);
        let after = (0..n).map(|_| model::computed(g, &cfg, &env, 2, 1)).collect();
        let types = (0..4).map(|_| model::typ(g, &cfg, &env, 1)).collect();
        Place { env: all, slot, before, after, types, wrap: g.usize(4), kind: g.usize(6), cols: g.range(1, 3) }
    }

    fn read(&self, types: Vec<Type>, name: &str) -> Rel {
        rel_of(RelType::Read(Box::new(ReadRel {
            common: direct(),
            base_schema: Some(schema(types)),
            read_type: Some(ReadType::NamedTable(read_rel::NamedTable { names: vec![name.into()], advanced_extension: None })),
            ..Default::default()
        })))
    }

    fn base(&self) -> Rel {
        self.read(self.types[..self.cols].to_vec(), "t")
    }

    fn around(&self, e: Expression) -> Vec<Expression> {
        self.before.iter().cloned().chain([e]).chain(self.after.iter().cloned()).collect()
    }

    fn call(&self, args: Vec<Expression>, out: Type) -> ScalarFunction {
        ScalarFunction {
            function_reference: self.env.funcs[self.kind % self.env.funcs.len()].anchor,
            arguments: args.into_iter().map(|e| FunctionArgument { arg_type: Some(ArgType::Value(e)) }).collect(),
            output_type: Some(out),
            options: vec![],
            args: vec![],
        }
    }

    fn filter(&self, e: Expression) -> Rel {
        rel_of(RelType::Filter(Box::new(FilterRel {
            common: direct(),
            condition: Some(Box::new(e)),
            input: Some(Box::new(self.base())),
            advanced_extension: None,
        })))
    }

    fn values(&self, e: Expression) -> Vec<Val> {
        self.around(e).iter().map(value).collect()
    }

    fn payload(&self, e: Expression, how: usize) -> Payload {
        match how {
            0 => Payload { positional: self.values(e), ..Default::default() },
            1 => Payload {
                positional: self.before.iter().map(value).collect(),
                named: vec![
                    NamedVal { name: "a".into(), val: Some(Val { v: Some(V::Int(1)) }) },
                    NamedVal { name: "limit".into(), val: Some(value(&e)) },
                ],
                cols: vec![],
            },
            _ => Payload {
                positional: vec![Val { v: Some(V::Tuple(ValList { items: self.values(e) })) }],
                ..Default::default()
            },
        }
    }

    fn ext(&self, p: Payload) -> Rel {
        let detail = Some(ext::any("RelA", &p));
        if self.kind.is_multiple_of(2) {
            rel_of(RelType::ExtensionLeaf(ExtensionLeafRel { common: direct(), detail }))
        } else {
            rel_of(RelType::ExtensionSingle(Box::new(ExtensionSingleRel { common: direct(), input: Some(Box::new(self.base())), detail })))
        }
    }

    fn addendum(&self, p: Payload, enh: bool) -> Rel {
        let adv = if enh {
            AdvancedExtension { enhancement: Some(ext::any("EnhA", &p)), optimization: vec![] }
        } else {
            AdvancedExtension { enhancement: None, optimization: vec![ext::any("OptA", &p)] }
        };
        let mut r = self.filter(field_expr(0));
        if let Some(RelType::Filter(f)) = &mut r.rel_type {
            f.advanced_extension = Some(adv);
        }
        r
    }

    fn aggregate(&self, groups: Vec<Expression>, measures: Vec<ScalarFunction>) -> Rel {
        let total = groups.len() + measures.len();
        rel_of(RelType::Aggregate(Box::new(AggregateRel {
            common: emit_for((0..total as i32).collect(), total),
            input: Some(Box::new(self.base())),
            groupings: vec![Grouping { grouping_expressions: vec![], expression_references: (0..groups.len() as u32).collect() }],
            measures: measures
                .into_iter()
                .map(|f| Measure {
                    measure: Some(AggregateFunction {
                        function_reference: f.function_reference,
                        arguments: f.arguments,
                        output_type: f.output_type,
                        ..Default::default()
                    }),
                    filter: None,
                })
                .collect(),
            grouping_expressions: groups,
            advanced_extension: None,
        })))
    }

    fn finish(&self, r: Rel) -> Plan {
        let w = render::width(&r);
        let (r, w) = match self.wrap {
            1 => (
                rel_of(RelType::Filter(Box::new(FilterRel {
                    common: direct(),
                    condition: Some(Box::new(field_expr(0))),
                    input: Some(Box::new(r)),
                    advanced_extension: None,
                }))),
                w,
            ),
            2 => (
                rel_of(RelType::Project(Box::new(ProjectRel {
                    common: emit_for(vec![w as i32], w + 1),
                    expressions: vec![string_lit("x")],
                    input: Some(Box::new(r)),
                    advanced_extension: None,
                }))),
                1,
            ),
            _ => (r, w),
        };
        let rel_type = if self.wrap == 3 {
            PlanRelType::Rel(r)
        } else {
            PlanRelType::Root(RelRoot { input: Some(r), names: (0..w).map(|i| format!("c{i}")).collect() })
        };
        let (extension_urns, extensions) = self.env.protos();
        Plan { extension_urns, extensions, relations: vec![PlanRel { rel_type: Some(rel_type) }], ..Default::default() }
    }

    /// The plan with `e` in the place, or nothing where the text of the place
    /// would not mean that expression.
    pub fn expr(&self, e: Expression) -> Option<Plan> {
        let lit = |k: fn(&LiteralType) -> bool| matches!(&e.rex_type, Some(RexType::Literal(Literal { literal_type: Some(l), .. })) if k(l));
        let out = self.types[3].clone();
        let r = match EXPR_SLOTS[self.slot] {
            "filter" => self.filter(e),
            "project" => {
                let ex = self.around(e);
                let w = self.cols;
                let m: Vec<i32> = (0..ex.len() as i32).map(|i| w as i32 + i).collect();
                rel_of(RelType::Project(Box::new(ProjectRel {
                    common: emit_for(m, w + ex.len()),
                    input: Some(Box::new(self.base())),
                    expressions: ex,
                    advanced_extension: None,
                })))
            }
            "sort" => rel_of(RelType::Sort(Box::new(SortRel {
                common: direct(),
                input: Some(Box::new(self.base())),
                sorts: self.around(e).into_iter().map(|e| SortField { expr: Some(e), sort_kind: Some(SortKind::Direction(1)) }).collect(),
                advanced_extension: None,
            }))),
            s @ ("limit" | "offset") => {
                // A bare negative integer is not a limit.
                if lit(|l| matches!(l, LiteralType::I64(v) if *v < 0)) {
                    return None;
                }
                let (mut count_mode, mut offset_mode) = (None, None);
                if s == "limit" {
                    count_mode = Some(CountMode::CountExpr(Box::new(e)));
                } else {
                    offset_mode = Some(OffsetMode::OffsetExpr(Box::new(e)));
                }
                rel_of(RelType::Fetch(Box::new(FetchRel { common: direct(), input: Some(Box::new(self.base())), advanced_extension: None, count_mode, offset_mode })))
            }
            s @ ("join condition" | "post filter") => {
                let (c, p) = if s == "post filter" { (field_expr(0), Some(Box::new(e))) } else { (e, None) };
                rel_of(RelType::Join(Box::new(JoinRel {
                    common: direct(),
                    left: Some(Box::new(self.base())),
                    right: Some(Box::new(self.read(self.types[..1].to_vec(), "r"))),
                    expression: Some(Box::new(c)),
                    post_join_filter: p,
                    r#type: 1 + self.kind as i32,
                    advanced_extension: None,
                })))
            }
            "function argument" => {
                let f = self.call(self.around(e), out);
                self.filter(Expression { rex_type: Some(RexType::ScalarFunction(f)) })
            }
            "cast input" => self.filter(Expression {
                rex_type: Some(RexType::Cast(Box::new(Cast { r#type: Some(out), input: Some(Box::new(e)), failure_behavior: (self.kind % 3) as i32 }))),
            }),
            s @ ("condition" | "then" | "else") => {
                let (mut a, mut b, mut c) = (field_expr(0), field_expr(1), string_lit("z"));
                match s {
                    "condition" => a = e,
                    "then" => b = e,
                    _ => c = e,
                }
                let mut ifs = vec![IfClause { r#if: Some(a), then: Some(b) }];
                for x in &self.after {
                    ifs.push(IfClause { r#if: Some(x.clone()), then: Some(field_expr(0)) });
                }
                self.filter(Expression { rex_type: Some(RexType::IfThen(Box::new(IfThen { ifs, r#else: Some(Box::new(c)) }))) })
            }
            s @ ("table cell" | "table filter") => {
                let (cell, filter) = if s == "table cell" { (e, None) } else { (string_lit("y"), Some(Box::new(e))) };
                let mut rows = vec![nested::Struct { fields: self.before.clone() }; self.kind % 4];
                rows.push(nested::Struct { fields: self.around(cell) });
                rel_of(RelType::Read(Box::new(ReadRel {
                    common: direct(),
                    base_schema: Some(schema(self.types[..self.cols].to_vec())),
                    filter,
                    read_type: Some(ReadType::VirtualTable(read_rel::VirtualTable { expressions: rows, values: vec![] })),
                    ..Default::default()
                })))
            }
            "extension positional" => self.ext(self.payload(e, 0)),
            "extension named" => self.ext(self.payload(e, 1)),
            "extension tuple" => self.ext(self.payload(e, 2)),
            "extension column" => {
                // A known finding (see DESIGN.md).
                if lit(|l| matches!(l, LiteralType::Null(_) | LiteralType::Boolean(_))) {
                    return None;
                }
                let col = |e: &Expression| Col { name: String::new(), ty: None, expr: Some(e.clone()) };
                self.ext(Payload { cols: vec![col(&field_expr(0)), col(&e), col(&field_expr(1))], ..Default::default() })
            }
            "enhancement argument" => self.addendum(self.payload(e, self.kind % 3), true),
            "optimization argument" => self.addendum(self.payload(e, self.kind % 3), false),
            "extension table argument" => rel_of(RelType::Read(Box::new(ReadRel {
                common: direct(),
                base_schema: Some(schema(self.types[..self.cols].to_vec())),
                read_type: Some(ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(ext::any("TabA", &self.payload(e, self.kind % 3))) })),
                ..Default::default()
            }))),
            "grouping" => self.aggregate(vec![e], vec![self.call(vec![string_lit("a measure")], out)]),
            "measure argument" => self.aggregate(vec![field_expr(0)], vec![self.call(self.around(e), out)]),
            s => unreachable!("{s}"),
        };
        Some(self.finish(r))
    }

    pub fn typ(&self, t: Type) -> Plan {
        let cols = || {
            let mut v = self.types[..self.cols].to_vec();
            v.insert(self.kind % (self.cols + 1), t.clone());
            v
        };
        let cast = |t: Type| Expression {
            rex_type: Some(RexType::Cast(Box::new(Cast { r#type: Some(t), input: Some(Box::new(field_expr(0))), failure_behavior: (self.kind % 3) as i32 }))),
        };
        let null = |t: Type| lit_expr(Literal { literal_type: Some(LiteralType::Null(t)), nullable: false, type_variation_reference: 0 });
        let r = match TYPE_SLOTS[self.slot] {
            "column" => self.read(cols(), "t"),
            "table column" => rel_of(RelType::Read(Box::new(ReadRel {
                common: direct(),
                base_schema: Some(schema(cols())),
                read_type: Some(ReadType::VirtualTable(read_rel::VirtualTable { expressions: vec![nested::Struct { fields: self.before.clone() }; self.kind], values: vec![] })),
                ..Default::default()
            }))),
            "extension table column" => rel_of(RelType::Read(Box::new(ReadRel {
                common: direct(),
                base_schema: Some(schema(cols())),
                read_type: Some(ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(ext::any("TabA", &Payload::default())) })),
                ..Default::default()
            }))),
            "cast" => self.filter(cast(t)),
            "function result" => {
                let f = self.call(self.before.clone(), t);
                self.filter(Expression { rex_type: Some(RexType::ScalarFunction(f)) })
            }
            "typed null" => self.filter(null(t)),
            "type parameter" => {
                let p = |t: Type| Parameter { parameter: Some(parameter::Parameter::DataType(t)) };
                let mut type_parameters: Vec<_> = self.types[..self.cols - 1].iter().cloned().map(p).collect();
                type_parameters.insert(self.kind % self.cols, p(t));
                self.filter(cast(Type {
                    kind: Some(Kind::UserDefined(ty::UserDefined { type_reference: self.env.types.iter().find(|d| d.name != TYPE_HOLE).unwrap().anchor, nullability: 1 + (self.kind % 2) as i32, type_variation_reference: 0, type_parameters })),
                }))
            }
            "list item" => self.filter(cast(Type {
                kind: Some(Kind::List(Box::new(ty::List { r#type: Some(Box::new(t)), nullability: 1 + (self.kind % 2) as i32, type_variation_reference: 0 }))),
            })),
            "extension column" => {
                let col = |t: Type| Col { name: "n".into(), ty: Some(t), expr: None };
                self.ext(Payload { cols: cols().into_iter().map(col).collect(), ..Default::default() })
            }
            "measure result" => self.aggregate(vec![field_expr(0)], vec![self.call(vec![field_expr(0)], t)]),
            "cast in extension argument" => self.addendum(self.payload(cast(t), self.kind % 3), true),
            "null in table cell" => rel_of(RelType::Read(Box::new(ReadRel {
                common: direct(),
                base_schema: Some(schema(self.types[..1].to_vec())),
                read_type: Some(ReadType::VirtualTable(read_rel::VirtualTable { expressions: vec![nested::Struct { fields: vec![null(t), string_lit("x")] }; 1], values: vec![] })),
                ..Default::default()
            }))),
            s => unreachable!("{s}"),
        };
        self.finish(r)
    }

    /// The text with `s` where the expression stands.
    pub fn expr_with(&self, s: &str) -> String {
        let t = render::canonical(&self.expr(string_lit(HOLE)).expect("a string fits everywhere"));
        t.replace(&format!("'{HOLE}'"), s)
    }

    pub fn type_with(&self, s: &str) -> String {
        let hole = Type {
            kind: Some(Kind::UserDefined(ty::UserDefined { type_reference: self.env.types.iter().find(|d| d.name == TYPE_HOLE).unwrap().anchor, nullability: REQ, type_variation_reference: 0, type_parameters: vec![] })),
        };
        let t = render::canonical(&self.typ(hole));
        let (head, body) = t.split_once("=== Plan").expect("plan section");
        format!("{head}=== Plan{}", body.replacen(TYPE_HOLE, s, usize::MAX))
    }
}

fn schema(types: Vec<Type>) -> NamedStruct {
    NamedStruct {
        names: (0..types.len()).map(|i| format!("n{i}")).collect(),
        r#struct: Some(ty::Struct { types, type_variation_reference: 0, nullability: REQ }),
    }
}
