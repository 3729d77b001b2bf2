//! Generates plans the text format can express, as protobuf, in the exact form
//! the parser produces ("canonical": explicit emits, required struct
//! nullability, declarations in anchor order, ...).

#![allow(deprecated)]

use std::collections::BTreeSet;

use prost::Message;
use substrait::proto::aggregate_rel::{Grouping, Measure};
use substrait::proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use substrait::proto::expression::if_then::IfClause;
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{
    IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp,
};
use substrait::proto::expression::{
    Cast, FieldReference, IfThen, Literal, ReferenceSegment, RexType, ScalarFunction, nested,
    reference_segment,
};
use substrait::proto::extensions::simple_extension_declaration::{
    ExtensionFunction, ExtensionType, ExtensionTypeVariation, MappingType,
};
use substrait::proto::extensions::{AdvancedExtension, SimpleExtensionDeclaration, SimpleExtensionUrn};
use substrait::proto::fetch_rel::{CountMode, OffsetMode};
use substrait::proto::function_argument::ArgType;
use substrait::proto::plan_rel::RelType as PlanRelType;
use substrait::proto::read_rel::{self, ReadType};
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::{Direct, Emit, EmitKind};
use substrait::proto::sort_field::SortKind;
use substrait::proto::r#type::{self as ty, Kind, Nullability, Parameter, parameter};
use substrait::proto::{
    AggregateFunction, AggregateRel, CrossRel, Expression, ExtensionLeafRel, ExtensionMultiRel,
    ExtensionSingleRel, FetchRel, FilterRel, FunctionArgument, JoinRel, NamedStruct, Plan, PlanRel,
    ProjectRel, ReadRel, Rel, RelCommon, RelRoot, SetRel, SortField, SortRel, Type, Version,
};

use crate::ext;
use crate::ext::{Col, NamedVal, Payload, V, Val, ValList};
use crate::r#gen::Gen;

/// What the generator may use.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub rel_depth: usize,
    pub expr_depth: usize,
    pub ext: bool,
    /// Declarations that clash by name, so references need signatures or anchors.
    pub clashes: bool,
    pub version: bool,
    pub max_cols: usize,
    /// Non-default nullability (`⁉`) on types: readable, but formatting reports it.
    pub unspecified: bool,
    /// Extensions wherever they may stand.
    pub ext_dense: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { rel_depth: 4, expr_depth: 3, ext: true, clashes: true, version: true, max_cols: 4, unspecified: false, ext_dense: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub anchor: u32,
    pub urn: u32,
    pub name: String,
}

impl Decl {
    pub fn base(&self) -> &str {
        self.name.split(':').next().unwrap()
    }
}

/// The declarations in scope of a plan.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Env {
    pub urns: Vec<(u32, String)>,
    pub funcs: Vec<Decl>,
    pub types: Vec<Decl>,
    pub vars: Vec<Decl>,
}

impl Env {
    pub fn of(plan: &Plan) -> Env {
        let mut e = Env::default();
        for u in &plan.extension_urns {
            e.urns.push((u.extension_urn_anchor, u.urn.clone()));
        }
        for d in &plan.extensions {
            match d.mapping_type.as_ref() {
                Some(MappingType::ExtensionFunction(f)) => {
                    e.funcs.push(Decl { anchor: f.function_anchor, urn: f.extension_urn_reference, name: f.name.clone() })
                }
                Some(MappingType::ExtensionType(f)) => {
                    e.types.push(Decl { anchor: f.type_anchor, urn: f.extension_urn_reference, name: f.name.clone() })
                }
                Some(MappingType::ExtensionTypeVariation(f)) => {
                    e.vars.push(Decl { anchor: f.type_variation_anchor, urn: f.extension_urn_reference, name: f.name.clone() })
                }
                None => {}
            }
        }
        e
    }

    /// URNs and declarations in the order the parser lists them.
    pub fn protos(&self) -> (Vec<SimpleExtensionUrn>, Vec<SimpleExtensionDeclaration>) {
        let mut urns = self.urns.clone();
        urns.sort();
        let urns = urns
            .into_iter()
            .map(|(a, u)| SimpleExtensionUrn { extension_urn_anchor: a, urn: u })
            .collect();
        let mut all: Vec<(u32, u8, &Decl)> = Vec::new();
        all.extend(self.funcs.iter().map(|d| (d.anchor, 0, d)));
        all.extend(self.types.iter().map(|d| (d.anchor, 1, d)));
        all.extend(self.vars.iter().map(|d| (d.anchor, 2, d)));
        all.sort_by_key(|x| (x.0, x.1));
        let decls = all
            .into_iter()
            .map(|(anchor, k, d)| SimpleExtensionDeclaration {
                mapping_type: Some(match k {
                    0 => MappingType::ExtensionFunction(ExtensionFunction {
                        extension_urn_reference: d.urn,
                        function_anchor: anchor,
                        name: d.name.clone(),
                    }),
                    1 => MappingType::ExtensionType(ExtensionType {
                        extension_urn_reference: d.urn,
                        type_anchor: anchor,
                        name: d.name.clone(),
                    }),
                    _ => MappingType::ExtensionTypeVariation(ExtensionTypeVariation {
                        extension_urn_reference: d.urn,
                        type_variation_anchor: anchor,
                        name: d.name.clone(),
                    }),
                }),
            })
            .collect();
        (urns, decls)
    }
}

pub const FUNC_BASES: &[&str] = &[
    "add", "equal", "gt", "sum", "count", "lower", "is_null", "x", "f9", "CamelCase", "concat_ws", "nullif", "trueish",
    "true_", "null_x", "falsey", "not", "and", "i64", "list", "limit", "filter", "if_thenx", "u", "date_add", "r_",
];
pub const SIGS: &[&str] = &["", "i64", "i64_i64", "any_any", "str", "u!json_str", "fp64_u!p2_i8", "any1_any1", "dec"];
pub const TYPE_BASES: &[&str] = &[
    "json", "point", "geo_point", "datetime", "i8x", "time2", "dates", "listing", "T", "i640", "uuid4", "interval_years",
    "string_view", "booleans", "u", "map2", "structx", "timestamp_tzs", "precisiontimes",
];
pub const URNS: &[&str] = &[
    "extension:io.substrait:functions_arithmetic", "https://github.com/substrait-io/substrait/blob/main/x.yaml",
    "urn:a", "/path/with,[brackets]=>and#1@2", "x", "'quoted'\"urn\"", "ext:ünï→", "=odd", "a:b:c", "//c",
];

pub fn anchor(g: &mut Gen, used: &mut BTreeSet<u32>) -> u32 {
    loop {
        let a = match g.weighted(&[10, 3, 2, 1]) {
            0 => 1 + g.below(12) as u32,
            1 => g.below(4000) as u32,
            2 => g.choose(&[0, 1, 9, 10, 99, 100, 999, 1000, 65535, i32::MAX as u32, 1 << 31, u32::MAX]),
            _ => g.raw() as u32,
        };
        let mut a = a;
        // A bounded number of retries would not shrink well; walk to a free one.
        while used.contains(&a) {
            a = a.wrapping_add(1);
        }
        used.insert(a);
        return a;
    }
}

pub fn env(g: &mut Gen, cfg: &Cfg) -> Env {
    let mut e = Env::default();
    let mut used = BTreeSet::new();
    for _ in 0..1 + g.many(3) {
        let a = anchor(g, &mut used);
        e.urns.push((a, g.pick(URNS).to_string()));
    }
    let urn = |g: &mut Gen, e: &Env| g.choose(&e.urns).0;
    let mut used = BTreeSet::new();
    let nf = 1 + g.many(7);
    for _ in 0..nf {
        let base = if cfg.clashes && !e.funcs.is_empty() && g.chance(2, 5) {
            e.funcs[g.usize(e.funcs.len())].base().to_string()
        } else {
            g.pick(FUNC_BASES).to_string()
        };
        let name = if g.chance(1, 2) { format!("{base}:{}", g.pick(SIGS)) } else { base };
        if !cfg.clashes && e.funcs.iter().any(|d| d.base() == name.split(':').next().unwrap()) {
            continue;
        }
        let a = anchor(g, &mut used);
        let u = urn(g, &e);
        e.funcs.push(Decl { anchor: a, urn: u, name });
    }
    let mut used = BTreeSet::new();
    for _ in 0..g.count(4) {
        let name = if cfg.clashes && !e.types.is_empty() && g.chance(1, 3) {
            e.types[g.usize(e.types.len())].name.clone()
        } else {
            g.pick(TYPE_BASES).to_string()
        };
        if !cfg.clashes && e.types.iter().any(|d| d.name == name) {
            continue;
        }
        let a = anchor(g, &mut used);
        let u = urn(g, &e);
        e.types.push(Decl { anchor: a, urn: u, name });
    }
    let mut used = BTreeSet::new();
    if g.chance(1, 4) {
        for _ in 0..1 + g.count(2) {
            let a = anchor(g, &mut used);
            let u = urn(g, &e);
            let name = g.pick(TYPE_BASES).to_string();
            e.vars.push(Decl { anchor: a, urn: u, name });
        }
    }
    e
}

pub const REQ: i32 = Nullability::Required as i32;
pub const NUL: i32 = Nullability::Nullable as i32;
pub const UNS: i32 = Nullability::Unspecified as i32;

fn nullability(g: &mut Gen, cfg: &Cfg) -> i32 {
    if cfg.unspecified && g.chance(1, 8) {
        return UNS;
    }
    if g.chance(2, 5) { NUL } else { REQ }
}

pub const SIMPLE_TYPES: usize = 15;

pub fn simple_type(which: usize, n: i32) -> Type {
    macro_rules! k {
        ($v:ident, $t:ident) => {
            Kind::$v(ty::$t { nullability: n, type_variation_reference: 0 })
        };
    }
    let kind = match which {
        0 => k!(I64, I64),
        1 => k!(String, String),
        2 => k!(Bool, Boolean),
        3 => k!(I8, I8),
        4 => k!(I16, I16),
        5 => k!(I32, I32),
        6 => k!(Fp32, Fp32),
        7 => k!(Fp64, Fp64),
        8 => k!(Binary, Binary),
        9 => k!(Timestamp, Timestamp),
        10 => k!(TimestampTz, TimestampTz),
        11 => k!(Date, Date),
        12 => k!(Time, Time),
        13 => k!(IntervalYear, IntervalYear),
        _ => k!(Uuid, Uuid),
    };
    Type { kind: Some(kind) }
}

pub fn typ(g: &mut Gen, cfg: &Cfg, env: &Env, depth: usize) -> Type {
    let compound = if depth > 0 { 1 } else { 0 };
    match g.weighted(&[12, 3, 2 * compound, if env.types.is_empty() { 0 } else { 3 }]) {
        0 => {
            let w = g.usize(SIMPLE_TYPES);
            simple_type(w, nullability(g, cfg))
        }
        1 => {
            let precision = g.below(13) as i32;
            let which = g.usize(4);
            let nullability = nullability(g, cfg);
            let type_variation_reference = 0;
            Type {
                kind: Some(match which {
                    0 => Kind::PrecisionTimestamp(ty::PrecisionTimestamp { precision, nullability, type_variation_reference }),
                    1 => Kind::PrecisionTimestampTz(ty::PrecisionTimestampTz { precision, nullability, type_variation_reference }),
                    2 => Kind::PrecisionTime(ty::PrecisionTime { precision, nullability, type_variation_reference }),
                    _ => Kind::IntervalDay(ty::IntervalDay { precision: Some(precision), nullability, type_variation_reference }),
                }),
            }
        }
        2 => {
            let inner = typ(g, cfg, env, depth - 1);
            Type {
                kind: Some(Kind::List(Box::new(ty::List {
                    r#type: Some(Box::new(inner)),
                    nullability: nullability(g, cfg),
                    type_variation_reference: 0,
                }))),
            }
        }
        _ => {
            let d = g.choose(&env.types);
            let n = if depth > 0 { g.many(3) } else { 0 };
            Type {
                kind: Some(Kind::UserDefined(ty::UserDefined {
                    type_reference: d.anchor,
                    nullability: nullability(g, cfg),
                    type_variation_reference: 0,
                    type_parameters: (0..n)
                        .map(|_| Parameter { parameter: Some(parameter::Parameter::DataType(typ(g, cfg, env, depth - 1))) })
                        .collect(),
                })),
            }
        }
    }
}

pub const STRING_PARTS: &[&str] = &[
    "a", "abc", " ", "0", "_", "'", "\"", "\\", "\n", "\t", "\r", "\0", "\u{1}", "\u{7f}", "\u{85}", "\u{200b}", "é", "e\u{301}",
    "\u{301}", "日本", "🦀", "\u{10ffff}", ",", "]", "[", "=>", "+>", "|>", "(", ")", "$1", "&X", "null", "true", "===", "# ", "+ ",
    "- ", "//", "%", "{}", "\\n", "\\u{41}", "\\'", ":", "::", "i64", "\u{2028}", "\u{feff}", "1.5", ";", "Root[", "'':i64",
];

pub fn string(g: &mut Gen) -> String {
    match g.weighted(&[3, 3, 4, 2]) {
        0 => g.pick(&["abc", "", "x", "hello world"]).to_string(),
        1 => (0..g.many(6)).map(|_| (b'a' + g.below(26) as u8) as char).collect(),
        2 => (0..1 + g.many(6)).map(|_| g.pick(STRING_PARTS).to_string()).collect(),
        _ => {
            let n = 1 + g.count(6);
            (0..n)
                .map(|_| {
                    let max = g.choose(&[0x20u32, 0x80, 0x100, 0x3000, 0x11_0000]);
                    char::from_u32(g.below(max as u64) as u32).unwrap_or('\u{fffd}')
                })
                .collect()
        }
    }
}

pub fn name(g: &mut Gen) -> String {
    match g.weighted(&[8, 3, 2]) {
        0 => g.pick(&["a", "b", "id", "name", "col_1", "X9", "result", "value", "t", "Root", "filter", "null", "true", "i64", "limit", "z_"]).to_string(),
        1 => {
            let mut s = String::from((b'a' + g.below(26) as u8) as char);
            for _ in 0..g.many(6) {
                s.push(*g.pick(&[&'a', &'Q', &'0', &'_', &'z', &'7']));
            }
            s
        }
        _ => string(g),
    }
}

pub fn literal_of(lt: LiteralType, nullable: bool) -> Literal {
    Literal { literal_type: Some(lt), nullable, type_variation_reference: 0 }
}

pub fn f64v(g: &mut Gen) -> f64 {
    match g.weighted(&[3, 3, 2, 3]) {
        0 => g.choose(&[0.0, 1.0, 1.5, -1.0, 0.1, 100.0]),
        1 => g.i64() as f64 / g.choose(&[1.0, 10.0, 3.0, 1000.0, 7.0]),
        2 => g.choose(&[
            -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 9007199254740993.0, 0.1 + 0.2, 1e308, 123456789.12345678,
        ]),
        _ => {
            let v = f64::from_bits(g.raw());
            if v.is_finite() { v } else { 2.5 }
        }
    }
}

pub fn f32v(g: &mut Gen) -> f32 {
    match g.weighted(&[3, 3, 2, 3]) {
        0 => g.choose(&[0.0, 1.0, 1.5, -1.0, 0.1, 100.0]),
        1 => (g.i64() as f64 / g.choose(&[1.0, 10.0, 3.0])) as f32,
        2 => g.choose(&[-0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16777217.0, 1e10, 3.4e38]),
        _ => {
            let v = f32::from_bits(g.raw() as u32);
            if v.is_finite() { v } else { 2.5 }
        }
    }
}

/// Days from the epoch: years -9999 to 99999 are within what is generated;
/// most are ordinary.
pub fn days(g: &mut Gen) -> i32 {
    match g.weighted(&[4, 4, 2, 1]) {
        0 => g.below(40000) as i32,
        1 => g.choose(&[0, -1, 1, 59, 60, 11016, 11017, -25509, 47540, 2932896, -719528, -719162, 10957, 18321, 19782]) + g.below(3) as i32 - 1,
        // year 1..9999
        2 => g.below(3652059) as i32 - 719162,
        // -9999..=99999 or so
        _ => g.below(40_000_000) as i32 - 4_000_000,
    }
}

/// A time of day in units of the given precision.
pub fn time_units(g: &mut Gen, p: i32) -> i64 {
    let unit = 10i64.pow(p as u32);
    let secs = match g.weighted(&[3, 2]) {
        0 => g.below(86400) as i64,
        _ => g.choose(&[0, 1, 59, 60, 3599, 3600, 43200, 86399]),
    };
    let frac = if p == 0 { 0 } else { frac_units(g, unit) };
    secs * unit + frac
}

fn frac_units(g: &mut Gen, unit: i64) -> i64 {
    match g.weighted(&[3, 2, 3]) {
        0 => 0,
        1 => g.choose(&[1, unit - 1, unit / 10, unit / 100, unit / 2, unit / 1000]).min(unit - 1),
        _ => g.below(unit as u64) as i64,
    }
}

/// An instant in units of the given precision, within what a date can show.
pub fn instant(g: &mut Gen, p: i32) -> i64 {
    let unit = 10i64.pow(p as u32);
    let mut day = days(g) as i64;
    // Nanoseconds only reach from 1677 to 2262.
    if p == 9 && !(-100_000..100_000).contains(&day) {
        day %= 100_000;
    }
    day * 86400 * unit + time_units(g, p)
}

pub fn precision(g: &mut Gen) -> i32 {
    g.choose(&[6, 0, 3, 9])
}

pub fn literal(g: &mut Gen, cfg: &Cfg, env: &Env) -> Literal {
    let w = g.weighted(&[6, 5, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 2, 3, 3]);
    literal_kind(g, cfg, env, w)
}

pub fn literal_kind(g: &mut Gen, cfg: &Cfg, env: &Env, w: usize) -> Literal {
    let nullable = g.chance(1, 3);
    let lt = match w {
        0 => LiteralType::I64(g.i64()),
        1 => LiteralType::String(string(g)),
        2 => LiteralType::Boolean(g.bool()),
        3 => LiteralType::I8(g.i64() as i8 as i32),
        4 => LiteralType::I16(g.i64() as i16 as i32),
        5 => LiteralType::I32(g.i64() as i32),
        6 => LiteralType::Fp32(f32v(g)),
        7 => LiteralType::Fp64(f64v(g)),
        8 => LiteralType::Date(days(g)),
        9 => LiteralType::Time(time_units(g, 6)),
        10 => LiteralType::Timestamp(instant(g, 6)),
        11 => {
            let precision = precision(g);
            LiteralType::PrecisionTime(PrecisionTime { precision, value: time_units(g, precision) })
        }
        12 => {
            let precision = precision(g);
            LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision, value: instant(g, precision) })
        }
        13 => {
            let precision = precision(g);
            LiteralType::PrecisionTimestampTz(PrecisionTimestamp { precision, value: instant(g, precision) })
        }
        14 => {
            let p = g.choose(&[6, 0, 3, 9, 12]);
            let small = |g: &mut Gen, m: i64| -> i64 {
                match g.weighted(&[3, 3, 1]) {
                    0 => 0,
                    1 => g.below(200) as i64 - 100,
                    _ => g.choose(&[m, -m, 1, -1]),
                }
            };
            let days = small(g, 3_000_000) as i32;
            let seconds = small(g, 86_400 * 1000) as i32;
            let subseconds = if p == 0 { 0 } else { small(g, 10i64.pow(p as u32) - 1) };
            // Outside this range the value is writable but reported.
            let subseconds = subseconds.clamp(-(10i64.pow(p as u32) - 1), 10i64.pow(p as u32) - 1);
            LiteralType::IntervalDayToSecond(IntervalDayToSecond { days, seconds, subseconds, precision_mode: Some(PrecisionMode::Precision(p)) })
        }
        _ => {
            let t = typ(g, cfg, env, 2);
            return literal_of(LiteralType::Null(t), false);
        }
    };
    literal_of(lt, nullable)
}

pub fn lit_expr(l: Literal) -> Expression {
    Expression { rex_type: Some(RexType::Literal(l)) }
}

pub fn field_expr(i: i32) -> Expression {
    Expression {
        rex_type: Some(RexType::Selection(Box::new(FieldReference {
            reference_type: Some(ReferenceType::DirectReference(ReferenceSegment {
                reference_type: Some(reference_segment::ReferenceType::StructField(Box::new(reference_segment::StructField {
                    field: i,
                    child: None,
                }))),
            })),
            root_type: Some(RootType::RootReference(RootReference {})),
        }))),
    }
}

pub fn func(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize, depth: usize) -> ScalarFunction {
    let d = g.choose(&env.funcs);
    let n = g.many(4);
    ScalarFunction {
        function_reference: d.anchor,
        arguments: (0..n)
            .map(|_| FunctionArgument { arg_type: Some(ArgType::Value(expr(g, cfg, env, width, depth.saturating_sub(1)))) })
            .collect(),
        output_type: Some(typ(g, cfg, env, 2)),
        options: vec![],
        args: vec![],
    }
}

pub fn expr(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize, depth: usize) -> Expression {
    let deep = (depth > 0) as u64;
    let w = g.weighted(&[5, if width > 0 { 6 } else { 0 }, if env.funcs.is_empty() { 0 } else { 6 * deep }, 3 * deep, 2 * deep]);
    match w {
        0 => lit_expr(literal(g, cfg, env)),
        1 => {
            let i = if g.chance(1, 30) { g.choose(&[0, 10, 99, 12345, i32::MAX]) } else { g.usize(width) as i32 };
            field_expr(i)
        }
        2 => Expression { rex_type: Some(RexType::ScalarFunction(func(g, cfg, env, width, depth))) },
        3 => Expression {
            rex_type: Some(RexType::Cast(Box::new(Cast {
                r#type: Some(typ(g, cfg, env, 2)),
                input: Some(Box::new(expr(g, cfg, env, width, depth - 1))),
                failure_behavior: g.below(3) as i32,
            }))),
        },
        _ => {
            let n = 1 + g.many(2);
            Expression {
                rex_type: Some(RexType::IfThen(Box::new(IfThen {
                    ifs: (0..n)
                        .map(|_| IfClause { r#if: Some(expr(g, cfg, env, width, depth - 1)), then: Some(expr(g, cfg, env, width, depth - 1)) })
                        .collect(),
                    r#else: Some(Box::new(expr(g, cfg, env, width, depth - 1))),
                }))),
            }
        }
    }
}

/// The same type with one property changed.
pub fn near_type(g: &mut Gen, t: &Type) -> Type {
    let mut t = t.clone();
    let flip = |n: &mut i32| *n = if *n == NUL { REQ } else { NUL };
    match &mut t.kind {
        Some(Kind::List(l)) if g.bool() => {
            if let Some(x) = &mut l.r#type {
                **x = near_type(g, x);
            }
        }
        Some(Kind::List(l)) => flip(&mut l.nullability),
        Some(Kind::UserDefined(u)) => flip(&mut u.nullability),
        Some(Kind::PrecisionTimestamp(p)) if g.bool() => p.precision = (p.precision + 1) % 10,
        Some(Kind::PrecisionTimestamp(p)) => flip(&mut p.nullability),
        Some(Kind::PrecisionTimestampTz(p)) => flip(&mut p.nullability),
        Some(Kind::PrecisionTime(p)) => flip(&mut p.nullability),
        Some(Kind::IntervalDay(p)) => flip(&mut p.nullability),
        Some(k) => {
            if let Some(i) = (0..SIMPLE_TYPES).find(|&i| simple_type(i, REQ).kind.as_ref() == Some(k)) {
                return simple_type(if g.bool() { i } else { (i + 1) % SIMPLE_TYPES }, NUL);
            }
            if let Some(i) = (0..SIMPLE_TYPES).find(|&i| simple_type(i, NUL).kind.as_ref() == Some(k)) {
                return simple_type(i, REQ);
            }
        }
        None => {}
    }
    t
}

/// An expression that differs from `e` in one small respect (or not at all).
pub fn near(g: &mut Gen, env: &Env, e: &Expression) -> Expression {
    let mut e = e.clone();
    match &mut e.rex_type {
        Some(RexType::Literal(l)) => match &mut l.literal_type {
            Some(LiteralType::Null(t)) => *t = near_type(g, t),
            _ if g.bool() => l.nullable = !l.nullable,
            Some(LiteralType::I64(v)) => {
                let v = *v;
                l.literal_type = Some(if g.bool() { LiteralType::I64(v ^ 1) } else { LiteralType::I32(v as i32) });
            }
            Some(LiteralType::I32(v)) => l.literal_type = Some(LiteralType::I64(*v as i64)),
            Some(LiteralType::I16(v)) => l.literal_type = Some(LiteralType::I32(*v)),
            Some(LiteralType::Fp64(v)) => *v = -*v,
            Some(LiteralType::Fp32(v)) => l.literal_type = Some(LiteralType::Fp64(*v as f64)),
            Some(LiteralType::Boolean(v)) => *v = !*v,
            Some(LiteralType::String(s)) => s.push_str(g.pick(&[" ", "a", "'", "\u{301}"])),
            Some(LiteralType::Timestamp(v)) => {
                l.literal_type = Some(LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: 6, value: *v }));
            }
            Some(LiteralType::PrecisionTimestamp(p)) => l.literal_type = Some(LiteralType::PrecisionTimestampTz(*p)),
            Some(LiteralType::PrecisionTimestampTz(p)) => l.literal_type = Some(LiteralType::PrecisionTimestamp(*p)),
            _ => l.nullable = !l.nullable,
        },
        Some(RexType::ScalarFunction(f)) => match g.usize(4) {
            0 if !f.arguments.is_empty() => {
                let i = g.usize(f.arguments.len());
                if let Some(ArgType::Value(x)) = &mut f.arguments[i].arg_type {
                    *x = near(g, env, x);
                }
            }
            1 if !f.arguments.is_empty() => {
                f.arguments.pop();
            }
            2 => f.function_reference = g.choose(&env.funcs).anchor,
            _ => {
                if let Some(t) = &mut f.output_type {
                    *t = near_type(g, t);
                }
            }
        },
        Some(RexType::Cast(c)) => match g.usize(3) {
            0 => c.failure_behavior = (c.failure_behavior + 1) % 3,
            1 => {
                if let Some(t) = &mut c.r#type {
                    *t = near_type(g, t);
                }
            }
            _ => {
                if let Some(x) = &mut c.input {
                    **x = near(g, env, x);
                }
            }
        },
        Some(RexType::IfThen(i)) => match g.usize(3) {
            0 => {
                if let Some(x) = &mut i.r#else {
                    **x = near(g, env, x);
                }
            }
            1 => {
                let k = g.usize(i.ifs.len());
                if let Some(x) = &mut i.ifs[k].then {
                    *x = near(g, env, x);
                }
            }
            _ => {
                let k = g.usize(i.ifs.len());
                if let Some(x) = &mut i.ifs[k].r#if {
                    *x = near(g, env, x);
                }
            }
        },
        _ => {}
    }
    e
}

/// An expression that is not a bare field reference.
pub fn computed(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize, depth: usize) -> Expression {
    let e = expr(g, cfg, env, width, depth.max(1));
    if matches!(e.rex_type, Some(RexType::Selection(_))) {
        return lit_expr(literal(g, cfg, env));
    }
    e
}

pub fn common(e: EmitKind) -> Option<RelCommon> {
    Some(RelCommon { emit_kind: Some(e), ..Default::default() })
}

pub fn direct() -> Option<RelCommon> {
    common(EmitKind::Direct(Direct {}))
}

/// `Direct` if the mapping is the identity over `width`, else the mapping.
pub fn emit_for(mapping: Vec<i32>, width: usize) -> Option<RelCommon> {
    if mapping.iter().copied().eq(0..width as i32) { direct() } else { common(EmitKind::Emit(Emit { output_mapping: mapping })) }
}

/// An output mapping over `width` columns: identity, subset, permutation,
/// repeats, or nothing.
pub fn mapping(g: &mut Gen, width: usize) -> Vec<i32> {
    match g.weighted(&[5, 2, 2, 1, 2]) {
        0 => (0..width as i32).collect(),
        1 => (0..width as i32).filter(|_| g.bool()).collect(),
        2 => {
            let mut v: Vec<i32> = (0..width as i32).collect();
            for i in (1..v.len()).rev() {
                let j = g.usize(i + 1);
                v.swap(i, j);
            }
            v
        }
        3 => vec![],
        _ => {
            if width == 0 {
                return vec![];
            }
            let n = g.range(1, width + 2);
            (0..n).map(|_| g.usize(width) as i32).collect()
        }
    }
}

pub fn schema(g: &mut Gen, cfg: &Cfg, env: &Env) -> NamedStruct {
    let n = if g.chance(1, 20) { 0 } else { g.range(1, cfg.max_cols) };
    let n = if n == cfg.max_cols { n + g.many(0) } else { n };
    NamedStruct {
        names: (0..n).map(|_| name(g)).collect(),
        r#struct: Some(ty::Struct {
            types: (0..n).map(|_| typ(g, cfg, env, 2)).collect(),
            type_variation_reference: 0,
            nullability: REQ,
        }),
    }
}

pub fn ext_value(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize, depth: usize) -> Val {
    let v = match g.weighted(&[4, 4, 3, 2, 2, 4, 3, if depth > 0 { 3 } else { 0 }]) {
        0 => V::Int(g.i64()),
        1 => V::Str(string(g)),
        2 => V::FloatBits(f64v(g).to_bits()),
        3 => V::Bool(g.bool()),
        4 => V::Null(true),
        5 => V::Expr(ext_expr(g, cfg, env, width)),
        6 => V::Enum(g.pick(&["A", "HASH", "x_1", "null", "true", "CamelCase", "i64"]).to_string()),
        _ => {
            let n = g.many(3);
            V::Tuple(ValList { items: (0..n).map(|_| ext_value(g, cfg, env, width, depth - 1)).collect() })
        }
    };
    Val { v: Some(v) }
}

/// An expression argument that has no shorter spelling as a plain value.
pub fn ext_expr(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize) -> Expression {
    let e = expr(g, cfg, env, width.max(2), 2);
    if let Some(RexType::Literal(l)) = &e.rex_type
        && !l.nullable
        && matches!(l.literal_type, Some(LiteralType::I64(_) | LiteralType::String(_) | LiteralType::Boolean(_) | LiteralType::Fp64(_)))
    {
        return field_expr(g.below(5) as i32);
    }
    e
}

pub fn payload(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize, columns: bool) -> Payload {
    let np = g.many(3);
    let positional = (0..np).map(|_| ext_value(g, cfg, env, width, 2)).collect();
    let mut named = vec![];
    if g.chance(3, 5) {
        for n in ext::ARG_NAMES {
            if g.chance(1, 7) {
                named.push(NamedVal { name: n.to_string(), val: Some(ext_value(g, cfg, env, width, 2)) });
            }
        }
    }
    let mut cols = vec![];
    if columns {
        for _ in 0..g.many(4) {
            cols.push(match g.weighted(&[3, 3, 2]) {
                0 => Col { name: String::new(), ty: None, expr: Some(field_expr(g.usize(width.max(1)) as i32)) },
                1 => Col { name: name(g), ty: Some(typ(g, cfg, env, 2)), expr: None },
                _ => {
                    // `null:i64` and `true:boolean?` read as named columns (a
                    // known finding).
                    let mut e = expr(g, cfg, env, width, 2);
                    if let Some(RexType::Literal(Literal { literal_type: Some(LiteralType::Null(_) | LiteralType::Boolean(_)), .. })) = e.rex_type {
                        e = field_expr(0);
                    }
                    Col { name: String::new(), ty: None, expr: Some(e) }
                }
            });
        }
    }
    Payload { positional, named, cols }
}

pub fn advanced(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize) -> Option<AdvancedExtension> {
    if !cfg.ext || !(if cfg.ext_dense { g.chance(3, 5) } else { g.chance(1, 5) }) {
        return None;
    }
    let enhancement = g.bool().then(|| {
        if cfg.ext_dense && g.chance(1, 6) {
            return pass_through(g);
        }
        let (_, u) = g.choose(ext::ENH_NAMES);
        ext::any(u, &payload(g, cfg, env, width, false))
    });
    let no = if enhancement.is_none() { 1 + g.many(2) } else { g.many(2) };
    let optimization = (0..no)
        .map(|_| {
            let (_, u) = g.choose(ext::OPT_NAMES);
            ext::any(u, &payload(g, cfg, env, width, false))
        })
        .collect();
    Some(AdvancedExtension { enhancement, optimization })
}

fn pass_through(g: &mut Gen) -> pbjson_types::Any {
    let p = ext::PassThrough { note: string(g) };
    pbjson_types::Any { type_url: ext::url(ext::PASS.1), value: p.encode_to_vec().into() }
}

/// The detail of an extension relation over inputs of `width` columns in all,
/// and how many columns it has.
fn rel_detail(g: &mut Gen, cfg: &Cfg, env: &Env, width: usize) -> (pbjson_types::Any, usize) {
    if cfg.ext_dense && g.chance(2, 5) {
        return (pass_through(g), width);
    }
    let (_, u) = g.choose(ext::REL_NAMES);
    let p = payload(g, cfg, env, width, true);
    (ext::any(u, &p), p.cols.len())
}

pub fn rel_of(t: RelType) -> Rel {
    Rel { rel_type: Some(t) }
}

pub fn read(g: &mut Gen, cfg: &Cfg, env: &Env) -> (Rel, usize) {
    let which = g.weighted(&[6, 3, if cfg.ext_dense { 5 } else if cfg.ext { 2 } else { 0 }]);
    read_kind(g, cfg, env, which)
}

/// 0: a named table, 1: a virtual table, 2: an extension table.
pub fn read_kind(g: &mut Gen, cfg: &Cfg, env: &Env, which: usize) -> (Rel, usize) {
    let base = schema(g, cfg, env);
    let width = base.names.len();
    let (read_type, com, out, filter) = match which {
        0 => {
            let n = 1 + g.many(2);
            let names = (0..n).map(|_| name(g)).collect();
            let rt = ReadType::NamedTable(read_rel::NamedTable { names, advanced_extension: None });
            if g.chance(1, 4) {
                let m = mapping(g, width);
                let out = m.len();
                (rt, common(EmitKind::Emit(Emit { output_mapping: m })), out, None)
            } else {
                (rt, direct(), width, None)
            }
        }
        1 => {
            let rows = if g.chance(1, 4) { g.range(2, 6) } else { g.many(3) };
            let expressions = (0..rows)
                .map(|_| {
                    let n = if g.chance(1, 8) { g.count(3) } else { width };
                    nested::Struct { fields: (0..n).map(|_| expr(g, cfg, env, 0, 1)).collect() }
                })
                .collect();
            let filter = g.chance(1, 3).then(|| Box::new(expr(g, cfg, env, width, 2)));
            (ReadType::VirtualTable(read_rel::VirtualTable { expressions, values: vec![] }), direct(), width, filter)
        }
        _ => {
            let (_, u) = g.choose(ext::TAB_NAMES);
            let detail = ext::any(u, &payload(g, cfg, env, width, false));
            (ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(detail) }), direct(), width, None)
        }
    };
    let advanced_extension = advanced(g, cfg, env, width);
    (
        rel_of(RelType::Read(Box::new(ReadRel {
            common: com,
            base_schema: Some(base),
            filter,
            read_type: Some(read_type),
            advanced_extension,
            ..Default::default()
        }))),
        out,
    )
}

pub fn join_width(t: i32, l: usize, r: usize) -> usize {
    use substrait::proto::join_rel::JoinType::*;
    use substrait::proto::join_rel::JoinType;
    match JoinType::try_from(t).unwrap() {
        Unspecified | Inner | Outer | Left | Right => l + r,
        LeftSemi | LeftAnti | LeftSingle => l,
        RightSemi | RightAnti | RightSingle => r,
        LeftMark => l + 1,
        RightMark => r + 1,
    }
}

/// A relation tree and the number of columns it emits.
pub fn rel(g: &mut Gen, cfg: &Cfg, env: &Env, depth: usize) -> (Rel, usize) {
    if depth == 0 || g.chance(1, 8) {
        if cfg.ext && (if cfg.ext_dense { g.chance(1, 3) } else { g.chance(1, 8) }) {
            return ext_leaf(g, cfg, env);
        }
        return read(g, cfg, env);
    }
    let w = g.weighted(&[5, 5, 4, 3, 3, 4, 2, 2, if cfg.ext_dense { 16 } else if cfg.ext { 3 } else { 0 }]);
    rel_kind(g, cfg, env, depth, w)
}

fn ext_leaf(g: &mut Gen, cfg: &Cfg, env: &Env) -> (Rel, usize) {
    let (detail, n) = rel_detail(g, cfg, env, 0);
    (rel_of(RelType::ExtensionLeaf(ExtensionLeafRel { common: direct(), detail: Some(detail) })), n)
}

pub fn aggregate(g: &mut Gen, cfg: &Cfg, env: &Env, input: Rel, width: usize) -> (AggregateRel, usize) {
    // Distinct grouping expressions, listed in the order the sets first use them.
    let nexpr = g.many(4);
    let mut pool: Vec<Expression> = vec![];
    for _ in 0..nexpr {
        let e = if !pool.is_empty() && g.chance(1, 5) {
            let e = g.choose(&pool);
            near(g, env, &e)
        } else if width > 0 && g.chance(1, 2) {
            field_expr(g.usize(width) as i32)
        } else {
            expr(g, cfg, env, width, 2)
        };
        if !pool.iter().any(|p| p.encode_to_vec() == e.encode_to_vec()) {
            pool.push(e);
        }
    }
    let nsets = if pool.is_empty() { g.range(1, 2) } else { 1 + g.many(3) };
    let mut used: Vec<usize> = vec![];
    let mut groupings = vec![];
    for _ in 0..nsets {
        let mut refs = vec![];
        if !pool.is_empty() {
            let n = g.count(pool.len() + 1);
            for _ in 0..n {
                let i = g.usize(pool.len());
                let at = match used.iter().position(|&u| u == i) {
                    Some(p) => p,
                    None => {
                        used.push(i);
                        used.len() - 1
                    }
                };
                refs.push(at as u32);
            }
        }
        groupings.push(Grouping { grouping_expressions: vec![], expression_references: refs });
    }
    let grouping_expressions: Vec<Expression> = used.iter().map(|&i| pool[i].clone()).collect();
    let mut measures = vec![];
    if !env.funcs.is_empty() {
        for _ in 0..g.many(3) {
            let f = func(g, cfg, env, width, 2);
            let as_expr = Expression { rex_type: Some(RexType::ScalarFunction(f.clone())) };
            if grouping_expressions.iter().any(|e| e.encode_to_vec() == as_expr.encode_to_vec()) {
                continue;
            }
            measures.push(Measure {
                measure: Some(AggregateFunction {
                    function_reference: f.function_reference,
                    arguments: f.arguments,
                    output_type: f.output_type,
                    ..Default::default()
                }),
                filter: None,
            });
        }
    }
    // Every measure once and in order, grouping columns anywhere.
    let ng = grouping_expressions.len();
    let total = ng + measures.len();
    let m = if g.chance(1, 2) {
        (0..total as i32).collect()
    } else {
        interleave(g, ng, measures.len())
    };
    let out = m.len();
    (
        AggregateRel {
            common: emit_for(m, total),
            input: Some(Box::new(input)),
            groupings,
            measures,
            grouping_expressions,
            advanced_extension: advanced(g, cfg, env, width),
        },
        out,
    )
}

/// A mapping that mentions `base..base+exprs` once each in order, with
/// references below `base` anywhere between them.
fn interleave(g: &mut Gen, base: usize, exprs: usize) -> Vec<i32> {
    let mut m = vec![];
    for e in 0..=exprs {
        if base > 0 {
            for _ in 0..g.count(2) {
                m.push(g.usize(base) as i32);
            }
        }
        if e < exprs {
            m.push((base + e) as i32);
        }
    }
    m
}

pub fn rel_kind(g: &mut Gen, cfg: &Cfg, env: &Env, depth: usize, which: usize) -> (Rel, usize) {
    let d = depth.saturating_sub(1);
    match which {
        0 => {
            let (input, w) = rel(g, cfg, env, d);
            let m = mapping(g, w);
            let out = m.len();
            let r = FilterRel {
                common: emit_for(m, w),
                condition: Some(Box::new(expr(g, cfg, env, w, cfg.expr_depth))),
                input: Some(Box::new(input)),
                advanced_extension: advanced(g, cfg, env, w),
            };
            (rel_of(RelType::Filter(Box::new(r))), out)
        }
        1 => {
            let (input, w) = rel(g, cfg, env, d);
            let n = g.many(4);
            let expressions: Vec<_> = (0..n).map(|_| computed(g, cfg, env, w, cfg.expr_depth)).collect();
            let total = w + n;
            let m = if g.chance(1, 3) { (0..total as i32).collect() } else { interleave(g, w, n) };
            let out = m.len();
            let r = ProjectRel {
                common: emit_for(m, total),
                input: Some(Box::new(input)),
                expressions,
                advanced_extension: advanced(g, cfg, env, w),
            };
            (rel_of(RelType::Project(Box::new(r))), out)
        }
        2 => {
            let (input, w) = rel(g, cfg, env, d);
            let (r, out) = aggregate(g, cfg, env, input, w);
            (rel_of(RelType::Aggregate(Box::new(r))), out)
        }
        3 => {
            let (input, w) = rel(g, cfg, env, d);
            let n = g.many(3);
            let sorts = (0..n)
                .map(|_| SortField { expr: Some(expr(g, cfg, env, w, 2)), sort_kind: Some(SortKind::Direction(1 + g.below(5) as i32)) })
                .collect();
            let m = mapping(g, w);
            let out = m.len();
            let r = SortRel { common: emit_for(m, w), input: Some(Box::new(input)), sorts, advanced_extension: advanced(g, cfg, env, w) };
            (rel_of(RelType::Sort(Box::new(r))), out)
        }
        4 => {
            let (input, w) = rel(g, cfg, env, d);
            let m = mapping(g, w);
            let out = m.len();
            let count_mode = g.chance(3, 4).then(|| CountMode::CountExpr(Box::new(fetch_expr(g, cfg, env, w))));
            let offset_mode = g.chance(1, 2).then(|| OffsetMode::OffsetExpr(Box::new(fetch_expr(g, cfg, env, w))));
            let r = FetchRel { common: emit_for(m, w), input: Some(Box::new(input)), advanced_extension: advanced(g, cfg, env, w), count_mode, offset_mode };
            (rel_of(RelType::Fetch(Box::new(r))), out)
        }
        5 => {
            let (left, lw) = rel(g, cfg, env, d);
            let (right, rw) = rel(g, cfg, env, d.min(2));
            let t = 1 + g.below(12) as i32;
            let w = join_width(t, lw, rw);
            let m = mapping(g, w);
            let out = m.len();
            let r = JoinRel {
                common: emit_for(m, w),
                left: Some(Box::new(left)),
                right: Some(Box::new(right)),
                expression: Some(Box::new(expr(g, cfg, env, lw + rw, cfg.expr_depth))),
                post_join_filter: g.chance(1, 3).then(|| Box::new(expr(g, cfg, env, w, 2))),
                r#type: t,
                advanced_extension: advanced(g, cfg, env, w),
            };
            (rel_of(RelType::Join(Box::new(r))), out)
        }
        6 => {
            // Inputs of a set operation must agree on their width.
            let n = g.range(2, 4);
            let n = if n == 4 { n + g.many(0) } else { n };
            let (first, w) = rel(g, cfg, env, d.min(2));
            let mut inputs = vec![first];
            for _ in 1..n {
                let (r, rw) = rel(g, cfg, env, d.min(1));
                inputs.push(widen(g, cfg, env, r, rw, w));
            }
            let m = mapping(g, w);
            let out = m.len();
            let r = SetRel { common: emit_for(m, w), inputs, op: g.choose(&[6, 5, 1, 7, 2, 3, 8, 4]), advanced_extension: advanced(g, cfg, env, w) };
            (rel_of(RelType::Set(r)), out)
        }
        7 => {
            let (left, lw) = rel(g, cfg, env, d);
            let (right, rw) = rel(g, cfg, env, d.min(2));
            let m = mapping(g, lw + rw);
            let out = m.len();
            let r = CrossRel {
                common: emit_for(m, lw + rw),
                left: Some(Box::new(left)),
                right: Some(Box::new(right)),
                advanced_extension: advanced(g, cfg, env, lw + rw),
            };
            (rel_of(RelType::Cross(Box::new(r))), out)
        }
        _ => match g.weighted(&[2, 3, 3]) {
            0 => ext_leaf(g, cfg, env),
            1 => {
                let (input, w) = rel(g, cfg, env, d);
                let (detail, n) = rel_detail(g, cfg, env, w);
                let r = ExtensionSingleRel { common: direct(), input: Some(Box::new(input)), detail: Some(detail) };
                (rel_of(RelType::ExtensionSingle(Box::new(r))), n)
            }
            _ => {
                let k = g.many(3);
                let mut total = 0;
                let inputs = (0..k)
                    .map(|_| {
                        let (r, w) = rel(g, cfg, env, d.min(2));
                        total += w;
                        r
                    })
                    .collect();
                let (detail, n) = rel_detail(g, cfg, env, total);
                (rel_of(RelType::ExtensionMulti(ExtensionMultiRel { common: direct(), inputs, detail: Some(detail) })), n)
            }
        },
    }
}

fn fetch_expr(g: &mut Gen, cfg: &Cfg, env: &Env, w: usize) -> Expression {
    if g.chance(2, 3) {
        let v = g.i64();
        return lit_expr(literal_of(LiteralType::I64(v.checked_abs().unwrap_or(0)), false));
    }
    if g.chance(1, 12) {
        let v = g.i64();
        return lit_expr(literal_of(LiteralType::I64(v.checked_neg().unwrap_or(v).min(v)), false));
    }
    expr(g, cfg, env, w, 2)
}

/// Wrap `r` so that it has `want` columns.
fn widen(g: &mut Gen, cfg: &Cfg, env: &Env, r: Rel, have: usize, want: usize) -> Rel {
    if have == want {
        return r;
    }
    let keep = have.min(want);
    let add = want - keep;
    let expressions: Vec<_> = (0..add).map(|_| computed(g, cfg, env, have, 1)).collect();
    let m: Vec<i32> = (0..keep as i32).chain((0..add).map(|i| (have + i) as i32)).collect();
    rel_of(RelType::Project(Box::new(ProjectRel {
        common: emit_for(m, have + add),
        input: Some(Box::new(r)),
        expressions,
        advanced_extension: None,
    })))
}

pub fn version(g: &mut Gen) -> Version {
    let num = |g: &mut Gen| match g.weighted(&[3, 1]) {
        0 => g.below(100) as u32,
        _ => g.choose(&[0, 1, u32::MAX, 1000, 65536]),
    };
    let mut v = Version {
        major_number: num(g),
        minor_number: num(g),
        patch_number: num(g),
        producer: if g.bool() { g.pick(&["test", "my producer 1.2", "a: b", "git_hash: x", "prod # 1", "=== Plan", "ünï", "x  y"]).to_string() } else { String::new() },
        git_hash: if g.bool() { g.pick(&["abc123", "0123456789abcdef0123456789abcdef01234567", "dead beef"]).to_string() } else { String::new() },
    };
    if v == Version::default() {
        v.minor_number = 1;
    }
    v
}

/// A small relation below many others.
fn tall(g: &mut Gen, cfg: &Cfg, env: &Env) -> (Rel, usize) {
    let cfg = &Cfg { max_cols: cfg.max_cols.min(3), ..cfg.clone() };
    let (mut r, mut w) = rel(g, cfg, env, 1);
    for _ in 0..g.range(12, 30) {
        let input = Some(Box::new(r));
        let short = |w: usize| emit_for((0..w.min(4) as i32).collect(), w);
        let t = match g.weighted(&[4, 2, 2, 1, 1]) {
            0 => RelType::Filter(Box::new(FilterRel { common: short(w), condition: Some(Box::new(expr(g, cfg, env, w, 0))), input, advanced_extension: advanced(g, cfg, env, w) })),
            1 => RelType::Sort(Box::new(SortRel { common: short(w), input, sorts: vec![], advanced_extension: advanced(g, cfg, env, w) })),
            2 => {
                let count_mode = Some(CountMode::CountExpr(Box::new(fetch_expr(g, cfg, env, w))));
                RelType::Fetch(Box::new(FetchRel { common: short(w), input, count_mode, offset_mode: None, advanced_extension: None }))
            }
            k => {
                let (other, ow) = rel(g, cfg, env, 0);
                let other = Some(Box::new(other));
                w += ow;
                let (left, right) = if k == 3 { (input, other) } else { (other, input) };
                RelType::Cross(Box::new(CrossRel { common: short(w), left, right, advanced_extension: None }))
            }
        };
        w = w.min(4);
        r = rel_of(t);
    }
    (r, w)
}

pub fn plan(g: &mut Gen, cfg: &Cfg) -> Plan {
    let mut env = env(g, cfg);
    if g.chance(1, 15) {
        // No declarations, or no extensions at all.
        let urns = if g.bool() { std::mem::take(&mut env.urns) } else { vec![] };
        env = Env { urns, ..Env::default() };
    }
    // Now and then one that is deep, or one with many columns.
    let (deep, broad) = if cfg.rel_depth > 2 { (g.chance(1, 30), g.chance(1, 40)) } else { (false, false) };
    let many;
    let cfg = if broad {
        many = Cfg { max_cols: g.range(10, 15), rel_depth: 2, ..cfg.clone() };
        &many
    } else {
        cfg
    };
    let n = if g.chance(1, 6) { if g.chance(1, 5) { g.range(4, 7) } else { g.range(2, 3) } } else { 1 };
    let mut relations = vec![];
    for _ in 0..n {
        let depth = if n > 3 { g.range(0, cfg.rel_depth.min(1)) } else if n > 1 { cfg.rel_depth.min(2) } else { g.range(0, cfg.rel_depth) };
        let (r, w) = if deep && n == 1 { tall(g, cfg, &env) } else { rel(g, cfg, &env, depth) };
        let rel_type = if g.chance(3, 5) {
            let k = if g.chance(1, 10) { g.count(3) } else { w };
            PlanRelType::Root(RelRoot { input: Some(r), names: (0..k).map(|_| name(g)).collect() })
        } else {
            PlanRelType::Rel(r)
        };
        relations.push(PlanRel { rel_type: Some(rel_type) });
    }
    let (extension_urns, extensions) = env.protos();
    Plan {
        version: (cfg.version && g.chance(1, 3)).then(|| version(g)),
        extension_urns,
        extensions,
        relations,
        ..Default::default()
    }
}

/// What a plan exercises, for the class histogram.
pub fn features(plan: &Plan) -> Vec<&'static str> {
    let mut f = BTreeSet::new();
    fn adv(a: &Option<AdvancedExtension>, f: &mut BTreeSet<&'static str>) {
        if a.is_some() {
            f.insert("addendum");
        }
    }
    fn com(c: &Option<RelCommon>, f: &mut BTreeSet<&'static str>) {
        if let Some(RelCommon { emit_kind: Some(EmitKind::Emit(_)), .. }) = c {
            f.insert("emit");
        }
    }
    fn walk(r: &Rel, f: &mut BTreeSet<&'static str>) {
        match r.rel_type.as_ref() {
            Some(RelType::Read(r)) => {
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                f.insert(match r.read_type {
                    Some(ReadType::VirtualTable(_)) => "Read:Virtual",
                    Some(ReadType::ExtensionTable(_)) => "Read:Extension",
                    _ => "Read",
                });
            }
            Some(RelType::Filter(r)) => {
                f.insert("Filter");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::Project(r)) => {
                f.insert("Project");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::Aggregate(r)) => {
                f.insert("Aggregate");
                if r.groupings.len() > 1 {
                    f.insert("grouping sets");
                }
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::Sort(r)) => {
                f.insert("Sort");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::Fetch(r)) => {
                f.insert("Fetch");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::Join(r)) => {
                f.insert("Join");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.left.iter().chain(r.right.iter()).for_each(|i| walk(i, f));
            }
            Some(RelType::Cross(r)) => {
                f.insert("Cross");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.left.iter().chain(r.right.iter()).for_each(|i| walk(i, f));
            }
            Some(RelType::Set(r)) => {
                f.insert("Set");
                com(&r.common, f);
                adv(&r.advanced_extension, f);
                r.inputs.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::ExtensionLeaf(_)) => {
                f.insert("ExtensionLeaf");
            }
            Some(RelType::ExtensionSingle(r)) => {
                f.insert("ExtensionSingle");
                r.input.iter().for_each(|i| walk(i, f));
            }
            Some(RelType::ExtensionMulti(r)) => {
                f.insert("ExtensionMulti");
                r.inputs.iter().for_each(|i| walk(i, f));
            }
            _ => {
                f.insert("other relation");
            }
        }
    }
    for r in &plan.relations {
        match r.rel_type.as_ref() {
            Some(PlanRelType::Rel(r)) => walk(r, &mut f),
            Some(PlanRelType::Root(r)) => {
                f.insert("Root");
                r.input.iter().for_each(|i| walk(i, &mut f));
            }
            None => {}
        }
    }
    if plan.relations.len() > 1 {
        f.insert("several trees");
    }
    if plan.version.is_some() {
        f.insert("Version");
    }
    f.into_iter().collect()
}
