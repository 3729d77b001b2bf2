//! Extensions: argument values, access by handlers, the registry, attachment.

use std::cell::RefCell;
use std::collections::BTreeSet;

use prost::Message;
use substrait::proto::rel::RelType;
use substrait::proto::{
    ExtensionLeafRel, ExtensionMultiRel, ExtensionSingleRel, FilterRel, NamedStruct, Plan, PlanRel, ReadRel, Rel, plan_rel, read_rel, r#type as ty,
};
use substrait_explain::OutputOptions;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn, ExtensionContext, ExtensionError,
    ExtensionProtoConvert, ExtensionRegistry, ExtensionType, ExtensionValue, RegistrationError, TupleValue,
};

use super::core::{parse_with, same_plan, text_diff};
use crate::ext::{self, Col, NamedVal, Payload, V, Val, ValList, exact, from_val, plain};
use crate::r#gen::Gen;
use crate::model::{self, Cfg, Env};
use crate::render::{self, Show, W};
use crate::runner::{Case, Fail, Prop, R, sut};
use crate::{ensure, fail};

// ---------------------------------------------------------------- values

thread_local! {
    static NAMES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// An extension that keeps its arguments with their exact kinds. It asks for
/// the names the case at hand uses.
#[derive(Clone, PartialEq, Debug)]
struct Probe(Payload);

const PROBE_URL: &str = "type.googleapis.com/sxcheck.Probe";

impl AnyConvertible for Probe {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(PROBE_URL.to_string(), self.0.encode_to_vec()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Payload::decode(any.value).map(Probe).map_err(ExtensionError::DecodeFailed)
    }
    fn type_url() -> String {
        PROBE_URL.into()
    }
}

impl Explainable for Probe {
    fn name() -> &'static str {
        "Probe"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let names = NAMES.with(|n| n.borrow().clone());
        Ok(Probe(Payload {
            positional: args.positional().iter().map(exact).collect(),
            named: names.iter().filter_map(|n| args.get_named_arg(n).map(|v| NamedVal { name: n.clone(), val: Some(exact(v)) })).collect(),
            cols: args.output_columns().iter().map(column).collect(),
        }))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        self.0.args()
    }
}

fn column(c: &ExtensionColumn) -> Col {
    match c {
        ExtensionColumn::Named { name, r#type } => Col { name: name.clone(), ty: Some(r#type.clone()), expr: None },
        ExtensionColumn::Expr(e) => Col { name: String::new(), ty: None, expr: Some(e.to_proto()) },
    }
}

fn register_all<T: substrait_explain::extensions::registry::Extension>(r: &mut ExtensionRegistry) {
    r.register_relation::<T>().expect("register");
    r.register_extension_table::<T>().expect("register");
    r.register_enhancement::<T>().expect("register");
    r.register_optimization::<T>().expect("register");
}

thread_local! {
    static PROBES: ExtensionRegistry = {
        let mut r = ExtensionRegistry::new();
        register_all::<Probe>(&mut r);
        register_all::<Prog>(&mut r);
        r
    };
}

/// Texts that look like a value of another kind.
const LOOKALIKES: &[&str] = &[
    "", "null", "true", "false", "1", "-1", "1.5", "1e3", "NaN", "inf", "&A", "$0", "()", "(1,)", "'", "''", "\"", "\\", "\\'", "_", "a=b", "=>", "]", "i64", "1:i64", ":", ",",
    "if_then", " ", "2020-01-01", "\n", "!{x}", "{", "//", "#1", "add(1, 2)",
];

fn value(g: &mut Gen, cfg: &Cfg, env: &Env, depth: usize) -> Val {
    let v = match g.weighted(&[3, 3, 3, 2, 2, 3, 4, 4, if depth > 0 { 4 } else { 0 }]) {
        0 => V::Int(g.i64()),
        1 => V::Str(if g.bool() { g.pick(LOOKALIKES).to_string() } else { model::string(g) }),
        2 => V::FloatBits(
            match g.weighted(&[2, 3]) {
                0 => model::f64v(g),
                _ => g.choose(&[
                    0.0,
                    -0.0,
                    1.0,
                    -1.0,
                    1e15,
                    1e16,
                    1e17,
                    1e300,
                    -1e-300,
                    f64::MAX,
                    f64::MIN,
                    f64::MIN_POSITIVE,
                    f64::EPSILON,
                    5e-324,
                    9007199254740993.0,
                    9223372036854775807.0,
                    0.1 + 0.2,
                    100.0,
                ]),
            }
            .to_bits(),
        ),
        3 => V::Bool(g.bool()),
        4 => V::Null(true),
        5 => V::Enum(
            match g.usize(4) {
                0 => g.pick(&["null", "true", "false", "i64", "if_then", "e", "E1", "inf", "NaN", "A", "Null", "NULL", "True", "False", "None", "TRUE", "Infinity", "u", "x0", "list"]).to_string(),
                1 => g.pick(&["HASH", "CamelCase", "snake_case", "x_1", "Root", "Z9_"]).to_string(),
                2 => {
                    let n = g.range(0, 12);
                    let mut s = g.pick(&["a", "b", "N", "T", "f", "z", "Q"]).to_string();
                    for _ in 0..n {
                        s.push_str(g.pick(&["a", "u", "l", "_", "0", "9", "Z", "e", "r", "__", "Inner", "x"]));
                    }
                    s
                }
                _ => "a".to_string(),
            },
        ),
        6 => V::Expr(model::lit_expr(model::literal(g, cfg, env))),
        7 => V::Expr(model::expr(g, cfg, env, 4, 2)),
        _ => {
            let n = g.weighted(&[2, 3, 3, 2]);
            let n = if n == 3 { n + g.many(0) } else { n };
            V::Tuple(ValList { items: (0..n).map(|_| value(g, cfg, env, depth - 1)).collect() })
        }
    };
    Val { v: Some(v) }
}

fn values(g: &mut Gen, cfg: &Cfg, env: &Env, cols: bool) -> Payload {
    let base = model::payload(g, cfg, env, 3, cols);
    let positional = (0..g.many(4)).map(|_| value(g, cfg, env, 3)).collect();
    let mut seen = BTreeSet::new();
    let mut named = vec![];
    for _ in 0..g.many(5) {
        let name = match g.usize(4) {
            0 => g.pick(ext::ARG_NAMES).to_string(),
            1 => g.pick(LOOKALIKES).to_string(),
            _ => model::name(g),
        };
        if seen.insert(name.clone()) {
            named.push(NamedVal { name, val: Some(value(g, cfg, env, 3)) });
        }
    }
    Payload { positional, named, cols: base.cols }
}

fn table(name: &str, cols: usize) -> Rel {
    let mut r = render::canonical_read(name);
    if let Some(RelType::Read(r)) = &mut r.rel_type {
        r.base_schema = Some(NamedStruct {
            names: (0..cols).map(|i| format!("c{i}")).collect(),
            r#struct: Some(ty::Struct { types: vec![model::simple_type(0, model::REQ); cols], type_variation_reference: 0, nullability: model::REQ }),
        });
    }
    r
}

const PLACES: &[&str] = &["ExtensionLeaf", "ExtensionSingle", "ExtensionMulti", "Ext", "Enh", "Opt"];

/// A small plan with `detail` at the given place, and a function that writes
/// its text around the written arguments.
fn placed(env: &Env, place: usize, detail: pbjson_types::Any) -> Plan {
    use substrait::proto::extensions::AdvancedExtension;
    let detail = Some(detail);
    let rel = match place {
        0 => RelType::ExtensionLeaf(ExtensionLeafRel { common: model::direct(), detail }),
        1 => RelType::ExtensionSingle(Box::new(ExtensionSingleRel { common: model::direct(), input: Some(Box::new(table("t", 3))), detail })),
        2 => RelType::ExtensionMulti(ExtensionMultiRel { common: model::direct(), inputs: vec![table("t", 1), table("u", 2)], detail }),
        3 => {
            let Some(RelType::Read(r)) = table("t", 2).rel_type else { unreachable!() };
            RelType::Read(Box::new(ReadRel { read_type: Some(read_rel::ReadType::ExtensionTable(read_rel::ExtensionTable { detail })), ..*r }))
        }
        4 => RelType::Filter(Box::new(FilterRel {
            common: model::direct(),
            input: Some(Box::new(table("t", 2))),
            condition: Some(Box::new(model::field_expr(1))),
            advanced_extension: Some(AdvancedExtension { enhancement: detail, optimization: vec![] }),
        })),
        _ => {
            let Some(RelType::Read(r)) = table("t", 2).rel_type else { unreachable!() };
            RelType::Read(Box::new(ReadRel {
                advanced_extension: Some(AdvancedExtension { enhancement: None, optimization: vec![detail.unwrap()] }),
                ..*r
            }))
        }
    };
    let (extension_urns, extensions) = env.protos();
    Plan {
        extension_urns,
        extensions,
        relations: vec![PlanRel { rel_type: Some(plan_rel::RelType::Rel(model::rel_of(rel))) }],
        ..Default::default()
    }
}

/// The text of `placed` with the arguments already written.
fn placed_text(w: &mut W, place: usize, name: &str, args: &str, cols: Option<&str>) -> String {
    let head = w.extensions();
    let inside = match cols {
        Some(c) => format!("{args} => {c}"),
        None => args.to_string(),
    };
    let body = match place {
        0 => format!("ExtensionLeaf:{name}[{inside}]\n"),
        1 => format!("ExtensionSingle:{name}[{inside}]\n  Read[t => c0:i64, c1:i64, c2:i64]\n"),
        2 => format!("ExtensionMulti:{name}[{inside}]\n  Read[t => c0:i64]\n  Read[u => c0:i64, c1:i64]\n"),
        3 => format!("Read:Extension[c0:i64, c1:i64]\n  + Ext:{name}[{inside}]\n"),
        4 => format!("Filter[$1 => $0, $1]\n  + Enh:{name}[{inside}]\n  Read[t => c0:i64, c1:i64]\n"),
        _ => format!("Read[t => c0:i64, c1:i64]\n  + Opt:{name}[{inside}]\n"),
    };
    format!("{head}=== Plan\n{body}")
}

fn detail_of(p: &Plan, place: usize) -> Option<pbjson_types::Any> {
    let plan_rel::RelType::Rel(r) = p.relations.first()?.rel_type.as_ref()? else { return None };
    match (r.rel_type.as_ref()?, place) {
        (RelType::ExtensionLeaf(r), 0) => r.detail.clone(),
        (RelType::ExtensionSingle(r), 1) => r.detail.clone(),
        (RelType::ExtensionMulti(r), 2) => r.detail.clone(),
        (RelType::Read(r), 3) => match r.read_type.as_ref()? {
            read_rel::ReadType::ExtensionTable(t) => t.detail.clone(),
            _ => None,
        },
        (RelType::Filter(r), 4) => r.advanced_extension.as_ref()?.enhancement.clone(),
        (RelType::Read(r), 5) => r.advanced_extension.as_ref()?.optimization.first().cloned(),
        _ => None,
    }
}

/// What a value reads back as from its shortest spelling: an expression that is
/// a literal of a default type is written like the plain value.
fn short(v: &Val) -> Val {
    let v = match v.v.as_ref().unwrap() {
        V::Expr(e) => plain(e).unwrap_or_else(|| V::Expr(e.clone())),
        V::Tuple(t) => V::Tuple(ValList { items: t.items.iter().map(short).collect() }),
        other => other.clone(),
    };
    Val { v: Some(v) }
}

fn short_payload(p: &Payload) -> Payload {
    Payload {
        positional: p.positional.iter().map(short).collect(),
        named: p.named.iter().map(|n| NamedVal { name: n.name.clone(), val: n.val.as_ref().map(short) }).collect(),
        cols: p.cols.clone(),
    }
}

fn payload_diff(want: &Payload, got: &Payload) -> String {
    for (i, (a, b)) in want.positional.iter().zip(&got.positional).enumerate() {
        if a != b {
            return format!("positional argument {i}\n  expected {a:?}\n  got      {b:?}");
        }
    }
    for (a, b) in want.named.iter().zip(&got.named) {
        if a != b {
            return format!("named argument\n  expected {a:?}\n  got      {b:?}");
        }
    }
    for (i, (a, b)) in want.cols.iter().zip(&got.cols).enumerate() {
        if a != b {
            return format!("column {i}\n  expected {a:?}\n  got      {b:?}");
        }
    }
    format!(
        "expected {}/{}/{} arguments and columns, got {}/{}/{}",
        want.positional.len(),
        want.named.len(),
        want.cols.len(),
        got.positional.len(),
        got.named.len(),
        got.cols.len()
    )
}

fn kinds(v: &Val, depth: usize, out: &mut BTreeSet<String>) {
    match v.v.as_ref().unwrap() {
        V::Str(s) if LOOKALIKES.contains(&s.as_str()) => out.insert("string like another kind".into()),
        V::Str(_) => out.insert("string".into()),
        V::Int(_) => out.insert("integer".into()),
        V::FloatBits(_) => out.insert("float".into()),
        V::Bool(_) => out.insert("boolean".into()),
        V::Null(_) => out.insert("null".into()),
        V::Enum(_) => out.insert("enum".into()),
        V::Expr(e) if plain(e).is_some() => out.insert("typed default literal".into()),
        V::Expr(_) => out.insert("expression".into()),
        V::Tuple(t) => {
            t.items.iter().for_each(|i| kinds(i, depth + 1, out));
            out.insert(format!("tuple depth {}", depth + 1))
        }
    };
}

/// `Ok` with the value converted back, or an error.
type Conv = Result<Val, String>;

fn conv<'a, T, F>(v: &'a ExtensionValue, back: F) -> Conv
where
    T: TryFrom<&'a ExtensionValue, Error = ExtensionError>,
    F: Fn(T) -> V,
{
    T::try_from(v).map(|t| Val { v: Some(back(t)) }).map_err(|e| e.to_string())
}

const TARGETS: usize = 8;
const TARGET_NAMES: [&str; TARGETS] = ["&str", "String", "i64", "f64", "bool", "EnumValue", "&TupleValue", "Expr"];

fn tuple_val(t: &TupleValue) -> V {
    V::Tuple(ValList { items: t.iter().map(exact).collect() })
}

fn convert(v: &ExtensionValue, target: usize) -> Conv {
    match target {
        0 => conv::<&str, _>(v, |s| V::Str(s.to_string())),
        1 => conv::<String, _>(v, V::Str),
        2 => conv::<i64, _>(v, V::Int),
        3 => conv::<f64, _>(v, |f| V::FloatBits(f.to_bits())),
        4 => conv::<bool, _>(v, V::Bool),
        5 => conv::<EnumValue, _>(v, |e| V::Enum(e.0)),
        6 => conv::<&TupleValue, _>(v, tuple_val),
        _ => conv::<Expr, _>(v, |e| V::Expr(e.to_proto())),
    }
}

/// The column a bare reference names.
fn direct_reference(e: &substrait::proto::Expression) -> Option<i32> {
    use substrait::proto::expression::{RexType, field_reference::ReferenceType, reference_segment::ReferenceType as Seg};
    let Some(RexType::Selection(f)) = &e.rex_type else { return None };
    let Some(ReferenceType::DirectReference(s)) = &f.reference_type else { return None };
    match &s.reference_type {
        Some(Seg::StructField(f)) if f.child.is_none() => Some(f.field),
        _ => None,
    }
}

/// What each typed access must give: the value when the kind matches.
fn converted(v: &V, target: usize) -> Option<V> {
    use substrait::proto::expression::literal::LiteralType as L;
    let lit = |l| V::Expr(model::lit_expr(model::literal_of(l, false)));
    match (target, v) {
        (0 | 1, V::Str(_)) | (2, V::Int(_)) | (3, V::FloatBits(_)) | (4, V::Bool(_)) | (5, V::Enum(_)) | (6, V::Tuple(_)) | (7, V::Expr(_)) => Some(v.clone()),
        (7, V::Int(i)) => Some(lit(L::I64(*i))),
        (7, V::FloatBits(b)) => Some(lit(L::Fp64(f64::from_bits(*b)))),
        (7, V::Str(s)) => Some(lit(L::String(s.clone()))),
        (7, V::Bool(b)) => Some(lit(L::Boolean(*b))),
        _ => None,
    }
}

/// References that are like the given one, but reach further or start
/// elsewhere.
fn near_references(e: &substrait::proto::Expression) -> Vec<substrait::proto::Expression> {
    use substrait::proto::expression::field_reference::{ReferenceType, RootType};
    use substrait::proto::expression::reference_segment::{ListElement, ReferenceType as Seg, StructField};
    use substrait::proto::expression::{FieldReference, ReferenceSegment, RexType};
    let Some(i) = direct_reference(e) else { return vec![] };
    let seg = |s: Seg| ReferenceSegment { reference_type: Some(s) };
    let of = |r: Option<ReferenceType>, root: Option<RootType>| substrait::proto::Expression { rex_type: Some(RexType::Selection(Box::new(FieldReference { reference_type: r, root_type: root }))) };
    let field = |i, child| seg(Seg::StructField(Box::new(StructField { field: i, child })));
    vec![
        of(Some(ReferenceType::DirectReference(field(i, Some(Box::new(field(0, None)))))), None),
        of(Some(ReferenceType::DirectReference(field(0, Some(Box::new(field(i, None)))))), None),
        of(Some(ReferenceType::DirectReference(seg(Seg::ListElement(Box::new(ListElement { offset: i, child: None }))))), None),
        of(Some(ReferenceType::DirectReference(ReferenceSegment { reference_type: None })), None),
        of(None, None),
        of(Some(ReferenceType::DirectReference(field(i, None))), None),
    ]
}

fn check_conversions(v: &Val) -> R {
    let ev = from_val(v).expect("value");
    let inner = v.v.as_ref().unwrap();
    for t in 0..TARGETS {
        let got = sut("conversion", || convert(&ev, t))?;
        let want = converted(inner, t).map(|v| Val { v: Some(v) });
        ensure!(got.clone().ok() == want, "conversion", "{v:?} to {}: expected {want:?}, got {got:?}", TARGET_NAMES[t]);
    }
    if let V::Expr(e) = inner {
        let x: Expr = e.clone().into();
        ensure!(x.as_direct_reference() == direct_reference(e), "direct reference", "{e:?}: {:?}", x.as_direct_reference());
        // With something more than a plain column reference.
        for odd in near_references(e) {
            let x: Expr = odd.clone().into();
            ensure!(x.as_direct_reference() == direct_reference(&odd), "direct reference", "{odd:?}: {:?}", x.as_direct_reference());
        }
        ensure!(x.to_proto() == *e && x.as_proto() == e && substrait::proto::Expression::from(x) == *e, "expression wrapper", "{e:?}");
    }
    if let V::Tuple(t) = inner {
        for i in &t.items {
            check_conversions(i)?;
        }
    }
    Ok(())
}

fn p17(c: &mut Case) -> R {
    let cfg = Cfg { rel_depth: 1, expr_depth: 2, max_cols: 3, ..Cfg::default() };
    let env = model::env(&mut c.g, &cfg);
    let place = c.g.usize(PLACES.len());
    let p = values(&mut c.g, &cfg, &env, place < 3);
    let mut ks = BTreeSet::new();
    p.positional.iter().chain(p.named.iter().filter_map(|n| n.val.as_ref())).for_each(|v| kinds(v, 0, &mut ks));
    c.nontrivial = !ks.is_empty();
    c.label(format!("in {}", PLACES[place]));
    if !p.named.is_empty() {
        c.label("named");
    }
    ks.into_iter().for_each(|k| c.label(k));
    for v in p.positional.iter().chain(p.named.iter().filter_map(|n| n.val.as_ref())) {
        check_conversions(v)?;
    }
    NAMES.with(|n| *n.borrow_mut() = p.named.iter().map(|n| n.name.clone()).collect());

    let plan = placed(&env, place, pbjson_types::Any { type_url: PROBE_URL.into(), value: p.encode_to_vec().into() });
    // The written form, canonical and with every typed literal typed.
    for always in [false, true] {
        let mut w = W::new(&plan, None);
        if always {
            w.literal_types = Show::Always;
        }
        let want = args_text(&mut w, place, &p);
        c.show(&want);
        let o = OutputOptions {
            literal_types: if always { substrait_explain::Visibility::Always } else { substrait_explain::Visibility::Required },
            ..OutputOptions::default()
        };
        let (got, errors) = sut("format", || PROBES.with(|r| substrait_explain::format_with_registry(&plan, &o, r)))?;
        ensure!(errors.is_empty(), "errors for writable arguments", "{errors:?}\n{got}");
        ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
        let back = read(&got, place)?;
        let expected = if always { p.clone() } else { short_payload(&p) };
        ensure!(back == expected, "value changed by writing and reading", "{got}\n{}", payload_diff(&expected, &back));
    }
    // Another spelling.
    let mut text;
    {
        let mut w = W::new(&plan, Some(&mut c.g));
        w.literal_types = Show::Always;
        text = args_text(&mut w, place, &p);
    }
    if c.g.chance(1, 8) {
        text = text.replace('\n', "\r\n");
    }
    c.show(&text);
    let back = read(&text, place)?;
    ensure!(back == p, "value read differently", "{text}\n{}", payload_diff(&p, &back));

    // Columns as a schema and back.
    let cols = Probe(p.clone()).0.args().expect("args").output_columns;
    let as_struct: Result<NamedStruct, _> = sut("columns to schema", || cols.as_slice().convert())?;
    let named = p.cols.iter().all(|c| c.ty.is_some());
    ensure!(as_struct.is_ok() == named, "columns as a schema", "{:?}: {as_struct:?}", p.cols);
    if let Ok(s) = as_struct {
        let names: Vec<String> = p.cols.iter().map(|c| c.name.clone()).collect();
        let types: Vec<_> = p.cols.iter().map(|c| c.ty.clone().unwrap()).collect();
        ensure!(
            s.names == names && s.r#struct.as_ref().is_some_and(|t| t.types == types && t.nullability == model::REQ),
            "columns as a schema",
            "{:?}: {s:?}",
            p.cols
        );
        let back: Result<Vec<ExtensionColumn>, _> = sut("schema to columns", || s.convert())?;
        let back: Vec<Col> = back.map_err(|e| Fail::new("schema as columns", e.to_string()))?.iter().map(column).collect();
        ensure!(back == p.cols, "schema as columns", "{:?}: {back:?}", p.cols);
        // Names and types must agree in number, whichever is short.
        let mut odd = s.clone();
        match c.g.below(4) {
            0 => odd.names.push("more".into()),
            1 => odd.r#struct.as_mut().expect("struct").types.push(model::simple_type(1, model::REQ)),
            2 => drop(odd.names.pop()),
            _ => odd.r#struct = None,
        }
        let agree = odd.names.len() == odd.r#struct.as_ref().map_or(0, |t| t.types.len());
        let r: Result<Vec<ExtensionColumn>, _> = sut("schema to columns", || odd.convert())?;
        ensure!(r.is_ok() == agree, "schema of unequal lengths as columns", "{odd:?}: {r:?}");
    }
    Ok(())
}

fn args_text(w: &mut W, place: usize, p: &Payload) -> String {
    let args = w.ext_args(p);
    let cols = w.ext_cols(p);
    placed_text(w, place, "Probe", &args, (place < 3).then_some(cols.as_str()))
}

fn read(text: &str, place: usize) -> Result<Payload, Fail> {
    let plan = match sut("parse", || PROBES.with(|r| parse_with(text, r)))? {
        Ok(p) => p,
        Err(e) => fail!("arguments rejected", "{e}\n{text}"),
    };
    let Some(d) = detail_of(&plan, place) else { fail!("detail lost", "{text}") };
    ensure!(d.type_url == PROBE_URL, "wrong extension", "{}\n{text}", d.type_url);
    Payload::decode(d.value.clone()).map_err(|e| Fail::new("payload", format!("{e}\n{text}")))
}

pub const P17: Prop = Prop {
    id: "P17",
    quick: 120_000,
    thorough: 800_000,
    f: p17,
    rule: "the argument list has at least one value",
    assumptions: &["expressions nested to 2, tuples to 3"],
    known: &[],
};

// ---------------------------------------------------------------- access

#[derive(Clone, Debug)]
enum Step {
    Positional,
    Columns,
    Get(String),
    Named(String, usize),
    Tuple(String, usize),
    Expect(String, usize),
    Fail,
}

#[derive(Clone, Debug, PartialEq)]
enum Obs {
    Vals(Vec<Val>),
    Cols(Vec<Col>),
    Got(Option<Val>),
    Err,
}

#[derive(Default)]
struct Program {
    steps: Vec<(Step, bool)>,
    seen: Vec<Obs>,
    runs: usize,
    mark: String,
}

thread_local! {
    static PROGRAM: RefCell<Program> = RefCell::new(Program::default());
}

/// An extension that reads its arguments by the program of the case at hand.
#[derive(Clone, PartialEq, prost::Message)]
struct Prog {
    #[prost(string, tag = "1")]
    mark: String,
}
impl prost::Name for Prog {
    const PACKAGE: &'static str = "sxcheck";
    const NAME: &'static str = "Prog";
    fn type_url() -> String {
        "type.googleapis.com/sxcheck.Prog".into()
    }
}

fn named_as<'a, T>(args: &mut ArgsAccess<'a>, how: u8, name: &str, back: fn(T) -> V) -> Result<Option<Val>, ExtensionError>
where
    T: TryFrom<&'a ExtensionValue, Error = ExtensionError>,
{
    let one = |t: T| Val { v: Some(back(t)) };
    Ok(match how {
        0 => args.get_named::<T>(name)?.map(one),
        1 => args
            .get_named_tuple::<T>(name)?
            .map(|ts| Val { v: Some(V::Tuple(ValList { items: ts.into_iter().map(one).collect() })) }),
        _ => Some(one(args.expect_named::<T>(name)?)),
    })
}

fn access(args: &mut ArgsAccess<'_>, how: u8, name: &str, target: usize) -> Result<Option<Val>, ExtensionError> {
    match target {
        0 => named_as::<&str>(args, how, name, |s| V::Str(s.to_string())),
        1 => named_as::<String>(args, how, name, V::Str),
        2 => named_as::<i64>(args, how, name, V::Int),
        3 => named_as::<f64>(args, how, name, |f| V::FloatBits(f.to_bits())),
        4 => named_as::<bool>(args, how, name, V::Bool),
        5 => named_as::<EnumValue>(args, how, name, |e| V::Enum(e.0)),
        6 => named_as::<&TupleValue>(args, how, name, tuple_val),
        _ => named_as::<Expr>(args, how, name, |e| V::Expr(e.to_proto())),
    }
}

impl Explainable for Prog {
    fn name() -> &'static str {
        "Prog"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let (steps, mark) = PROGRAM.with(|p| {
            let mut p = p.borrow_mut();
            p.seen.clear();
            p.runs += 1;
            (p.steps.clone(), p.mark.clone())
        });
        for (s, swallow) in steps {
            let r = match &s {
                Step::Positional => Ok(Obs::Vals(args.positional().iter().map(exact).collect())),
                Step::Columns => Ok(Obs::Cols(args.output_columns().iter().map(column).collect())),
                Step::Get(n) => Ok(Obs::Got(args.get_named_arg(n).map(exact))),
                Step::Named(n, t) => access(args, 0, n, *t).map(Obs::Got),
                Step::Tuple(n, t) => access(args, 1, n, *t).map(Obs::Got),
                Step::Expect(n, t) => access(args, 2, n, *t).map(Obs::Got),
                Step::Fail => Err(ExtensionError::Custom(mark.clone())),
            };
            let (obs, err) = match r {
                Ok(o) => (o, None),
                Err(e) => (Obs::Err, Some(e)),
            };
            PROGRAM.with(|p| p.borrow_mut().seen.push(obs));
            if let Some(e) = err
                && !swallow
            {
                return Err(e);
            }
        }
        Ok(Prog { mark })
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Ok(ExtensionArgs::default())
    }
}

/// What the program must see and whether the argument list is to be accepted.
fn predict(steps: &[(Step, bool)], p: &Payload) -> (Vec<Obs>, bool, Option<usize>) {
    let find = |n: &str| p.named.iter().find(|x| x.name == n).map(|x| x.val.clone().unwrap());
    let mut handled = BTreeSet::new();
    let mut positional = p.positional.is_empty();
    let mut obs = vec![];
    for (i, (s, swallow)) in steps.iter().enumerate() {
        let o = match s {
            Step::Positional => {
                positional = true;
                Obs::Vals(p.positional.clone())
            }
            Step::Columns => Obs::Cols(p.cols.clone()),
            Step::Get(n) => Obs::Got(find(n)),
            Step::Named(n, t) => match find(n) {
                None => Obs::Got(None),
                Some(v) => converted(v.v.as_ref().unwrap(), *t).map_or(Obs::Err, |v| Obs::Got(Some(Val { v: Some(v) }))),
            },
            Step::Expect(n, t) => match find(n) {
                None => Obs::Err,
                Some(v) => converted(v.v.as_ref().unwrap(), *t).map_or(Obs::Err, |v| Obs::Got(Some(Val { v: Some(v) }))),
            },
            Step::Tuple(n, t) => match find(n).map(|v| v.v.unwrap()) {
                None => Obs::Got(None),
                Some(V::Tuple(l)) => l
                    .items
                    .iter()
                    .map(|v| converted(v.v.as_ref().unwrap(), *t).map(|v| Val { v: Some(v) }))
                    .collect::<Option<Vec<_>>>()
                    .map_or(Obs::Err, |items| Obs::Got(Some(Val { v: Some(V::Tuple(ValList { items })) }))),
                Some(_) => Obs::Err,
            },
            Step::Fail => Obs::Err,
        };
        if let Step::Get(n) | Step::Named(n, _) | Step::Tuple(n, _) | Step::Expect(n, _) = s {
            handled.insert(n.clone());
        }
        let err = o == Obs::Err;
        obs.push(o);
        if err && !swallow {
            return (obs, false, Some(i));
        }
    }
    let all = p.named.iter().all(|n| handled.contains(&n.name));
    (obs, all && positional, None)
}

fn p18(c: &mut Case) -> R {
    let cfg = Cfg { rel_depth: 1, expr_depth: 1, max_cols: 2, ..Cfg::default() };
    let env = model::env(&mut c.g, &cfg);
    let place = c.g.usize(PLACES.len());
    let g = &mut c.g;
    let pool: Vec<String> = if g.chance(1, 3) {
        (0..4).map(|_| model::name(g)).collect()
    } else {
        ["a", "b", "A", "ab", "_"].iter().map(|s| s.to_string()).collect()
    };
    let mut p = Payload { cols: model::payload(g, &cfg, &env, 2, place < 3).cols, ..Default::default() };
    let flat = g.chance(1, 2);
    let val = |g: &mut Gen| -> Val {
        if flat {
            // Few kinds, so that programs often fit.
            let items = |g: &mut Gen| (0..g.usize(3)).map(|_| Val { v: Some(V::Int(g.i64())) }).collect();
            Val {
                v: Some(match g.usize(3) {
                    0 => V::Int(g.i64()),
                    1 => V::Str(model::string(g)),
                    _ => V::Tuple(ValList { items: items(g) }),
                }),
            }
        } else {
            value(g, &cfg, &env, 2)
        }
    };
    for _ in 0..g.count(3) {
        let v = val(g);
        p.positional.push(v);
    }
    for n in &pool {
        if g.chance(2, 5) && !p.named.iter().any(|x| x.name == *n) {
            let v = val(g);
            p.named.push(NamedVal { name: n.clone(), val: Some(v) });
        }
    }
    for i in (1..p.named.len()).rev() {
        let j = g.usize(i + 1);
        p.named.swap(i, j);
    }
    // A program that mostly fits the arguments.
    let mut steps = vec![];
    let fitting = |g: &mut Gen, v: &Val, n: String| -> Step {
        let v = v.v.as_ref().unwrap();
        let fits: Vec<usize> = (0..TARGETS).filter(|&t| converted(v, t).is_some()).collect();
        let t = if fits.is_empty() || g.chance(1, 8) { g.usize(TARGETS) } else { g.choose(&fits) };
        match g.usize(3) {
            0 => Step::Named(n, t),
            1 => Step::Expect(n, t),
            _ => match v {
                V::Tuple(l) => {
                    let fits: Vec<usize> = (0..TARGETS).filter(|&t| l.items.iter().all(|i| converted(i.v.as_ref().unwrap(), t).is_some())).collect();
                    Step::Tuple(n, if fits.is_empty() { g.usize(TARGETS) } else { g.choose(&fits) })
                }
                _ => Step::Get(n),
            },
        }
    };
    if !p.positional.is_empty() && !g.chance(1, 6) {
        steps.push((Step::Positional, false));
    }
    for n in p.named.clone() {
        if !g.chance(1, 7) {
            let s = fitting(g, n.val.as_ref().unwrap(), n.name.clone());
            let swallow = g.chance(1, 3);
            steps.push((s, swallow));
        }
    }
    for _ in 0..g.count(3) {
        let n = g.choose(&pool);
        let t = g.usize(TARGETS);
        let s = match g.weighted(&[2, 2, 2, 2, 1, 1, 1]) {
            0 => Step::Get(n),
            1 => Step::Named(n, t),
            2 => Step::Tuple(n, t),
            3 => Step::Columns,
            4 => Step::Positional,
            5 => Step::Expect(n, t),
            _ => Step::Fail,
        };
        steps.push((s, g.chance(3, 4)));
    }
    for i in (1..steps.len()).rev() {
        let j = g.usize(i + 1);
        steps.swap(i, j);
    }
    let (obs, accept, failed_at) = predict(&steps, &p);
    let mark = format!("mark {}", g.below(1000));
    c.nontrivial = !p.positional.is_empty() || !p.named.is_empty();
    c.label(format!("in {}", PLACES[place]));
    c.label(if accept {
        "accepted"
    } else if failed_at.is_some() {
        "handler failed"
    } else {
        "leftovers"
    });
    if steps.iter().any(|(_, s)| *s) {
        c.label("errors swallowed");
    }
    PROGRAM.with(|q| *q.borrow_mut() = Program { steps: steps.clone(), mark: mark.clone(), ..Default::default() });
    let check = |what: &str, ok: bool, detail: &str| -> R {
        let (seen, runs) = PROGRAM.with(|q| {
            let mut q = q.borrow_mut();
            (q.seen.clone(), std::mem::take(&mut q.runs))
        });
        ensure!(runs > 0, "handler not called", "{what}: {detail}");
        ensure!(seen == obs, "handler saw other arguments", "{what}: {steps:?}\nexpected {obs:?}\ngot {seen:?}\n{detail}");
        ensure!(ok == accept, "acceptance", "{what}: expected {accept}, got {ok}: {detail}\nprogram {steps:?}\narguments {p:?}");
        Ok(())
    };

    let args = p.args().expect("args");
    let r = sut("ExtensionArgs::parse", || args.parse::<Prog>())?;
    check("ExtensionArgs::parse", r.is_ok(), &format!("{r:?}"))?;
    match &r {
        Ok(v) => ensure!(v.mark == mark, "other result", "{v:?}"),
        Err(e) => {
            if let Some(i) = failed_at
                && matches!(steps[i].0, Step::Fail)
            {
                ensure!(matches!(e, ExtensionError::Custom(m) if *m == mark), "error replaced", "{e:?}");
            }
        }
    }
    for kind in 0..4 {
        let r = sut("registry parse", || {
            PROBES.with(|r| match kind {
                0 => r.parse_extension("Prog", &args),
                1 => r.parse_extension_table("Prog", &args),
                2 => r.parse_enhancement("Prog", &args),
                _ => r.parse_optimization("Prog", &args),
            })
        })?;
        check(&format!("registry kind {kind}"), r.is_ok(), &format!("{r:?}"))?;
        if let Ok(a) = &r {
            ensure!(
                a.type_url == <Prog as AnyConvertible>::type_url() && a.value == Prog { mark: mark.clone() }.encode_to_vec(),
                "other payload",
                "kind {kind}: {a:?}"
            );
        }
    }
    // Through text.
    let plan = placed(&env, place, pbjson_types::Any { type_url: <Prog as AnyConvertible>::type_url(), value: Prog { mark: mark.clone() }.encode_to_vec().into() });
    let mut w = W::new(&plan, None);
    w.literal_types = Show::Always;
    let a = w.ext_args(&p);
    let cols = w.ext_cols(&p);
    let text = placed_text(&mut w, place, "Prog", &a, (place < 3).then_some(cols.as_str()));
    c.show(&format!("{steps:?}\n{text}"));
    let r = sut("parse", || PROBES.with(|r| parse_with(&text, r)))?;
    let shown = r.as_ref().map(|_| String::new()).unwrap_or_else(|e| e.to_string());
    check("text", r.is_ok(), &format!("{shown}\n{text}"))?;
    if let Ok(got) = r {
        same_plan(&plan, &got, "parsed plan differs", &text)?;
    }
    // A name written twice is refused whatever the handler does.
    if let Some(n) = p.named.first() {
        let again = NamedVal { name: n.name.clone(), val: Some(if c.g.bool() { n.val.clone().unwrap() } else { Val { v: Some(V::Int(1)) } }) };
        let mut q = p.clone();
        let at = c.g.usize(q.named.len() + 1);
        q.named.insert(at, again);
        let mut w = W::new(&plan, None);
        let a = w.ext_args(&q);
        let cols = w.ext_cols(&q);
        let text = placed_text(&mut w, place, "Prog", &a, (place < 3).then_some(cols.as_str()));
        let r = sut("parse", || PROBES.with(|r| parse_with(&text, r)))?;
        ensure!(r.is_err(), "duplicate argument accepted", "{text}");
    }
    Ok(())
}

pub const P18: Prop = Prop {
    id: "P18",
    quick: 100_000,
    thorough: 700_000,
    f: p18,
    rule: "there is at least one argument",
    assumptions: &["programs of up to about 10 accesses"],
    known: &[],
};

// ---------------------------------------------------------------- registry

const FAM_NAMES: [&str; 4] = ["alpha", "Alpha", "alpha2", "x y"];
const FAM_URLS: [&str; 5] = [
    "type.googleapis.com/fam.A",
    "example.com/fam.A",
    "type.googleapis.com/fam.a",
    "type.googleapis.com/fam.AB",
    "fam.A",
];
const KINDS: [ExtensionType; 4] = [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];

/// Extension number `N`, `U` of the family, named `FAM_NAMES[N]` with payload
/// type `FAM_URLS[U]`. Its payload says which one made it.
struct Fam<const N: usize, const U: usize>(Vec<u8>);

impl<const N: usize, const U: usize> AnyConvertible for Fam<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(FAM_URLS[U].to_string(), self.0.clone()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Fam(any.value.to_vec()))
    }
    fn type_url() -> String {
        FAM_URLS[U].into()
    }
}
impl<const N: usize, const U: usize> Explainable for Fam<N, U> {
    fn name() -> &'static str {
        FAM_NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        Ok(Fam(vec![N as u8, U as u8, args.positional().len() as u8]))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        for v in [N as i64, U as i64, self.0.len() as i64] {
            a.push(v);
        }
        Ok(a)
    }
}

fn register_kind<T: substrait_explain::extensions::registry::Extension>(r: &mut ExtensionRegistry, kind: usize) -> Result<(), RegistrationError> {
    match kind {
        0 => r.register_relation::<T>(),
        1 => r.register_extension_table::<T>(),
        2 => r.register_enhancement::<T>(),
        _ => r.register_optimization::<T>(),
    }
}

fn register(r: &mut ExtensionRegistry, kind: usize, n: usize, u: usize) -> Result<(), RegistrationError> {
    macro_rules! table {
        ($($n:literal: $($u:literal)*;)*) => {
            match (n, u) {
                $($(($n, $u) => register_kind::<Fam<$n, $u>>(r, kind),)*)*
                _ => unreachable!(),
            }
        };
    }
    table! {
        0: 0 1 2 3 4;
        1: 0 1 2 3 4;
        2: 0 1 2 3 4;
        3: 0 1 2 3 4;
    }
}

/// (kind, name) to payload type, in order of registration.
#[derive(Clone, Default, Debug)]
struct Reg {
    entries: Vec<(usize, usize, usize)>,
    descriptors: Vec<Vec<u8>>,
}

impl Reg {
    fn by_name(&self, kind: usize, n: usize) -> Option<usize> {
        self.entries.iter().find(|e| e.0 == kind && e.1 == n).map(|e| e.2)
    }
    fn by_url(&self, kind: usize, u: usize) -> Option<usize> {
        self.entries.iter().find(|e| e.0 == kind && e.2 == u).map(|e| e.1)
    }
}

fn same_type(a: ExtensionType, kind: usize) -> bool {
    a == KINDS[kind]
}

fn check_lookup(r: &ExtensionRegistry, m: &Reg, kind: usize, n: usize, u: usize) -> R {
    let mut args = ExtensionArgs::default();
    args.push(7i64);
    let got = sut("registry parse", || match kind {
        0 => r.parse_extension(FAM_NAMES[n], &args),
        1 => r.parse_extension_table(FAM_NAMES[n], &args),
        2 => r.parse_enhancement(FAM_NAMES[n], &args),
        _ => r.parse_optimization(FAM_NAMES[n], &args),
    })?;
    let has = sut("has_extension", || r.has_extension(KINDS[kind], FAM_NAMES[n]))?;
    match (m.by_name(kind, n), &got) {
        (Some(u), Ok(a)) => ensure!(
            a.type_url == FAM_URLS[u] && a.value == [n as u8, u as u8, 1] && has,
            "lookup by name found another extension",
            "{m:?}: {:?} {:?}: {a:?}, has_extension {has}",
            KINDS[kind],
            FAM_NAMES[n]
        ),
        (None, Err(ExtensionError::NotFound { name })) => {
            ensure!(name == FAM_NAMES[n] && !has, "lookup by name", "{m:?}: {:?} {:?}: not found {name:?}, has_extension {has}", KINDS[kind], FAM_NAMES[n])
        }
        (want, got) => fail!("lookup by name", "{m:?}: {:?} {:?}: expected {want:?}, got {got:?}", KINDS[kind], FAM_NAMES[n]),
    }
    let detail = Any::new(FAM_URLS[u].to_string(), vec![1, 2, 3, 4]);
    let got = sut("registry decode", || match kind {
        0 => r.decode(detail.as_ref()),
        1 => r.decode_extension_table(detail.as_ref()),
        2 => r.decode_enhancement(detail.as_ref()),
        _ => r.decode_optimization(detail.as_ref()),
    })?;
    match (m.by_url(kind, u), &got) {
        (Some(n), Ok((name, args))) => {
            let pos: Vec<Val> = args.positional.iter().map(exact).collect();
            let want: Vec<Val> = [n as i64, u as i64, 4].map(|i| Val { v: Some(V::Int(i)) }).to_vec();
            ensure!(name == FAM_NAMES[n] && pos == want, "lookup by payload type", "{m:?}: {:?} {:?}: {name:?} {pos:?}", KINDS[kind], FAM_URLS[u])
        }
        (None, Err(ExtensionError::NotFound { .. })) => {}
        (want, got) => fail!("lookup by payload type", "{m:?}: {:?} {:?}: expected {want:?}, got {got:?}", KINDS[kind], FAM_URLS[u]),
    }
    Ok(())
}

fn check_names(r: &ExtensionRegistry, m: &Reg) -> R {
    for (kind, t) in KINDS.iter().enumerate() {
        let mut want: Vec<&str> = m.entries.iter().filter(|e| e.0 == kind).map(|e| FAM_NAMES[e.1]).collect();
        want.sort();
        let got = sut("extension_names", || r.extension_names(*t).into_iter().map(|s| s.to_string()).collect::<Vec<_>>())?;
        ensure!(got == want, "names of a kind", "{m:?}: {t:?}: expected {want:?}, got {got:?}");
    }
    let d: Vec<Vec<u8>> = r.descriptors().into_iter().map(|d| d.to_vec()).collect();
    ensure!(d == m.descriptors, "descriptors", "expected {:?}, got {d:?}", m.descriptors);
    Ok(())
}

fn check_registry(r: &ExtensionRegistry, m: &Reg) -> R {
    check_names(r, m)?;
    for kind in 0..4 {
        for i in 0..FAM_URLS.len() {
            check_lookup(r, m, kind, i.min(FAM_NAMES.len() - 1), i)?;
        }
    }
    Ok(())
}

/// Names and payload types found by way of text.
fn check_text(r: &ExtensionRegistry, m: &Reg, kind: usize, n: usize, u: usize) -> R {
    let place = [0, 3, 4, 5][kind];
    let env = Env { urns: vec![], funcs: vec![], types: vec![], vars: vec![] };
    let plan = placed(&env, place, pbjson_types::Any { type_url: FAM_URLS[u].into(), value: vec![9, 9, 9].into() });
    let mut w = W::new(&plan, None);
    let name = w.name(FAM_NAMES[n]);
    let text = placed_text(&mut w, place, &name, "1, 2", (place < 3).then_some("$0"));
    let got = sut("parse", || parse_with(&text, r))?;
    match (m.by_name(kind, n), got) {
        (Some(u), Ok(p)) => {
            let d = detail_of(&p, place);
            ensure!(
                d.as_ref().is_some_and(|d| d.type_url == FAM_URLS[u] && d.value[..] == [n as u8, u as u8, 2]),
                "text found another extension",
                "{m:?}\n{text}\n{d:?}"
            );
        }
        (None, Err(_)) => {}
        (want, got) => fail!("extension named in text", "{m:?}\n{text}\nexpected {want:?}, got {:?}", got.map(|_| ())),
    }
    let (got, errors) = sut("format", || substrait_explain::format_with_registry(&plan, &OutputOptions::default(), r))?;
    match m.by_url(kind, u) {
        Some(n) => {
            let name = w.name(FAM_NAMES[n]);
            let line = format!("{}:{name}[{n}, {u}, 3", PLACES[place]);
            ensure!(errors.is_empty() && got.contains(&line), "payload type shown as another extension", "{m:?}\nexpected {line}\n{got}\n{errors:?}");
        }
        None => ensure!(!errors.is_empty() && got.contains("!{"), "unregistered payload shown without a problem", "{m:?}\n{got}\n{errors:?}"),
    }
    Ok(())
}

fn p19(c: &mut Case) -> R {
    let mut regs = vec![(ExtensionRegistry::new(), Reg::default())];
    let kinds: Vec<usize> = if c.g.bool() { vec![0, 1, 2, 3] } else { vec![c.g.usize(4), c.g.usize(4)] };
    let n_ops = c.g.range(1, 14);
    let mut log = vec![];
    let mut refused = 0;
    for _ in 0..n_ops {
        let at = c.g.usize(regs.len());
        match c.g.weighted(&[12, 2, 1, 3]) {
            0 => {
                let kind = c.g.choose(&kinds);
                let (n, u) = (c.g.usize(FAM_NAMES.len()), c.g.usize(FAM_URLS.len()));
                let (r, m) = &mut regs[at];
                let got = sut("register", || register(r, kind, n, u))?;
                log.push(format!("r{at} {:?} {} {} -> {}", KINDS[kind], FAM_NAMES[n], FAM_URLS[u], if got.is_ok() { "ok" } else { "refused" }));
                let taken_name = m.by_name(kind, n).is_some();
                let taken_url = m.by_url(kind, u);
                match &got {
                    Ok(()) => {
                        ensure!(!taken_name && taken_url.is_none(), "taken name or payload type accepted", "{log:#?}");
                        m.entries.push((kind, n, u));
                    }
                    Err(RegistrationError::DuplicateName { ext_type, name }) => {
                        refused += 1;
                        ensure!(taken_name && same_type(*ext_type, kind) && name == FAM_NAMES[n], "refused as a duplicate name", "{got:?}\n{log:#?}")
                    }
                    Err(RegistrationError::ConflictingTypeUrl { type_url, ext_type, existing_name }) => {
                        refused += 1;
                        ensure!(
                            same_type(*ext_type, kind) && type_url == FAM_URLS[u] && taken_url.is_some_and(|n| existing_name == FAM_NAMES[n]),
                            "refused as a conflicting payload type",
                            "{got:?}\n{log:#?}"
                        )
                    }
                }
                check_lookup(&regs[at].0, &regs[at].1, kind, n, u)?;
            }
            1 => {
                if regs.len() < 3 {
                    let copy = sut("clone", || regs[at].0.clone())?;
                    let m = regs[at].1.clone();
                    log.push(format!("r{} = clone of r{at}", regs.len()));
                    regs.push((copy, m));
                }
            }
            2 => {
                let d = vec![c.g.below(3) as u8; c.g.usize(3)];
                log.push(format!("r{at} descriptor {d:?}"));
                sut("add_descriptor", || regs[at].0.add_descriptor(d.clone()))?;
                regs[at].1.descriptors.push(d);
            }
            _ => {
                let (kind, n, u) = (c.g.usize(4), c.g.usize(FAM_NAMES.len()), c.g.usize(FAM_URLS.len()));
                check_lookup(&regs[at].0, &regs[at].1, kind, n, u)?;
            }
        }
    }
    c.nontrivial = regs.iter().any(|r| r.1.entries.len() >= 2);
    if refused > 0 {
        c.label("refused registration");
    }
    if regs.len() > 1 {
        c.label("clones");
    }
    if regs.iter().any(|r| r.1.entries.iter().map(|e| e.0).collect::<BTreeSet<_>>().len() > 1) {
        c.label("several kinds");
    }
    if regs.iter().any(|r| r.1.entries.iter().map(|e| e.1).collect::<BTreeSet<_>>().len() < r.1.entries.len()) {
        c.label("name shared between kinds");
    }
    c.show(&log.join("\n"));
    for (r, m) in &regs {
        check_registry(r, m)?;
        // The same registrations in another order.
        let mut order = m.entries.clone();
        for i in (1..order.len()).rev() {
            let j = c.g.usize(i + 1);
            order.swap(i, j);
        }
        let mut again = ExtensionRegistry::new();
        for &(kind, n, u) in &order {
            let got = sut("register", || register(&mut again, kind, n, u))?;
            ensure!(got.is_ok(), "order of registrations matters", "{got:?}\n{order:?}");
        }
        m.descriptors.iter().for_each(|d| again.add_descriptor(d.clone()));
        check_registry(&again, m)?;
        let (kind, n, u) = match c.g.usize(m.entries.len() + 1) {
            0 => (c.g.usize(4), c.g.usize(FAM_NAMES.len()), c.g.usize(FAM_URLS.len())),
            i => m.entries[i - 1],
        };
        check_text(r, m, kind, n, u)?;
    }
    if c.g.chance(1, 4) {
        payload_types(c)?;
    }
    Ok(())
}

/// A payload is read as a message only under that message's own type.
fn payload_types(c: &mut Case) -> R {
    let g = &mut c.g;
    let name = <Prog as prost::Name>::type_url();
    let url = match g.usize(9) {
        0 | 1 => name.clone(),
        2 => name.rsplit('/').next().unwrap().to_string(),
        3 => format!("example.com/{}", name.rsplit('/').next().unwrap()),
        4 => name.to_uppercase(),
        5 => format!("{name}{}", g.pick(&["2", " ", "/", "."])),
        6 => format!("x{name}"),
        7 => name[..name.len() - 1].to_string(),
        _ => g.pick(&["", "/", "type.googleapis.com/sxcheck.Other", "type.googleapis.com/", "Prog"]).to_string(),
    };
    let m = Prog { mark: model::string(g) };
    let bytes = m.encode_to_vec();
    let any = Any::new(url.clone(), bytes.clone());
    let proto = prost_types::Any { type_url: url.clone(), value: bytes.clone() };
    let json = pbjson_types::Any { type_url: url.clone(), value: bytes.clone().into() };
    for (how, got) in [
        ("Any", sut("decode", || any.decode::<Prog>().ok())?),
        ("AnyRef", sut("decode", || AnyRef::new(&url, &bytes).decode::<Prog>().ok())?),
        ("prost", sut("decode", || AnyRef::from(&proto).decode::<Prog>().ok())?),
        ("pbjson", sut("decode", || AnyRef::from(&json).decode::<Prog>().ok())?),
    ] {
        ensure!(got == (url == name).then(|| m.clone()), "payload read under another type, or not under its own", "{how}: {url:?}: {got:?}");
    }
    let made = sut("encode", || Any::encode(&m).ok())?;
    ensure!(made == Some(Any::new(name, bytes)), "payload written under another type", "{made:?}");
    Ok(())
}

pub const P19: Prop = Prop {
    id: "P19",
    quick: 120_000,
    thorough: 800_000,
    f: p19,
    rule: "some registry holds at least two extensions",
    assumptions: &["4 names, 5 payload types, 4 kinds, up to 3 registries and 14 operations"],
    known: &[],
};

// ---------------------------------------------------------------- attachment

/// Every registration of the model's registry, as (kind, name).
const MODEL: &[(usize, &str)] = &[
    (0, "ExtRel"),
    (0, "Other_2"),
    (0, "quoted ext\"name"),
    (0, "PassThrough"),
    (1, "TableExt"),
    (1, "EnhOne"),
    (2, "EnhOne"),
    (2, "weird-enh"),
    (2, "PassThrough"),
    (3, "OptOne"),
    (3, "ExtRel"),
];

fn partial(keep: &[bool], order: &[usize]) -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    for &i in order {
        if !keep[i] {
            continue;
        }
        match i {
            0 => r.register_relation::<ext::RelA>(),
            1 => r.register_relation::<ext::RelB>(),
            2 => r.register_relation::<ext::RelC>(),
            3 => r.register_relation::<ext::PassThrough>(),
            4 => r.register_extension_table::<ext::TabA>(),
            5 => r.register_extension_table::<ext::TabB>(),
            6 => r.register_enhancement::<ext::EnhA>(),
            7 => r.register_enhancement::<ext::EnhB>(),
            8 => r.register_enhancement::<ext::PassThrough>(),
            9 => r.register_optimization::<ext::OptA>(),
            _ => r.register_optimization::<ext::OptB>(),
        }
        .expect("register");
    }
    r
}

fn depth_of(line: &str) -> usize {
    (line.len() - line.trim_start_matches(' ').len()) / 2
}

/// The extensions the crate itself comes with.
fn shipped(c: &mut Case) -> R {
    use substrait_explain::extensions::examples::{self, BlobStoreRead, PartitionHint, PlanHint};
    let registry = examples::registry();
    let mut w = W::new(&Plan::default(), None);
    let g = &mut c.g;
    let list = |a: Vec<String>| if a.is_empty() { "_".to_string() } else { a.join(", ") };
    let mut want = "=== Plan\n".to_string();
    let table = g.bool();
    let blob = BlobStoreRead { path: model::string(g), limit: if g.bool() { 0 } else { g.i64() }, include_archived: g.bool() };
    let hint = g.bool().then(|| PartitionHint { strategies: (0..g.count(4)).map(|_| g.below(4) as i32).collect(), count: if g.bool() { 0 } else { g.i64() } });
    let opts: Vec<PlanHint> = (0..g.count(3)).map(|_| PlanHint { hint: model::string(g) }).collect();
    let mut blob_args = vec![w.str_lit(&blob.path)];
    if blob.limit != 0 {
        blob_args.push(format!("limit={}", blob.limit));
    }
    if blob.include_archived {
        blob_args.push("include_archived=true".into());
    }
    if table {
        want += &format!("Read:Extension[a:i64]\n  + Ext:BlobStoreRead[{}]\n", list(blob_args.clone()));
    } else {
        want += "Read[t => a:i64]\n";
    }
    if let Some(h) = &hint {
        let mut a: Vec<String> = h.strategies.iter().map(|&s| ["&UNSPECIFIED", "&HASH", "&RANGE", "&BROADCAST"][s as usize].to_string()).collect();
        if h.count != 0 {
            a.push(format!("count={}", h.count));
        }
        want += &format!("  + Enh:PartitionHint[{}]\n", list(a));
    }
    for o in &opts {
        want += &format!("  + Opt:PlanHint[hint={}]\n", w.str_lit(&o.hint));
    }
    c.show(&want);
    c.nontrivial = hint.is_some() || table || !opts.is_empty();
    c.label("extensions of the crate");
    let plan = match sut("parse", || parse_with(&want, &registry))? {
        Ok(p) => p,
        Err(e) => fail!("valid text rejected", "{e}\n{want}"),
    };
    let Some(substrait::proto::plan_rel::RelType::Rel(Rel { rel_type: Some(RelType::Read(read)) })) = plan.relations.first().and_then(|r| r.rel_type.clone()) else {
        fail!("parsed plan differs", "{want}\n{plan:?}");
    };
    let adv = read.advanced_extension.clone().unwrap_or_default();
    let body = |a: &pbjson_types::Any| a.value.to_vec();
    ensure!(adv.enhancement.as_ref().map(body) == hint.as_ref().map(|h| h.encode_to_vec()), "parsed plan differs", "{want}\n{adv:?}");
    ensure!(adv.optimization.iter().map(body).eq(opts.iter().map(|h| h.encode_to_vec())), "parsed plan differs", "{want}\n{adv:?}");
    let detail = match &read.read_type {
        Some(substrait::proto::read_rel::ReadType::ExtensionTable(t)) => t.detail.as_ref().map(body),
        _ => None,
    };
    ensure!(detail == table.then(|| blob.encode_to_vec()), "parsed plan differs", "{want}\n{read:?}");
    let (got, errs) = sut("format", || substrait_explain::format_with_registry(&plan, &OutputOptions::default(), &registry))?;
    ensure!(errs.is_empty(), "problems reported for a representable plan", "{errs:?}\n{got}");
    ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
    // What they do not take.
    let bad = c.g.choose(&[
        "  + Enh:PartitionHint[&HSAH]",
        "  + Enh:PartitionHint[&hash]",
        "  + Enh:PartitionHint[&HASH, 'HASH']",
        "  + Enh:PartitionHint[&HASH, count=true]",
        "  + Enh:PartitionHint[&HASH, counts=1]",
        "  + Enh:PartitionHint[&HASH, 8]",
        "  + Enh:PlanHint[hint='a']",
        "  + Opt:PlanHint['a']",
        "  + Opt:PlanHint['a', hint='b']",
        "  + Opt:PlanHint[_]",
        "  + Opt:PlanHint[hint=1]",
        "  + Opt:PlanHint[hint='a', more=1]",
        "  + Opt:PartitionHint[&HASH]",
        "  + Ext:BlobStoreRead['x']",
    ]);
    let text = format!("=== Plan\nRead[t => a:i64]\n{bad}\n");
    ensure!(sut("parse", || parse_with(&text, &registry))?.is_err(), "wrong arguments are accepted", "{text}");
    let bad = c.g.choose(&["_", "'a', 'b'", "path='a'", "'a', limit='1'", "'a', include_archived=1", "'a', limits=1", "'a' => a:i64", "1"]);
    let text = format!("=== Plan\nRead:Extension[a:i64]\n  + Ext:BlobStoreRead[{bad}]\n");
    ensure!(sut("parse", || parse_with(&text, &registry))?.is_err(), "wrong arguments are accepted", "{text}");
    Ok(())
}

fn p20(c: &mut Case) -> R {
    if c.g.chance(1, 12) {
        return shipped(c);
    }
    let cfg = Cfg { rel_depth: 4, expr_depth: 1, max_cols: 3, ext_dense: true, ..Cfg::default() };
    let plan = model::plan(&mut c.g, &cfg);
    let want = render::canonical(&plan);
    c.show(&want);
    let lines: Vec<&str> = want.lines().collect();
    // Which registration each line uses, if any.
    let mut w = W::new(&plan, None);
    let prefixes: Vec<Vec<String>> = MODEL
        .iter()
        .map(|(k, n)| {
            let n = w.name(n);
            match k {
                0 => ["ExtensionLeaf", "ExtensionSingle", "ExtensionMulti"].iter().map(|p| format!("{p}:{n}[")).collect(),
                1 => vec![format!("+ Ext:{n}[")],
                2 => vec![format!("+ Enh:{n}[")],
                _ => vec![format!("+ Opt:{n}[")],
            }
        })
        .collect();
    let plan_at = lines.iter().position(|l| *l == "=== Plan").expect("plan section");
    let used: Vec<Option<usize>> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| if i <= plan_at { None } else { prefixes.iter().position(|ps| ps.iter().any(|p| l.trim_start().starts_with(p.as_str()))) })
        .collect();
    let n_used = used.iter().flatten().count();
    c.nontrivial = n_used >= 2;
    for u in used.iter().flatten() {
        let (k, n) = MODEL[*u];
        c.label(if n == "PassThrough" { "input widths as context".to_string() } else { format!("{:?}", KINDS[k]) });
    }
    c.labels.sort();
    c.labels.dedup();

    // Full registry: exact, and back.
    let got = super::core::must_format(&plan)?;
    ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
    same_plan(&plan, &super::core::must_parse(&got)?, "reparsed plan differs", &got)?;
    let styled = render::styled(&plan, &mut c.g);
    same_plan(&plan, &super::core::must_parse(&styled)?, "parsed plan differs", &styled)?;

    if c.g.chance(1, 3) {
        foreign_payload(c, &plan, &want)?;
    }
    // A registry that lacks some.
    let mut order: Vec<usize> = (0..MODEL.len()).collect();
    for i in (1..order.len()).rev() {
        let j = c.g.usize(i + 1);
        order.swap(i, j);
    }
    let mode = c.g.usize(4);
    let one = c.g.usize(n_used.max(1));
    let one = used.iter().flatten().nth(one).copied();
    let keep: Vec<bool> = (0..MODEL.len())
        .map(|i| match mode {
            0 => Some(i) != one,
            1 => c.g.bool(),
            2 => false,
            _ => c.g.chance(4, 5),
        })
        .collect();
    let reg = partial(&keep, &order);
    let dropped: Vec<usize> = (0..lines.len()).filter(|&i| used[i].is_some_and(|u| !keep[u])).collect();
    c.label(match dropped.len() {
        0 => "nothing missing",
        1 => "one use missing",
        _ => "several uses missing",
    });
    let r = sut("parse", || parse_with(&want, &reg))?;
    match r {
        Ok(p) => {
            ensure!(dropped.is_empty(), "unregistered extension accepted", "missing {:?}\n{want}", keep);
            same_plan(&plan, &p, "plan differs with a partial registry", &want)?;
        }
        Err(e) => ensure!(!dropped.is_empty(), "registered extensions rejected", "{e}\n{want}"),
    }
    let (got, errors) = sut("format", || substrait_explain::format_with_registry(&plan, &OutputOptions::default(), &reg))?;
    ensure!(errors.len() >= dropped.len() && (errors.is_empty() == dropped.is_empty()), "problems reported", "{} uses missing, {} problems\n{errors:?}\n{got}", dropped.len(), errors.len());
    let glines: Vec<&str> = got.lines().collect();
    ensure!(glines.len() == lines.len(), "lines lost or added", "{}", text_diff(&want, &got));
    // Relations above a missing extension relation may not know its columns.
    let mut affected = BTreeSet::new();
    for &i in &dropped {
        if MODEL[used[i].unwrap()].0 != 0 {
            continue;
        }
        let mut d = depth_of(lines[i]);
        for j in (plan_at + 1..i).rev() {
            let l = lines[j].trim_start();
            if lines[j].is_empty() {
                break;
            }
            if l.starts_with('+') || l.starts_with('-') {
                continue;
            }
            if depth_of(lines[j]) < d {
                d = depth_of(lines[j]);
                affected.insert(j);
            }
        }
    }
    for i in 0..lines.len() {
        if dropped.contains(&i) {
            let head = lines[i].split(':').next().unwrap();
            ensure!(glines[i].starts_with(head) && glines[i].contains("!{"), "missing extension not shown as a problem", "{}\n{got}", glines[i]);
        } else if affected.contains(&i) {
            let head = lines[i].split(['[', ':']).next().unwrap();
            ensure!(glines[i].starts_with(head), "relation above a missing extension", "{}\n{got}", glines[i]);
        } else {
            ensure!(glines[i] == lines[i], "rest of the plan changed", "{}", text_diff(&want, &got));
        }
    }
    Ok(())
}

/// One payload of an otherwise writable plan is of a type that nothing is
/// registered for.
fn foreign_payload(c: &mut Case, plan: &Plan, want: &str) -> R {
    let mut odd = plan.clone();
    let mut n = 0;
    super::rels::tops_mut(&mut odd).into_iter().for_each(|r| super::rels::walk(r, &mut |r| n += super::cli::details(r).len()));
    if n == 0 {
        return Ok(());
    }
    let at = c.g.usize(n);
    let how = c.g.usize(6);
    let mut i = 0;
    let mut url = String::new();
    super::rels::tops_mut(&mut odd).into_iter().for_each(|r| {
        super::rels::walk(r, &mut |r| {
            for a in super::cli::details(r) {
                if i == at {
                    a.type_url = match how {
                        0 => String::new(),
                        1 => "type.googleapis.com/no.Such".into(),
                        2 => format!("{}2", a.type_url),
                        3 => a.type_url.to_uppercase(),
                        4 => a.type_url.rsplit('/').next().unwrap_or_default().into(),
                        _ => format!("/{}", a.type_url),
                    };
                    url = a.type_url.clone();
                }
                i += 1;
            }
        })
    });
    c.label("payload of another type");
    let (got, errors) = super::core::format(&odd)?;
    ensure!(!errors.is_empty(), "unregistered payload not reported", "{url:?}\n{got}");
    let (wl, gl): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    ensure!(wl.len() == gl.len(), "lines lost or added", "{url:?}\n{}", text_diff(want, &got));
    let changed: Vec<usize> = (0..wl.len()).filter(|&i| wl[i] != gl[i]).collect();
    let Some(&last) = changed.last() else { fail!("unregistered payload not shown", "{url:?}\n{got}") };
    let head = wl[last].split(':').next().unwrap();
    ensure!(gl[last].starts_with(head) && gl[last].contains("!{"), "unregistered payload not shown as a problem", "{url:?}: {}\n{got}", gl[last]);
    let addendum = wl[last].trim_start().starts_with('+');
    let mut depth = depth_of(wl[last]);
    let mut above = BTreeSet::new();
    for j in (0..last).rev() {
        if wl[j].is_empty() {
            break;
        }
        if depth_of(wl[j]) < depth {
            depth = depth_of(wl[j]);
            above.insert(j);
        }
    }
    for i in changed {
        ensure!(i == last || !addendum && above.contains(&i), "rest of the plan changed", "{url:?}\n{}", text_diff(want, &got));
    }
    Ok(())
}

pub const P20: Prop = Prop {
    id: "P20",
    quick: 60_000,
    thorough: 400_000,
    f: p20,
    rule: "the plan uses at least two extensions",
    assumptions: &["11 registrations over the four kinds; trees to depth 4"],
    known: &[],
};
