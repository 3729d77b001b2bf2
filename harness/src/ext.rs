//! Extension payloads that store arbitrary text-format arguments verbatim, so
//! that whatever the parser hands over is what the formatter gets back.

use indexmap::IndexMap;
use prost::Message;
use substrait::proto;
use substrait_explain::extensions::{
    ArgsAccess, Explainable, ExtensionArgs, ExtensionColumn, ExtensionContext, ExtensionError,
    ExtensionRegistry, ExtensionValue, TupleValue,
};

#[derive(Clone, PartialEq, prost::Message)]
pub struct ValList {
    #[prost(message, repeated, tag = "1")]
    pub items: Vec<Val>,
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct Val {
    #[prost(oneof = "V", tags = "1, 2, 3, 4, 5, 6, 7, 8")]
    pub v: Option<V>,
}

#[derive(Clone, PartialEq, prost::Oneof)]
pub enum V {
    #[prost(string, tag = "1")]
    Str(String),
    #[prost(sint64, tag = "2")]
    Int(i64),
    #[prost(fixed64, tag = "3")]
    FloatBits(u64),
    #[prost(bool, tag = "4")]
    Bool(bool),
    #[prost(bool, tag = "5")]
    Null(bool),
    #[prost(message, tag = "6")]
    Expr(proto::Expression),
    #[prost(string, tag = "7")]
    Enum(String),
    #[prost(message, tag = "8")]
    Tuple(ValList),
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct NamedVal {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub val: Option<Val>,
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct Col {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub ty: Option<proto::Type>,
    #[prost(message, optional, tag = "3")]
    pub expr: Option<proto::Expression>,
}

/// The arguments of an extension, as stored in its payload.
#[derive(Clone, PartialEq, prost::Message)]
pub struct Payload {
    #[prost(message, repeated, tag = "1")]
    pub positional: Vec<Val>,
    #[prost(message, repeated, tag = "2")]
    pub named: Vec<NamedVal>,
    #[prost(message, repeated, tag = "3")]
    pub cols: Vec<Col>,
}

/// The plain value that a literal expression of the default type stands for:
/// the documentation lets an extension read either as the other.
pub fn plain(e: &proto::Expression) -> Option<V> {
    use proto::expression::literal::LiteralType as L;
    let Some(proto::expression::RexType::Literal(l)) = &e.rex_type else { return None };
    if l.nullable {
        return None;
    }
    Some(match l.literal_type.as_ref()? {
        L::I64(v) => V::Int(*v),
        L::Boolean(v) => V::Bool(*v),
        L::String(v) => V::Str(v.clone()),
        L::Fp64(v) => V::FloatBits(v.to_bits()),
        _ => return None,
    })
}

pub fn to_val(v: &ExtensionValue) -> Val {
    let v = match v {
        ExtensionValue::Expr(e) if plain(e.as_proto()).is_some() => plain(e.as_proto()).unwrap(),
        ExtensionValue::String(s) => V::Str(s.clone()),
        ExtensionValue::Integer(i) => V::Int(*i),
        ExtensionValue::Float(f) => V::FloatBits(f.to_bits()),
        ExtensionValue::Boolean(b) => V::Bool(*b),
        ExtensionValue::Null => V::Null(true),
        ExtensionValue::Expr(e) => V::Expr(e.to_proto()),
        ExtensionValue::Enum(e) => V::Enum(e.clone()),
        ExtensionValue::Tuple(t) => V::Tuple(ValList { items: t.iter().map(to_val).collect() }),
        // Never produced by the parser: an `Error` value is an output-only marker.
        ExtensionValue::Error(e) => V::Str(format!("<error value {e}>")),
    };
    Val { v: Some(v) }
}

fn missing(what: &'static str) -> ExtensionError {
    ExtensionError::InvalidArgument(format!("payload without {what}"))
}

pub fn from_val(v: &Val) -> Result<ExtensionValue, ExtensionError> {
    Ok(match v.v.as_ref().ok_or_else(|| missing("value"))? {
        V::Str(s) => ExtensionValue::String(s.clone()),
        V::Int(i) => ExtensionValue::Integer(*i),
        V::FloatBits(b) => ExtensionValue::Float(f64::from_bits(*b)),
        V::Bool(b) => ExtensionValue::Boolean(*b),
        V::Null(_) => ExtensionValue::Null,
        V::Expr(e) => ExtensionValue::Expr(e.clone().into()),
        V::Enum(e) => ExtensionValue::Enum(e.clone()),
        V::Tuple(t) => ExtensionValue::Tuple(t.items.iter().map(from_val).collect::<Result<Vec<_>, _>>()?.into_iter().collect::<TupleValue>()),
    })
}

impl Payload {
    pub fn read(args: &mut ArgsAccess<'_>, names: &[String]) -> Self {
        Payload {
            positional: args.positional().iter().map(to_val).collect(),
            named: names
                .iter()
                .map(|n| NamedVal { name: n.clone(), val: args.get_named_arg(n).map(to_val) })
                .collect(),
            cols: args
                .output_columns()
                .iter()
                .map(|c| match c {
                    ExtensionColumn::Named { name, r#type } => Col { name: name.clone(), ty: Some(r#type.clone()), expr: None },
                    ExtensionColumn::Expr(e) => Col { name: String::new(), ty: None, expr: Some(e.to_proto()) },
                })
                .collect(),
        }
    }
    pub fn args(&self) -> Result<ExtensionArgs, ExtensionError> {
        let mut named = IndexMap::new();
        for n in &self.named {
            named.insert(n.name.clone(), from_val(n.val.as_ref().ok_or_else(|| missing("named value"))?)?);
        }
        let mut a = ExtensionArgs::default();
        a.positional = self.positional.iter().map(from_val).collect::<Result<_, _>>()?;
        a.named = named;
        a.output_columns = self
            .cols
            .iter()
            .map(|c| match (&c.ty, &c.expr) {
                (Some(t), _) => Ok(ExtensionColumn::Named { name: c.name.clone(), r#type: t.clone() }),
                (None, Some(e)) => Ok(ExtensionColumn::Expr(e.clone().into())),
                _ => Err(missing("column")),
            })
            .collect::<Result<_, _>>()?;
        Ok(a)
    }
}

/// The argument names the generator draws from. A handler only sees the names
/// it asks for, so the payload asks for each of these, in order of the text.
pub const ARG_NAMES: &[&str] = &[
    "a", "b", "count", "limit", "offset", "filter", "post_filter", "mode", "x1", "snake_case_name", "Z",
    "needs quote", "", "dotted.name", "1st", "émile", "tab\there", "q\"uote", "back\\slash", "null", "true", "_",
];

macro_rules! payload_type {
    ($t:ident, $name:expr, $url:expr) => {
        #[derive(Clone, PartialEq, prost::Message)]
        pub struct $t {
            #[prost(message, repeated, tag = "1")]
            pub positional: Vec<Val>,
            #[prost(message, repeated, tag = "2")]
            pub named: Vec<NamedVal>,
            #[prost(message, repeated, tag = "3")]
            pub cols: Vec<Col>,
        }
        impl prost::Name for $t {
            const PACKAGE: &'static str = "sxcheck";
            const NAME: &'static str = $url;
            fn full_name() -> String {
                concat!("sxcheck.", $url).to_owned()
            }
            fn type_url() -> String {
                concat!("type.googleapis.com/sxcheck.", $url).to_owned()
            }
        }
        impl Explainable for $t {
            fn name() -> &'static str {
                $name
            }
            fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
                let names: Vec<String> = ARG_NAMES.iter().map(|s| s.to_string()).collect();
                let mut p = Payload::read(args, &names);
                p.named.retain(|n| n.val.is_some());
                Ok($t { positional: p.positional, named: p.named, cols: p.cols })
            }
            fn to_args(&self, _c: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
                Payload { positional: self.positional.clone(), named: self.named.clone(), cols: self.cols.clone() }.args()
            }
        }
    };
}

payload_type!(RelA, "ExtRel", "RelA");
payload_type!(RelB, "Other_2", "RelB");
payload_type!(RelC, "quoted ext\"name", "RelC");
payload_type!(EnhA, "EnhOne", "EnhA");
payload_type!(EnhB, "weird-enh", "EnhB");
payload_type!(OptA, "OptOne", "OptA");
payload_type!(OptB, "ExtRel", "OptB");
payload_type!(TabA, "TableExt", "TabA");
payload_type!(TabB, "EnhOne", "TabB");

/// An extension whose columns are all the columns of its inputs, which it
/// learns only from the context it is formatted with; it also spells out how
/// many columns each input has.
#[derive(Clone, PartialEq, prost::Message)]
pub struct PassThrough {
    #[prost(string, tag = "1")]
    pub note: String,
}
impl prost::Name for PassThrough {
    const PACKAGE: &'static str = "sxcheck";
    const NAME: &'static str = "PassThrough";
    fn full_name() -> String {
        "sxcheck.PassThrough".to_owned()
    }
    fn type_url() -> String {
        "type.googleapis.com/sxcheck.PassThrough".to_owned()
    }
}
impl Explainable for PassThrough {
    fn name() -> &'static str {
        "PassThrough"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let note: String = args.get_named("note")?.unwrap_or_default();
        args.get_named_arg("widths");
        Ok(PassThrough { note })
    }
    fn to_args(&self, c: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        a.insert("note", self.note.clone());
        let widths: Vec<i64> = c.inputs().iter().map(|i| i.emitted_column_count() as i64).collect();
        a.insert("widths", widths);
        let mut n = 0;
        for i in c.inputs() {
            for _ in 0..i.emitted_column_count() {
                a.output_columns.push(ExtensionColumn::field(n));
                n += 1;
            }
        }
        Ok(a)
    }
}

pub const REL_NAMES: &[(&str, &str)] = &[("ExtRel", "RelA"), ("Other_2", "RelB"), ("quoted ext\"name", "RelC")];
pub const PASS: (&str, &str) = ("PassThrough", "PassThrough");
pub const ENH_NAMES: &[(&str, &str)] = &[("EnhOne", "EnhA"), ("weird-enh", "EnhB")];
pub const OPT_NAMES: &[(&str, &str)] = &[("OptOne", "OptA"), ("ExtRel", "OptB")];
pub const TAB_NAMES: &[(&str, &str)] = &[("TableExt", "TabA"), ("EnhOne", "TabB")];

/// The registrations, in the usual order.
pub const STEPS: &[fn(&mut ExtensionRegistry)] = &[
    |r| r.register_relation::<RelA>().expect("register"),
    |r| r.register_relation::<RelB>().expect("register"),
    |r| r.register_relation::<RelC>().expect("register"),
    |r| r.register_relation::<PassThrough>().expect("register"),
    |r| r.register_enhancement::<EnhA>().expect("register"),
    |r| r.register_enhancement::<PassThrough>().expect("register"),
    |r| r.register_enhancement::<EnhB>().expect("register"),
    |r| r.register_optimization::<OptA>().expect("register"),
    |r| r.register_optimization::<OptB>().expect("register"),
    |r| r.register_extension_table::<TabA>().expect("register"),
    |r| r.register_extension_table::<TabB>().expect("register"),
];

pub fn registry() -> ExtensionRegistry {
    registry_in(&(0..STEPS.len()).collect::<Vec<_>>())
}

pub fn registry_in(order: &[usize]) -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    order.iter().for_each(|&i| STEPS[i](&mut r));
    r
}

thread_local! {
    static REG: ExtensionRegistry = registry();
}

pub fn with_registry<T>(f: impl FnOnce(&ExtensionRegistry) -> T) -> T {
    REG.with(f)
}

pub fn url(short: &str) -> String {
    format!("type.googleapis.com/sxcheck.{short}")
}

/// The registered text name for a payload's type URL.
pub fn name_of(type_url: &str) -> Option<&'static str> {
    [REL_NAMES, ENH_NAMES, OPT_NAMES, TAB_NAMES]
        .iter()
        .flat_map(|t| t.iter())
        .chain([&PASS])
        .find(|(_, u)| url(u) == type_url)
        .map(|(n, _)| *n)
}

pub fn any(short: &str, p: &Payload) -> pbjson_types::Any {
    pbjson_types::Any { type_url: url(short), value: p.encode_to_vec().into() }
}

pub fn decode(a: &pbjson_types::Any) -> Payload {
    Payload::decode(a.value.clone()).expect("payload")
}

/// The arguments and columns a payload is written with, given the widths of the
/// inputs of its relation (none for an addendum).
pub fn shown(a: &pbjson_types::Any, inputs: &[usize]) -> Payload {
    if a.type_url != url(PASS.1) {
        return decode(a);
    }
    let p = PassThrough::decode(a.value.clone()).expect("payload");
    let val = |v| Some(Val { v: Some(v) });
    let widths = inputs.iter().map(|w| Val { v: Some(V::Int(*w as i64)) }).collect();
    Payload {
        positional: vec![],
        named: vec![
            NamedVal { name: "note".into(), val: val(V::Str(p.note)) },
            NamedVal { name: "widths".into(), val: val(V::Tuple(ValList { items: widths })) },
        ],
        cols: (0..inputs.iter().sum::<usize>())
            .map(|i| Col { name: String::new(), ty: None, expr: Some(crate::model::field_expr(i as i32)) })
            .collect(),
    }
}

/// The value with its exact kind.
pub fn exact(v: &ExtensionValue) -> Val {
    let v = match v {
        ExtensionValue::Expr(e) => V::Expr(e.to_proto()),
        ExtensionValue::Tuple(t) => V::Tuple(ValList { items: t.iter().map(exact).collect() }),
        other => return to_val(other),
    };
    Val { v: Some(v) }
}
