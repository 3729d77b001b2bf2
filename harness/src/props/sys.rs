//! Histories of calls, and faults in one place.

use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::Barrier;

use prost::Message;
use substrait::proto::expression::field_reference::RootType;
use substrait::proto::expression::if_then::IfClause;
use substrait::proto::expression::literal::{self, LiteralType};
use substrait::proto::expression::{self, Cast, FieldReference, IfThen, Literal, ScalarFunction};
use substrait::proto::function_argument::ArgType;
use substrait::proto::aggregate_rel::Measure;
use substrait::proto::read_rel::ReadType;
use substrait::proto::rel_common::Emit;
use substrait::proto::sort_field::SortKind;
use substrait::proto::{
    AggregateFunction, AggregateRel, CrossRel, Expression, FetchRel, FilterRel, FunctionArgument, JoinRel, NamedStruct, Plan, ProjectRel, ReadRel, Rel, RelRoot, SetRel, SortField, SortRel, Type, rel, r#type,
};
use substrait_explain::cli::{Cli, Commands, Format};
use substrait_explain::extensions::{ExtensionRegistry, examples};
use substrait_explain::{OutputOptions, Visibility, format_with_registry};

use super::core::parse_with;
use super::fuzz::{any_text, small, valid_text};
use super::reflect::{Editor, Spot};
use crate::r#gen::Gen;
use crate::model::{self, Cfg};
use crate::mutate::mutate;
use crate::runner::{Case, Fail, Prop, R, sut};
use crate::{ensure, ext, render};

// -------------------------------------------------------------- histories

/// One call, in a form another process can repeat.
#[derive(Clone, PartialEq, prost::Message)]
pub struct Call {
    #[prost(uint32, tag = "1")]
    kind: u32,
    #[prost(uint32, tag = "2")]
    registry: u32,
    #[prost(uint32, tag = "3")]
    options: u32,
    #[prost(bytes = "vec", tag = "4")]
    input: Vec<u8>,
}

const KINDS: &[&str] = &["parse", "format", "json to text", "text to yaml", "validate"];
const OPTIONS: usize = 6;

fn preset(i: u32) -> OutputOptions {
    let d = OutputOptions::default();
    match i {
        0 => d,
        1 => OutputOptions::verbose(),
        2 => OutputOptions { literal_types: Visibility::Always, show_emit: true, ..d },
        3 => OutputOptions { show_simple_extensions: true, show_simple_extension_anchors: Visibility::Always, nullability: true, ..d },
        4 => OutputOptions { indent: "\t".into(), virtual_table_multiline_threshold: 0, read_types: true, ..d },
        _ => OutputOptions { show_extension_urns: true, literal_types: Visibility::Never, show_literal_binaries: true, ..d },
    }
}

/// The registries calls may use; one of them is put together in a random order.
struct Registries([ExtensionRegistry; 4]);

impl Registries {
    fn plain() -> Self {
        Registries([ExtensionRegistry::new(), ext::registry(), examples::registry(), ext::registry()])
    }
    fn shuffled(g: &mut Gen) -> Self {
        let n = ext::STEPS.len();
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = g.usize(i + 1);
            order.swap(i, j);
        }
        let mut r = Self::plain();
        r.0[3] = ext::registry_in(&order);
        r
    }
    fn get(&self, i: u32) -> &ExtensionRegistry {
        &self.0[i as usize % self.0.len()]
    }
}

/// Everything observable about a call.
fn perform(c: &Call, rs: &Registries) -> String {
    let r = rs.get(c.registry);
    let text = || String::from_utf8_lossy(&c.input).into_owned();
    let plan_of = |p: &Plan| format!("{}\n{p:?}", hex(&p.encode_to_vec()));
    match c.kind {
        0 => match parse_with(&text(), r) {
            Ok(p) => plan_of(&p),
            Err(e) => format!("error {e}\n{e:?}"),
        },
        1 => {
            let p = Plan::decode(&c.input[..]).expect("plan");
            let (t, e) = format_with_registry(&p, &preset(c.options), r);
            format!("{t}\n{:?}\n{e:?}", e.iter().map(|e| e.to_string()).collect::<Vec<_>>())
        }
        k => {
            let command = match k {
                2 | 3 => Commands::Convert {
                    input: "-".into(),
                    output: "-".into(),
                    from: Some(if k == 2 { Format::Json } else { Format::Text }),
                    to: Some(if k == 2 { Format::Text } else { Format::Yaml }),
                    show_literal_types: c.options % 2 == 1,
                    verbose: false,
                },
                _ => Commands::Validate { input: "-".into(), output: "-".into(), verbose: false },
            };
            let mut out = vec![];
            let res = Cli { command }.run_with_io(&c.input[..], &mut out, r);
            let res = match res {
                Ok(o) => format!("{o:?}"),
                Err(e) => format!("error {e:#}"),
            };
            format!("{res}\n{}", hex(&out))
        }
    }
}

fn hex(b: &[u8]) -> String {
    use std::fmt::Write as _;
    let mut s = String::new();
    b.iter().for_each(|b| write!(s, "{b:02x}").unwrap());
    s
}

/// `sxcheck call`: one call from standard input, its result on standard output.
pub fn call_main() -> std::process::ExitCode {
    let mut b = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).expect("input");
    let c = Call::decode(&b[..]).expect("call");
    let s = std::thread::Builder::new().stack_size(256 << 20).spawn(move || perform(&c, &Registries::plain())).expect("thread").join();
    match s {
        Ok(s) => {
            std::io::stdout().write_all(s.as_bytes()).expect("output");
            std::process::ExitCode::SUCCESS
        }
        Err(_) => std::process::ExitCode::FAILURE,
    }
}

fn call(g: &mut Gen, earlier: &[Call]) -> Call {
    // A variation of an earlier call: the same input read otherwise.
    if !earlier.is_empty() && g.chance(1, 3) {
        let mut c = g.choose(earlier);
        match g.usize(3) {
            0 => c.registry = g.usize(4) as u32,
            1 => c.options = g.usize(OPTIONS) as u32,
            _ if matches!(c.kind, 0 | 3 | 4) => {
                let t = String::from_utf8_lossy(&c.input).into_owned();
                c.input = mutate(g, &t, &t, 1).into_bytes();
            }
            _ if c.kind == 1 => {
                let p = Plan::decode(&c.input[..]).expect("plan");
                if let Some((p, _)) = Editor::new(&p).edit(g, &|_| true) {
                    c.input = p.encode_to_vec();
                }
            }
            _ => {}
        }
        return c;
    }
    let cfg = Cfg { unspecified: true, ..small() };
    let kind = g.weighted(&[5, 5, 1, 1, 1]) as u32;
    let input = match kind {
        1 | 2 => {
            let mut p = model::plan(g, &cfg);
            if g.chance(1, 2)
                && let Some((q, _)) = Editor::new(&p).edit(g, &|_| true)
            {
                p = q;
            }
            if kind == 1 { p.encode_to_vec() } else { serde_json::to_vec(&p).unwrap_or_default() }
        }
        _ => match g.weighted(&[4, 3, 2]) {
            0 => valid_text(g, &cfg),
            1 => {
                let t = valid_text(g, &cfg);
                let n = 1 + g.count(2);
                mutate(g, &t, &t, n)
            }
            _ => any_text(g).0,
        }
        .into_bytes(),
    };
    let registry = g.choose(&[1, 1, 3, 0, 2]);
    Call { kind, registry, options: g.usize(OPTIONS) as u32, input }
}

fn show(c: &Call) -> String {
    let input = match c.kind {
        1 => format!("{:?}", Plan::decode(&c.input[..]).expect("plan")),
        _ => String::from_utf8_lossy(&c.input).into_owned(),
    };
    format!("{} (registry {}, options {})\n{input}", KINDS[c.kind as usize], c.registry, c.options)
}

fn p26(c: &mut Case) -> R {
    let n = c.g.range(2, 6);
    let mut calls: Vec<Call> = vec![];
    for _ in 0..n {
        let k = call(&mut c.g, &calls);
        c.show(&show(&k));
        calls.push(k);
    }
    // Each by itself, on a thread of its own, with registries of its own.
    let mut want: Vec<String> = vec![];
    for k in &calls {
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || sut("call", || perform(k, &Registries::plain())))
                .expect("thread")
                .join()
                .map_err(|_| Fail::new("panic", "call".to_string()))
        });
        want.push(r??);
    }
    let failed = want.iter().filter(|w| w.starts_with("error")).count();
    c.nontrivial = true;
    c.label(match failed {
        0 => "no call fails",
        f if f == n => "all calls fail",
        _ => "some calls fail",
    });
    let differs = |how: &str, i: usize, got: &str| -> R {
        if got != want[i] {
            let at = want[i].bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..s.len().min(at + 400)]).into_owned();
            return Err(Fail::new("result depends on more than the input", format!("call {i} {how}\n{}\nby itself …{}\nnow …{}", show(&calls[i]), cut(&want[i]), cut(got))));
        }
        Ok(())
    };
    // One after the other in a random order with repeats, one set of registries.
    let shared = Registries::shuffled(&mut c.g);
    for _ in 0..2 * n {
        let i = c.g.usize(n);
        let got = sut("call", || perform(&calls[i], &shared))?;
        differs("after other calls", i, &got)?;
    }
    // At the same time.
    if c.g.chance(1, 2) {
        c.label("concurrent");
        let orders: Vec<Vec<usize>> = (0..c.g.range(2, 4)).map(|_| (0..n).map(|_| c.g.usize(n)).collect()).collect();
        let gate = Barrier::new(orders.len());
        let results: Vec<Vec<(usize, Result<String, Fail>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    let (gate, shared, calls) = (&gate, &shared, &calls);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            gate.wait();
                            o.iter().map(|&i| (i, sut("call", || perform(&calls[i], shared)))).collect()
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("join")).collect()
        });
        for (i, r) in results.into_iter().flatten() {
            differs("at the same time as others", i, &r?)?;
        }
    }
    // In a process of its own.
    if c.g.chance(1, 16) {
        c.label("another process");
        let i = c.g.usize(n);
        let mut child = Command::new(std::env::current_exe().expect("executable"))
            .arg("call")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("process");
        child.stdin.take().unwrap().write_all(&calls[i].encode_to_vec()).expect("write");
        let out = child.wait_with_output().expect("output");
        ensure!(out.status.success(), "another process fails", "{:?}\n{}", out.status, show(&calls[i]));
        differs("in another process", i, &String::from_utf8_lossy(&out.stdout))?;
    }
    Ok(())
}

pub const P26: Prop = Prop {
    id: "P26",
    quick: 6_000,
    thorough: 200_000,
    f: p26,
    rule: "every case (at least two calls, each performed by itself and in histories)",
    assumptions: &["thread interleavings are those the scheduler happens to produce"],
    known: &[],
};

// ------------------------------------------------------- one faulty part

/// Stands for a healthy part that is easy to find in the text.
const MARK: i64 = 918_273_645_546_372_819;
const MARK_LEN: i32 = 918_273_645;

fn lit(l: LiteralType) -> Expression {
    model::lit_expr(Literal { literal_type: Some(l), ..Default::default() })
}

thread_local! {
    static MISSING: std::cell::Cell<u32> = const { std::cell::Cell::new(4_000_000_001) };
}

/// An anchor that the plan declares nothing for.
fn missing() -> u32 {
    MISSING.get()
}

fn choose_missing(g: &mut Gen, plan: &Plan) {
    use substrait::proto::extensions::simple_extension_declaration::MappingType as M;
    let used: Vec<u32> = plan
        .extensions
        .iter()
        .filter_map(|e| match e.mapping_type.as_ref()? {
            M::ExtensionFunction(f) => Some(f.function_anchor),
            M::ExtensionType(t) => Some(t.type_anchor),
            M::ExtensionTypeVariation(t) => Some(t.type_variation_anchor),
        })
        .collect();
    let m = g.choose(&[4_000_000_001, 0, 1, 2, 3, 11, u32::MAX, 1 << 31]);
    MISSING.set(if used.contains(&m) { 4_000_000_001 } else { m });
}

/// Expressions that cannot be written.
#[allow(deprecated)]
fn bad_expr(g: &mut Gen) -> (Expression, &'static str) {
    use expression::RexType as X;
    let ok = || lit(LiteralType::I64(1));
    let ty = || model::simple_type(0, model::REQ);
    let of = |x: X| Expression { rex_type: Some(x) };
    match g.usize(20) {
        0 => (Expression { rex_type: None }, "no expression"),
        1 => (model::lit_expr(Literal::default()), "literal without a value"),
        2 => (lit(g.choose(&[LiteralType::IntervalYearToMonth(Default::default()), LiteralType::FixedChar("x".into()), LiteralType::FixedBinary(vec![1]), LiteralType::Uuid(vec![0; 16]), LiteralType::VarChar(Default::default()), LiteralType::Decimal(Default::default()), LiteralType::Struct(Default::default()), LiteralType::Map(Default::default()), LiteralType::List(Default::default()), LiteralType::EmptyList(Default::default()), LiteralType::UserDefined(Default::default()), LiteralType::IntervalCompound(Default::default())])), "unsupported literal"),
        3 => (lit(g.choose(&[LiteralType::Time(-1), LiteralType::Time(86_400_000_000), LiteralType::Time(i64::MAX), LiteralType::Time(i64::MIN)])), "time out of range"),
        4 => (lit(LiteralType::PrecisionTimestamp(literal::PrecisionTimestamp { precision: g.choose(&[-1, 13, 99]), value: 0 })), "unsupported precision"),
        5 => (of(X::Selection(Box::new(FieldReference { reference_type: None, root_type: Some(RootType::RootReference(Default::default())) }))), "reference without a target"),
        6 => {
            let Some(X::Selection(mut s)) = model::field_expr(0).rex_type else { unreachable!() };
            s.root_type = g.choose(&[None, Some(RootType::OuterReference(Default::default())), Some(RootType::Expression(Box::new(ok())))]);
            (of(X::Selection(s)), "reference with another root")
        }
        7 => (of(X::ScalarFunction(ScalarFunction { function_reference: missing(), output_type: Some(ty()), ..Default::default() })), "unknown function"),
        8 => (of(X::ScalarFunction(ScalarFunction { function_reference: missing(), output_type: Some(ty()), arguments: vec![FunctionArgument { arg_type: Some(ArgType::Value(ok())) }], ..Default::default() })), "unknown function of arguments"),
        9 => (of(X::Cast(Box::new(Cast { r#type: None, input: Some(Box::new(ok())), failure_behavior: 0 }))), "cast without a type"),
        10 => (of(X::Cast(Box::new(Cast { r#type: Some(ty()), input: None, failure_behavior: 0 }))), "cast of nothing"),
        11 => (of(X::Cast(Box::new(Cast { r#type: Some(ty()), input: Some(Box::new(ok())), failure_behavior: g.choose(&[77, -1, -7, 3, 257, 258, i32::MIN]) }))), "cast with unknown failure behaviour"),
        12 => (of(X::IfThen(Box::new(IfThen { ifs: vec![], r#else: None }))), "empty conditional"),
        13 => (of(X::IfThen(Box::new(IfThen { ifs: vec![IfClause { r#if: None, then: Some(ok()) }], r#else: Some(Box::new(ok())) }))), "conditional without a condition"),
        14 => (of(X::WindowFunction(Default::default())), "window function"),
        15 => (of(X::SwitchExpression(Default::default())), "switch"),
        16 => (of(X::SingularOrList(Default::default())), "list membership"),
        17 => (of(X::Nested(Default::default())), "nested"),
        18 => (of(X::Subquery(Default::default())), "subquery"),
        _ => (lit(LiteralType::Null(bad_type(g).0)), "null of a bad type"),
    }
}

fn bad_type(g: &mut Gen) -> (Type, &'static str) {
    use r#type::Kind as K;
    let of = |k: K| Type { kind: Some(k) };
    match g.usize(6) {
        0 => (Type { kind: None }, "no type"),
        1 => (of(K::UserDefined(r#type::UserDefined { type_reference: missing(), nullability: model::REQ, ..Default::default() })), "unknown user-defined type"),
        2 => (of(K::List(Box::new(r#type::List { r#type: None, nullability: model::REQ, ..Default::default() }))), "list of nothing"),
        3 => (of(K::Map(Box::new(r#type::Map { key: None, value: Some(Box::new(model::simple_type(0, model::REQ))), nullability: model::REQ, ..Default::default() }))), "map without a key"),
        4 => (of(K::Struct(r#type::Struct { types: vec![Type { kind: None }], nullability: model::REQ, ..Default::default() })), "struct of nothing"),
        _ => (of(K::List(Box::new(r#type::List { r#type: Some(Box::new(of(K::UserDefined(r#type::UserDefined { type_reference: missing(), nullability: model::REQ, ..Default::default() })))), nullability: model::REQ, ..Default::default() }))), "list of unknown"),
    }
}

fn bad_rel(g: &mut Gen) -> (Rel, &'static str) {
    use rel::RelType as T;
    match g.usize(6) {
        0 => (Rel { rel_type: None }, "no relation"),
        1 => (model::rel_of(T::Window(Default::default())), "window relation"),
        2 => (model::rel_of(T::HashJoin(Default::default())), "hash join"),
        3 => (model::rel_of(T::Exchange(Default::default())), "exchange"),
        4 => (model::rel_of(T::Reference(Default::default())), "reference relation"),
        _ => (model::rel_of(T::Expand(Default::default())), "expand"),
    }
}

fn bad_any(g: &mut Gen) -> (pbjson_types::Any, &'static str) {
    let any = |u: String, v: Vec<u8>| pbjson_types::Any { type_url: u, value: v.into() };
    match g.usize(4) {
        0 => (any("type.googleapis.com/no.Such".into(), vec![]), "unregistered payload"),
        1 => (any(String::new(), vec![]), "payload without a type"),
        2 => (any(ext::url("RelA"), vec![0xff, 0xff]), "undecodable payload"),
        _ => (any(ext::url(g.pick(&["EnhA", "OptA", "TabA", "RelA"])), vec![0x0a, 0x7f, 1]), "truncated payload"),
    }
}

/// A payload of a registered type whose arguments cannot be written.
fn bad_payload(g: &mut Gen, was: &pbjson_types::Any) -> Option<(pbjson_types::Any, &'static str)> {
    use crate::ext::{Col, NamedVal, Payload, V, Val, ValList};
    let short = was.type_url.rsplit('.').next().unwrap_or_default().to_string();
    let addendum = ["Enh", "Opt", "Tab"].iter().any(|p| short.starts_with(p));
    if !addendum && !short.starts_with("Rel") {
        return None;
    }
    let mut p = Payload::default();
    let val = |v: V| Val { v: Some(v) };
    let (v, what) = match g.usize(5) {
        0 if addendum => {
            p.cols.push(if g.bool() {
                Col { name: "c".into(), ty: Some(model::simple_type(0, model::REQ)), expr: None }
            } else {
                Col { name: String::new(), ty: None, expr: Some(model::field_expr(0)) }
            });
            (V::Int(1), "columns of an addendum")
        }
        0 => {
            p.cols.push(if g.bool() { Col { name: "c".into(), ty: Some(bad_type(g).0), expr: None } } else { Col { name: String::new(), ty: None, expr: Some(bad_expr(g).0) } });
            (V::Int(1), "column that cannot be written")
        }
        1 => (V::Enum(g.pick(&["", "a.b", "1a", "a b", "é", "a-b", "&A", "A]", "x\ny", "a.", "..", "a::b"]).to_string()), "enum argument that is no identifier"),
        2 => (V::FloatBits(g.choose(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).to_bits()), "float argument that is no number"),
        _ => (V::Expr(bad_expr(g).0), "expression argument that cannot be written"),
    };
    let v = if g.chance(1, 3) { V::Tuple(ValList { items: vec![val(V::Int(1)), val(v)] }) } else { v };
    if g.bool() {
        p.positional.push(val(v));
    } else {
        p.named.push(NamedVal { name: "a".into(), val: Some(val(v)) });
    }
    Some((pbjson_types::Any { type_url: was.type_url.clone(), value: p.encode_to_vec().into() }, what))
}

/// The line matches the pieces with a marker in each gap.
fn fits(line: &str, pieces: &[&str]) -> bool {
    fn rest(line: &str, pieces: &[&str]) -> bool {
        match pieces {
            [] => false,
            [last] => line.strip_suffix(last).is_some_and(|m| m.contains("!{")),
            [next, more @ ..] => {
                let mut from = 0;
                while let Some(i) = line[from..].find(next) {
                    let i = from + i;
                    if line[..i].contains("!{") && rest(&line[i + next.len()..], more) {
                        return true;
                    }
                    match line[i..].chars().next() {
                        Some(ch) => from = i + ch.len_utf8(),
                        None => break,
                    }
                }
                false
            }
        }
    }
    match pieces {
        [] | [_] => false,
        [first, more @ ..] => line.strip_prefix(first).is_some_and(|l| rest(l, more)),
    }
}

/// The lines a line hangs under, by indentation.
fn ancestors(lines: &[&str], at: usize) -> Vec<usize> {
    let indent = |l: &str| l.len() - l.trim_start_matches(' ').len();
    let mut out = vec![];
    let mut level = indent(lines[at]);
    for i in (0..at).rev() {
        if lines[i].trim().is_empty() {
            break;
        }
        if indent(lines[i]) < level {
            level = indent(lines[i]);
            out.push(i);
        }
    }
    out
}

/// Change one message of a kind; the kind, the change and how.
type Damage = (&'static str, &'static str, fn(&[u8]) -> Vec<u8>);

fn with<M: Message + Default>(b: &[u8], f: impl FnOnce(&mut M)) -> Vec<u8> {
    let mut m = M::decode(b).expect("message");
    f(&mut m);
    m.encode_to_vec()
}

const DAMAGE: &[Damage] = &[
    ("substrait.JoinRel", "unknown join type", |b| with(b, |m: &mut JoinRel| m.r#type = 77)),
    ("substrait.JoinRel", "join type 0", |b| with(b, |m: &mut JoinRel| m.r#type = 0)),
    ("substrait.SetRel", "set operation 0", |b| with(b, |m: &mut SetRel| m.op = 0)),
    ("substrait.SortField", "sort direction 0", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(0)))),
    ("substrait.JoinRel", "join type -1", |b| with(b, |m: &mut JoinRel| m.r#type = -1)),
    ("substrait.SetRel", "set operation -1", |b| with(b, |m: &mut SetRel| m.op = -1)),
    ("substrait.SortField", "sort direction -1", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(-1)))),
    ("substrait.JoinRel", "join type 257", |b| with(b, |m: &mut JoinRel| m.r#type = 257)),
    ("substrait.SetRel", "set operation 257", |b| with(b, |m: &mut SetRel| m.op = 257)),
    ("substrait.SortField", "sort direction 257", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(257)))),
    ("substrait.JoinRel", "join type 258", |b| with(b, |m: &mut JoinRel| m.r#type = 258)),
    ("substrait.SetRel", "set operation 258", |b| with(b, |m: &mut SetRel| m.op = 258)),
    ("substrait.SortField", "sort direction 258", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(258)))),
    ("substrait.JoinRel", "join type 65537", |b| with(b, |m: &mut JoinRel| m.r#type = 65537)),
    ("substrait.SetRel", "set operation 65537", |b| with(b, |m: &mut SetRel| m.op = 65537)),
    ("substrait.SortField", "sort direction 65537", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(65537)))),
    ("substrait.JoinRel", "join type 1shl24", |b| with(b, |m: &mut JoinRel| m.r#type = 1 << 24)),
    ("substrait.SetRel", "set operation 1shl24", |b| with(b, |m: &mut SetRel| m.op = 1 << 24)),
    ("substrait.SortField", "sort direction 1shl24", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(1 << 24)))),
    ("substrait.JoinRel", "join type 13+1", |b| with(b, |m: &mut JoinRel| m.r#type = 13 + 1)),
    ("substrait.SetRel", "set operation 13+1", |b| with(b, |m: &mut SetRel| m.op = 13 + 1)),
    ("substrait.SortField", "sort direction 13+1", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(13 + 1)))),
    ("substrait.JoinRel", "join type i32::MIN+1", |b| with(b, |m: &mut JoinRel| m.r#type = i32::MIN + 1)),
    ("substrait.SetRel", "set operation i32::MIN+1", |b| with(b, |m: &mut SetRel| m.op = i32::MIN + 1)),
    ("substrait.SortField", "sort direction i32::MIN+1", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(i32::MIN + 1)))),
    ("substrait.Expression.Cast", "failure behaviour 77", |b| with(b, |m: &mut Cast| m.failure_behavior = 77)),
    ("substrait.Expression.Cast", "failure behaviour -1", |b| with(b, |m: &mut Cast| m.failure_behavior = -1)),
    ("substrait.Expression.Cast", "failure behaviour 3", |b| with(b, |m: &mut Cast| m.failure_behavior = 3)),
    ("substrait.Expression.Cast", "failure behaviour 257", |b| with(b, |m: &mut Cast| m.failure_behavior = 257)),
    ("substrait.Expression.Cast", "failure behaviour 65537", |b| with(b, |m: &mut Cast| m.failure_behavior = 65537)),
    ("substrait.Expression.Cast", "failure behaviour i32::MIN+1", |b| with(b, |m: &mut Cast| m.failure_behavior = i32::MIN + 1)),
    ("substrait.RelCommon.Emit", "output of column -1", |b| {
        with(b, |m: &mut Emit| {
            if let Some(i) = m.output_mapping.last_mut() {
                *i = -1;
            }
        })
    }),
    ("substrait.JoinRel", "no join condition", |b| with(b, |m: &mut JoinRel| m.expression = None)),
    ("substrait.SetRel", "unknown set operation", |b| with(b, |m: &mut SetRel| m.op = 77)),
    ("substrait.SortField", "unknown sort direction", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::Direction(77)))),
    ("substrait.SortField", "no sort direction", |b| with(b, |m: &mut SortField| m.sort_kind = None)),
    ("substrait.SortField", "sort by comparison", |b| with(b, |m: &mut SortField| m.sort_kind = Some(SortKind::ComparisonFunctionReference(1)))),
    ("substrait.SortField", "sort by nothing", |b| with(b, |m: &mut SortField| m.expr = None)),
    ("substrait.FilterRel", "no filter condition", |b| with(b, |m: &mut FilterRel| m.condition = None)),
    ("substrait.ReadRel", "no schema", |b| with(b, |m: &mut ReadRel| m.base_schema = None)),
    ("substrait.ReadRel", "nothing to read", |b| {
        // The payload's own line would go with it.
        with(b, |m: &mut ReadRel| {
            m.read_type.take_if(|t| !matches!(t, ReadType::ExtensionTable(_)));
        })
    }),
    ("substrait.ReadRel", "a best effort filter", |b| with(b, |m: &mut ReadRel| m.best_effort_filter = Some(Box::new(lit(LiteralType::Boolean(true)))))),
    ("substrait.NamedStruct", "a name too few", |b| with(b, |m: &mut NamedStruct| drop(m.names.pop()))),
    ("substrait.NamedStruct", "a type too few", |b| with(b, |m: &mut NamedStruct| drop(m.r#struct.as_mut().and_then(|s| s.types.pop())))),
    ("substrait.NamedStruct", "a name too many", |b| with(b, |m: &mut NamedStruct| m.names.push("more".into()))),
    ("substrait.NamedStruct", "a type too many", |b| with(b, |m: &mut NamedStruct| m.r#struct.get_or_insert_default().types.push(model::simple_type(1, model::REQ)))),
    ("substrait.AggregateRel.Measure", "no measure", |b| with(b, |m: &mut Measure| m.measure = None)),
    ("substrait.FunctionArgument", "no argument", |b| with(b, |m: &mut FunctionArgument| m.arg_type = None)),
    ("substrait.Expression.IfThen.IfClause", "no consequence", |b| with(b, |m: &mut IfClause| m.then = None)),
    ("substrait.Expression.IfThen", "no alternative", |b| with(b, |m: &mut IfThen| m.r#else = None)),
    ("substrait.Expression.ScalarFunction", "unknown function in place", |b| with(b, |m: &mut ScalarFunction| m.function_reference = missing())),
    ("substrait.AggregateFunction", "unknown aggregate function", |b| with(b, |m: &mut AggregateFunction| m.function_reference = missing())),
    ("substrait.Type.UserDefined", "unknown user-defined type in place", |b| with(b, |m: &mut r#type::UserDefined| m.type_reference = missing())),
    ("substrait.Expression.Literal", "no literal in place", |b| with(b, |m: &mut Literal| m.literal_type = None)),
    ("substrait.extensions.SimpleExtensionDeclaration", "declaration of nothing", |_| vec![]),
];

/// Put a relation, or none, where a message has its input.
type Input = (&'static str, fn(&[u8], Option<Rel>) -> Vec<u8>);

const INPUTS: &[Input] = &[
    ("substrait.FilterRel", |b, r| with(b, |m: &mut FilterRel| m.input = r.map(Box::new))),
    ("substrait.ProjectRel", |b, r| with(b, |m: &mut ProjectRel| m.input = r.map(Box::new))),
    ("substrait.FetchRel", |b, r| with(b, |m: &mut FetchRel| m.input = r.map(Box::new))),
    ("substrait.SortRel", |b, r| with(b, |m: &mut SortRel| m.input = r.map(Box::new))),
    ("substrait.AggregateRel", |b, r| with(b, |m: &mut AggregateRel| m.input = r.map(Box::new))),
    ("substrait.JoinRel", |b, r| with(b, |m: &mut JoinRel| m.left = r.map(Box::new))),
    ("substrait.JoinRel", |b, r| with(b, |m: &mut JoinRel| m.right = r.map(Box::new))),
    ("substrait.CrossRel", |b, r| with(b, |m: &mut CrossRel| m.left = r.map(Box::new))),
    ("substrait.CrossRel", |b, r| with(b, |m: &mut CrossRel| m.right = r.map(Box::new))),
    ("substrait.RelRoot", |b, r| with(b, |m: &mut RelRoot| m.input = r)),
];

/// A relation without its input: a marker in its place, and nothing else moves.
fn no_input(c: &mut Case, editor: &Editor) -> R {
    let here: Vec<(&Input, Vec<Spot>)> = INPUTS.iter().map(|i| (i, editor.spots(i.0))).filter(|(_, s)| !s.is_empty()).collect();
    if here.is_empty() {
        c.label("nothing to damage");
        return Ok(());
    }
    let ((name, f), spots) = c.g.choose(&here);
    let s = c.g.choose(&spots);
    let put = |r: Option<Rel>| editor.put(&[(s.clone(), f(&editor.at(&s), r))]);
    let o = OutputOptions { virtual_table_multiline_threshold: usize::MAX, ..OutputOptions::default() };
    let format = |p: &Plan| sut("format", || ext::with_registry(|r| format_with_registry(p, &o, r)));
    let mark = MARK.to_string();
    let (want, errs) = format(&put(Some(render::canonical_read(&mark))))?;
    if !errs.is_empty() {
        c.label("place needs something special");
        return Ok(());
    }
    let (got, errs) = format(&put(None))?;
    c.show(&format!("no input of a {name}\n{want}\n----\n{got}"));
    c.nontrivial = true;
    c.label("no input");
    ensure!(!errs.is_empty(), "a fault is not reported", "no input of a {name}\n{got}\nwithout the fault\n{want}");
    let (wl, gl): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    ensure!(wl.len() == gl.len(), "a fault changes the lines around it", "no input of a {name}\n{got}\nwithout the fault\n{want}");
    let at = (0..wl.len()).find(|&i| wl[i].contains(&mark)).ok_or_else(|| Fail::new("an input is not shown", want.clone()))?;
    let above = ancestors(&wl, at);
    for i in 0..wl.len() {
        let fine = if i == at { gl[i].contains("!{") } else { wl[i] == gl[i] || above.contains(&i) };
        ensure!(fine, if i == at { "no marker at the fault" } else { "a fault changes another line" }, "no input of a {name}\nline {i}: {}\nwithout the fault: {}\n{got}", gl[i], wl[i]);
    }
    Ok(())
}

fn in_place(c: &mut Case, plan: &Plan, editor: &Editor) -> R {
    let (name, what, f) = *c.g.choose(&DAMAGE.iter().collect::<Vec<_>>());
    let spots = editor.spots(name);
    if spots.is_empty() {
        c.label("nothing to damage");
        return Ok(());
    }
    let s = c.g.choose(&spots);
    let faulty = editor.put(&[(s.clone(), f(&editor.at(&s)))]);
    let o = OutputOptions { virtual_table_multiline_threshold: usize::MAX, ..OutputOptions::default() };
    let format = |p: &Plan| sut("format", || ext::with_registry(|r| format_with_registry(p, &o, r)));
    let (want, errs) = format(plan)?;
    ensure!(errs.is_empty(), "a healthy plan has problems", "{errs:?}\n{want}");
    let (got, errs) = format(&faulty)?;
    c.show(&format!("{what}\n{want}\n----\n{got}"));
    c.nontrivial = true;
    c.label(what);
    if faulty == *plan {
        return Ok(());
    }
    if errs.is_empty() && name.ends_with("Emit") {
        // A list of references shows any column, there or not.
        return super::core::same_plan(&faulty, &super::core::must_parse(&got)?, "a fault is not reported", &got);
    }
    ensure!(!errs.is_empty(), "a fault is not reported", "{what}\n{got}\nwithout the fault\n{want}");
    let (wl, gl): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    // A declaration is not part of the tree, and its absence shows at its uses.
    if name.ends_with("Declaration") {
        return Ok(());
    }
    ensure!(wl.len() == gl.len(), "a fault changes the lines around it", "{what}\n{got}\nwithout the fault\n{want}");
    let changed: Vec<usize> = (0..wl.len()).filter(|&i| wl[i] != gl[i]).collect();
    let last = *changed.last().ok_or_else(|| Fail::new("no marker at the fault", format!("{what}\n{got}")))?;
    ensure!(gl[last].contains("!{"), "no marker at the fault", "{what}\nline {last}: {}\n{got}\nwithout the fault\n{want}", gl[last]);
    let above = ancestors(&wl, last);
    for i in changed {
        ensure!(i == last || above.contains(&i), "a fault changes another line", "{what}\nline {i}: {}\nwithout the fault: {}\n{got}", gl[i], wl[i]);
    }
    Ok(())
}

/// Something odd that is written nevertheless: a report, and no other line changes.
fn questionable(c: &mut Case, editor: &Editor) -> R {
    let g = &mut c.g;
    let what;
    let (name, even, odd, shown) = if g.bool() {
        let p = g.choose(&[3, 6, 9, 12]);
        let bound = 10_i64.pow(p as u32);
        let sub = g.choose(&[bound, -bound, bound + 1, -bound - 1, 7 * bound, -7 * bound, i64::MAX, i64::MIN]);
        let of = |subseconds: i64| {
            lit(LiteralType::IntervalDayToSecond(literal::IntervalDayToSecond {
                days: 1,
                seconds: 1,
                subseconds,
                precision_mode: Some(literal::interval_day_to_second::PrecisionMode::Precision(p)),
            }))
            .encode_to_vec()
        };
        what = format!("{sub} subseconds of precision {p}");
        ("substrait.Expression", of(1), of(sub), format!("{sub}"))
    } else {
        let k = g.usize(model::SIMPLE_TYPES);
        what = format!("unspecified nullability of type {k}");
        ("substrait.Type", model::simple_type(k, model::REQ).encode_to_vec(), model::simple_type(k, 0).encode_to_vec(), "⁉".to_string())
    };
    let spots = editor.spots(name);
    if spots.is_empty() {
        c.label("nothing to damage");
        return Ok(());
    }
    let s = c.g.choose(&spots);
    let mut o = if c.g.bool() { super::fuzz::options(&mut c.g) } else { OutputOptions::default() };
    o.virtual_table_multiline_threshold = usize::MAX;
    o.nullability = true;
    let f = |b: &[u8]| {
        let p = editor.put(&[(s.clone(), b.to_vec())]);
        sut("format", || ext::with_registry(|r| format_with_registry(&p, &o, r)))
    };
    let (want, errs) = f(&even)?;
    let (got, errs2) = f(&odd)?;
    c.show(&format!("{what}\n{want}\n----\n{got}"));
    if !errs.is_empty() || want == got {
        c.label("place needs something special");
        return Ok(());
    }
    c.nontrivial = true;
    c.label("questionable");
    ensure!(!errs2.is_empty(), "a fault is not reported", "{what}\n{got}\nwithout the fault\n{want}");
    let (wl, gl): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    ensure!(wl.len() == gl.len(), "a fault changes the lines around it", "{what}\n{got}\nwithout the fault\n{want}");
    let changed: Vec<usize> = (0..wl.len()).filter(|&i| wl[i] != gl[i]).collect();
    ensure!(changed.len() == 1, "a fault changes another line", "{what}\n{got}\nwithout the fault\n{want}");
    ensure!(gl[changed[0]].contains(&shown), "the odd part is not shown", "{what}\n{got}\nwithout the fault\n{want}");
    Ok(())
}

fn p27(c: &mut Case) -> R {
    let ext_dense = c.g.chance(1, 3);
    let plan = model::plan(&mut c.g, &Cfg { ext_dense, ..small() });
    choose_missing(&mut c.g, &plan);
    let editor = Editor::new(&plan);
    if c.g.chance(2, 5) {
        return match c.g.weighted(&[1, 1, 3]) {
            0 => no_input(c, &editor),
            1 => questionable(c, &editor),
            _ => in_place(c, &plan, &editor),
        };
    }
    let kind = c.g.weighted(&[5, 3, 3, 3]);
    let (name, healthy) = match kind {
        0 => ("substrait.Expression", lit(LiteralType::I64(MARK)).encode_to_vec()),
        1 => ("substrait.Type", Type { kind: Some(r#type::Kind::FixedChar(r#type::FixedChar { length: MARK_LEN, nullability: model::REQ, ..Default::default() })) }.encode_to_vec()),
        2 => ("substrait.Rel", render::canonical_read(&MARK.to_string()).encode_to_vec()),
        _ => ("google.protobuf.Any", vec![]),
    };
    let mark = match kind {
        1 => format!("fixedchar<{MARK_LEN}>"),
        _ => MARK.to_string(),
    };
    let spots = editor.spots(name);
    if spots.is_empty() {
        c.label("nothing to damage");
        return Ok(());
    }
    // One place, or several that do not contain each other.
    let n = if kind < 2 && c.g.chance(1, 3) { 3 } else { 1 };
    let mut chosen: Vec<Spot> = vec![];
    for _ in 0..n {
        let s = c.g.choose(&spots);
        if !chosen.iter().any(|t| t.overlaps(&s)) {
            chosen.push(s);
        }
    }
    let healthy_at = |s: &Spot| match kind {
        3 => {
            let a = pbjson_types::Any::decode(&editor.at(s)[..]).expect("payload");
            let p = ext::Payload { positional: vec![super::slots::value(&lit(LiteralType::I64(MARK)))], ..Default::default() };
            pbjson_types::Any { type_url: a.type_url, value: p.encode_to_vec().into() }.encode_to_vec()
        }
        _ => healthy.clone(),
    };
    let base = editor.put(&chosen.iter().map(|s| (s.clone(), healthy_at(s))).collect::<Vec<_>>());
    let mut whats = vec![];
    let g = &mut c.g;
    let faults: Vec<(Spot, Vec<u8>)> = chosen
        .iter()
        .map(|s| {
            let (b, w) = match kind {
                0 => {
                    let (e, w) = bad_expr(g);
                    (e.encode_to_vec(), w)
                }
                1 => {
                    let (t, w) = bad_type(g);
                    (t.encode_to_vec(), w)
                }
                2 => {
                    let (r, w) = bad_rel(g);
                    (r.encode_to_vec(), w)
                }
                _ => {
                    let was = pbjson_types::Any::decode(&editor.at(s)[..]).expect("payload");
                    let own = if g.bool() { bad_payload(g, &was) } else { None };
                    let (a, w) = own.unwrap_or_else(|| bad_any(g));
                    (a.encode_to_vec(), w)
                }
            };
            whats.push(w);
            (s.clone(), b)
        })
        .collect();
    let faulty = editor.put(&faults);
    let mut o = if g.chance(1, 3) { super::fuzz::options(g) } else { OutputOptions::default() };
    o.indent = "  ".into();
    let f = |p: &Plan| sut("format", || ext::with_registry(|r| format_with_registry(p, &o, r)));
    let (want, errs) = f(&base)?;
    // The literal's own type goes with it.
    let want = want.replace(&format!("{MARK}:i64"), &MARK.to_string());
    c.show(&format!("{whats:?}\n{want}"));
    if !errs.is_empty() {
        c.label("place needs something special");
        return Ok(());
    }
    if !want.contains(&mark) {
        c.label("place is not shown");
        return Ok(());
    }
    c.nontrivial = true;
    whats.iter().for_each(|w| c.label(*w));
    let (got, errs) = f(&faulty)?;
    ensure!(!errs.is_empty(), "a fault is not reported", "{whats:?}\n{got}\nwithout the fault\n{want}");
    ensure!(errs.len() >= whats.len(), "fewer reports than faults", "{whats:?}\n{errs:?}\n{got}");
    let (wl, gl): (Vec<&str>, Vec<&str>) = (want.lines().collect(), got.lines().collect());
    ensure!(wl.len() == gl.len(), "a fault changes the lines around it", "{whats:?}\n{got}\nwithout the fault\n{want}");
    let involved: Vec<usize> = match kind {
        2 | 3 => (0..wl.len()).filter(|&i| wl[i].contains(&mark)).flat_map(|i| ancestors(&wl, i)).collect(),
        _ => vec![],
    };
    for (i, (w, l)) in wl.iter().zip(&gl).enumerate() {
        let fine = match w.contains(&mark) {
            true if kind < 2 => fits(l, &w.split(&mark).collect::<Vec<_>>()),
            true => l.contains("!{"),
            false => l == w || involved.contains(&i),
        };
        ensure!(fine, if w.contains(&mark) { "no marker at the fault" } else { "a fault changes another line" }, "{whats:?}\nline {i}: {l}\nwithout the fault: {w}\n{got}\nwithout the fault\n{want}");
    }
    Ok(())
}

pub const P27: Prop = Prop {
    id: "P27",
    quick: 90_000,
    thorough: 2_000_000,
    f: p27,
    rule: "the damaged part is one that the text shows",
    assumptions: &["a relation whose columns are unknown may change the lines of the relations above it"],
    known: &[],
};
