//! Edits of a plan through its protobuf schema.

use std::collections::HashMap;

use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, FieldDescriptor, Kind, MapKey, ReflectMessage, Value};
use substrait::proto::Plan;

use crate::r#gen::Gen;

thread_local! {
    static POOL: DescriptorPool = substrait_explain::json::build_descriptor_pool(&[]).expect("descriptors");
}

pub fn dump(p: &Plan) -> String {
    format!("{p:?}")
}

/// One step down from a message: a field, and an index for repeated fields.
#[derive(Clone, Debug)]
struct Step {
    number: u32,
    index: Option<usize>,
}

/// A place that can be edited: the path to a message, and one of its fields.
#[derive(Clone)]
struct Site {
    path: Vec<Step>,
    /// `Message.field` names from the root to the edited field.
    names: Vec<String>,
    field: FieldDescriptor,
    present: bool,
}

pub struct Edit<'a> {
    /// `Message.field` names from the root to the edited field, short names.
    pub names: &'a [String],
    pub op: &'static str,
    /// Old and new value of the field, as text.
    pub new: &'a str,
}

impl Edit<'_> {
    pub fn last(&self) -> &str {
        self.names.last().map(|s| s.as_str()).unwrap_or("")
    }
}

fn short(n: &str) -> &str {
    n.strip_prefix("substrait.").unwrap_or(n)
}

type Paths = HashMap<String, Vec<Vec<Step>>>;

fn collect(m: &DynamicMessage, path: &mut Vec<Step>, names: &mut Vec<String>, sites: &mut Vec<Site>, donors: &mut Paths) {
    let d = m.descriptor();
    donors.entry(d.full_name().to_string()).or_default().push(path.clone());
    for f in d.fields() {
        let present = m.has_field(&f);
        names.push(format!("{}.{}", short(d.full_name()), f.name()));
        sites.push(Site { path: path.clone(), names: names.clone(), field: f.clone(), present });
        if present {
            match m.get_field(&f).as_ref() {
                Value::Message(sub) => {
                    path.push(Step { number: f.number(), index: None });
                    collect(sub, path, names, sites, donors);
                    path.pop();
                }
                Value::List(l) => {
                    for (i, v) in l.iter().enumerate() {
                        if let Value::Message(sub) = v {
                            path.push(Step { number: f.number(), index: Some(i) });
                            collect(sub, path, names, sites, donors);
                            path.pop();
                        }
                    }
                }
                _ => {}
            }
        }
        names.pop();
    }
}

fn at<'m>(m: &'m mut DynamicMessage, path: &[Step]) -> &'m mut DynamicMessage {
    match path.split_first() {
        None => m,
        Some((s, rest)) => {
            let v = m.get_field_by_number_mut(s.number).expect("field");
            let sub = match (v, s.index) {
                (Value::Message(sub), None) => sub,
                (Value::List(l), Some(i)) => match &mut l[i] {
                    Value::Message(sub) => sub,
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            };
            at(sub, rest)
        }
    }
}

fn get(m: &DynamicMessage, path: &[Step]) -> DynamicMessage {
    match path.split_first() {
        None => m.clone(),
        Some((s, rest)) => {
            let v = m.get_field_by_number(s.number).expect("field");
            match (v.as_ref(), s.index) {
                (Value::Message(sub), None) => get(sub, rest),
                (Value::List(l), Some(i)) => match &l[i] {
                    Value::Message(sub) => get(sub, rest),
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            }
        }
    }
}

/// Messages of the plan itself, to be used in other places of it.
struct Donors<'a> {
    root: &'a DynamicMessage,
    paths: &'a Paths,
}

fn scalar(g: &mut Gen, k: &Kind) -> Value {
    match k {
        Kind::Double => Value::F64(f64::from_bits(g.raw())),
        Kind::Float => Value::F32(f32::from_bits(g.raw() as u32)),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(if g.bool() { g.below(10) as i32 - 2 } else { g.i64() as i32 }),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(if g.bool() { g.below(5) as i64 - 2 } else { g.i64() }),
        Kind::Uint32 | Kind::Fixed32 => Value::U32(if g.bool() { g.below(8) as u32 } else { g.i64() as u32 }),
        Kind::Uint64 | Kind::Fixed64 => Value::U64(g.i64() as u64),
        Kind::Bool => Value::Bool(g.bool()),
        Kind::String => Value::String(crate::model::string(g)),
        Kind::Bytes => Value::Bytes((0..g.count(20)).map(|_| g.below(256) as u8).collect::<Vec<u8>>().into()),
        Kind::Enum(e) => {
            let n = e.values().count() as u64;
            Value::EnumNumber(if g.chance(1, 6) { {
                let near = e.values().nth(g.below(n) as usize).unwrap().number();
                g.choose(&[-1, 99, i32::MAX, 14, n as i32, near + 256, near + 65_536, near + i32::MIN, -near])
            } } else { e.values().nth(g.below(n) as usize).unwrap().number() })
        }
        Kind::Message(_) => unreachable!(),
    }
}

fn message(g: &mut Gen, k: &Kind, donors: &Donors<'_>, depth: usize) -> DynamicMessage {
    let Kind::Message(d) = k else { unreachable!() };
    if let Some(ds) = donors.paths.get(d.full_name())
        && g.chance(1, 2)
    {
        return get(donors.root, &ds[g.usize(ds.len())]);
    }
    let mut m = DynamicMessage::new(d.clone());
    let fields: Vec<FieldDescriptor> = d.fields().collect();
    if fields.is_empty() || depth == 0 {
        return m;
    }
    for _ in 0..1 + g.count(3) {
        let f = &fields[g.usize(fields.len())];
        let v = value(g, f, donors, depth - 1);
        m.set_field(f, v);
    }
    m
}

fn single(g: &mut Gen, k: &Kind, donors: &Donors<'_>, depth: usize) -> Value {
    match k {
        Kind::Message(_) => Value::Message(message(g, k, donors, depth)),
        _ => scalar(g, k),
    }
}

fn value(g: &mut Gen, f: &FieldDescriptor, donors: &Donors<'_>, depth: usize) -> Value {
    if f.is_map() {
        return Value::Map(HashMap::<MapKey, Value>::new());
    }
    if f.cardinality() == Cardinality::Repeated {
        let n = 1 + g.count(2);
        return Value::List((0..n).map(|_| single(g, &f.kind(), donors, depth)).collect());
    }
    single(g, &f.kind(), donors, depth)
}

/// A plan to be edited.
pub struct Editor {
    bytes: Vec<u8>,
    root: DynamicMessage,
    sites: Vec<Site>,
    paths: Paths,
}

impl Editor {
    pub fn new(plan: &Plan) -> Self {
        let desc = POOL.with(|p| p.get_message_by_name("substrait.Plan").expect("Plan"));
        let bytes = plan.encode_to_vec();
        let root = DynamicMessage::decode(desc, bytes.as_slice()).expect("plan");
        let mut sites = vec![];
        let mut paths = HashMap::new();
        collect(&root, &mut vec![], &mut vec![], &mut sites, &mut paths);
        Editor { bytes, root, sites, paths }
    }

    /// Make one random edit. `ok` says which are wanted; others are not tried
    /// again. `None` if the edit was not wanted or changed nothing.
    pub fn edit(&self, g: &mut Gen, ok: &dyn Fn(&Edit) -> bool) -> Option<(Plan, String)> {
    let donors = Donors { root: &self.root, paths: &self.paths };
    let sites = &self.sites;
    let mut m = self.root.clone();
    // Fields that are present are a minority; visit them as often as the rest.
    let want_present = g.chance(2, 3);
    let pool: Vec<&Site> = sites.iter().filter(|s| s.present == want_present).collect();
    if pool.is_empty() {
        return None;
    }
    let mut site = pool[g.usize(pool.len())];
    // Every field is as likely as every other, however often it occurs.
    if g.bool() {
        let mut kinds: Vec<&str> = pool.iter().map(|s| s.names.last().map_or("", |n| n.as_str())).collect();
        kinds.sort_unstable();
        kinds.dedup();
        let kind = kinds[g.usize(kinds.len())];
        let of: Vec<&Site> = pool.into_iter().filter(|s| s.names.last().is_some_and(|n| n == kind)).collect();
        site = of[g.usize(of.len())];
    }
    let f = &site.field;
    let target = at(&mut m, &site.path);
    let old = if site.present { format!("{}", target.get_field(f)) } else { "unset".into() };
    let op: &'static str;
    if site.present && f.cardinality() == Cardinality::Repeated && !f.is_map() {
        let Value::List(l) = target.get_field_mut(f) else { unreachable!() };
        let i = g.usize(l.len());
        match g.usize(6) {
            0 => {
                l.remove(i);
                op = "remove item";
            }
            1 => {
                let x = l[i].clone();
                l.insert(i, x);
                op = "repeat item";
            }
            2 => {
                let j = g.usize(l.len());
                l.swap(i, j);
                op = "swap items";
            }
            3 => {
                l.insert(i, single(g, &f.kind(), &donors, 3));
                op = "insert item";
            }
            4 => {
                l.clear();
                op = "clear list";
            }
            _ => {
                l[i] = single(g, &f.kind(), &donors, 3);
                op = "replace item";
            }
        }
    } else if site.present && g.chance(1, 3) {
        target.clear_field(f);
        op = "clear";
    } else {
        let v = value(g, f, &donors, 3);
        target.set_field(f, v);
        op = if site.present { "replace" } else { "set" };
    }
    let new = if target.has_field(f) { format!("{}", target.get_field(f)) } else { "unset".into() };
    if !ok(&Edit { names: &site.names, op, new: &new }) {
        return None;
    }
    let edited = Plan::decode(m.encode_to_vec().as_slice()).ok()?;
    if edited.encode_to_vec() == self.bytes {
        return None;
    }
    Some((edited, format!("{op} {} : {} -> {}", site.names.join(" / "), clip(&old), clip(&new))))
    }
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

fn sub(m: &DynamicMessage, f: &str) -> Option<DynamicMessage> {
    if !m.has_field_by_name(f) {
        return None;
    }
    match m.get_field_by_name(f).as_deref() {
        Some(Value::Message(x)) => Some(x.clone()),
        _ => None,
    }
}

fn list_len(m: &DynamicMessage, f: &str) -> usize {
    match m.get_field_by_name(f).as_deref() {
        Some(Value::List(l)) => l.len(),
        _ => 0,
    }
}

fn mapping(m: &DynamicMessage) -> Option<Vec<i32>> {
    let emit = sub(&sub(m, "common")?, "emit")?;
    match emit.get_field_by_name("output_mapping").as_deref() {
        Some(Value::List(l)) => Some(l.iter().map(|v| if let Value::I32(i) = v { *i } else { -1 }).collect()),
        _ => Some(vec![]),
    }
}

/// Columns a relation of any shape emits, as far as that is defined.
fn width(rel: &DynamicMessage) -> usize {
    let Some((f, v)) = rel.fields().next() else { return 0 };
    let Value::Message(r) = v else { return 0 };
    if let Some(m) = mapping(r) {
        return m.len();
    }
    direct_width(f.name(), r)
}

/// The width of a relation whose width is not known here; no mapping is that long.
const UNKNOWN: usize = 1 << 40;

fn direct_width(kind: &str, r: &DynamicMessage) -> usize {
    let w = |n: &str| sub(r, n).map_or(0, |x| width(&x));
    match kind {
        "read" => sub(r, "base_schema").map_or(0, |s| list_len(&s, "names")),
        "filter" | "sort" | "fetch" => w("input"),
        "project" => w("input") + list_len(r, "expressions"),
        "aggregate" => list_len(r, "grouping_expressions") + list_len(r, "measures"),
        "cross" => w("left") + w("right"),
        "join" => {
            let t = match r.get_field_by_name("type").as_deref() {
                Some(Value::EnumNumber(t)) if (0..13).contains(t) => *t,
                _ => 0,
            };
            crate::model::join_width(t, w("left"), w("right"))
        }
        "set" => match r.get_field_by_name("inputs").as_deref() {
            Some(Value::List(l)) => {
                let mut widths: Vec<usize> = l.iter().map(|v| if let Value::Message(m) = v { width(m) } else { 0 }).collect();
                widths.dedup();
                match widths[..] {
                    [] => 0,
                    [w] => w,
                    // Not defined when they differ.
                    _ => UNKNOWN,
                }
            }
            _ => 0,
        },
        "extension_leaf" | "extension_single" | "extension_multi" => extension_width(r).unwrap_or(UNKNOWN),
        _ => UNKNOWN,
    }
}

fn extension_width(r: &DynamicMessage) -> Option<usize> {
    let any = sub(r, "detail")?;
    let url = any.get_field_by_name("type_url")?.as_str()?.to_string();
    if !crate::ext::REL_NAMES.iter().any(|(_, u)| crate::ext::url(u) == url) {
        return None;
    }
    let bytes = any.get_field_by_name("value")?.as_bytes()?.clone();
    crate::ext::Payload::decode(bytes).ok().map(|p| p.cols.len())
}

/// Remove what has no meaning or is not shown, so that two plans with the same
/// content become equal.
pub fn normalize(plan: &Plan) -> Vec<u8> {
    let desc = POOL.with(|p| p.get_message_by_name("substrait.Plan").expect("Plan"));
    let mut m = DynamicMessage::decode(desc, plan.encode_to_vec().as_slice()).expect("plan");
    norm(&mut m);
    m.encode_to_vec()
}

fn messages(m: &DynamicMessage, f: &str) -> Vec<DynamicMessage> {
    match m.get_field_by_name(f).as_deref() {
        Some(Value::List(l)) => l.iter().filter_map(|v| v.as_message().cloned()).collect(),
        _ => vec![],
    }
}

fn set_messages(m: &mut DynamicMessage, f: &str, l: Vec<DynamicMessage>) {
    m.set_field_by_name(f, Value::List(l.into_iter().map(Value::Message).collect()));
}

fn set_mapping(r: &mut DynamicMessage, map: Vec<i32>) {
    if let Value::Message(c) = r.get_field_by_name_mut("common").unwrap()
        && let Value::Message(e) = c.get_field_by_name_mut("emit").unwrap()
    {
        e.set_field_by_name("output_mapping", Value::List(map.into_iter().map(Value::I32).collect()));
    }
}

/// The input column an expression refers to, if it is nothing else.
fn column(e: &DynamicMessage) -> Option<i32> {
    let sel = sub(e, "selection")?;
    let field = sub(&sub(&sel, "direct_reference")?, "struct_field")?;
    if !sel.has_field_by_name("root_reference") || field.has_field_by_name("child") {
        return None;
    }
    field.get_field_by_name("field")?.as_i32().filter(|i| *i >= 0)
}

/// Computed columns in the order, and as often, as the relation puts them out.
fn canonical_project(r: &mut DynamicMessage) {
    let base = sub(r, "input").map_or(0, |x| width(&x));
    if base >= UNKNOWN {
        if mapping(r).is_some() {
            r.clear_field_by_name("expressions");
        }
        return;
    }
    let all = messages(r, "expressions");
    let map = mapping(r).unwrap_or_else(|| (0..(base + all.len()) as i32).collect());
    let mut new = vec![];
    let map = map
        .into_iter()
        .map(|i| match all.get((i as usize).wrapping_sub(base)) {
            // A computed column that is an input column.
            Some(e) if i >= 0 && column(e).is_some() => {
                let c = column(e).unwrap();
                if (c as usize) < base { c } else { i32::MIN + c }
            }
            Some(e) if i >= 0 => {
                new.push(e.clone());
                (base + new.len() - 1) as i32
            }
            // There is no such column.
            None if i as usize >= base && i >= 0 => i32::MIN + i,
            _ => i,
        })
        .collect();
    set_messages(r, "expressions", new);
    set_mapping(r, map);
}

/// Grouping expressions in the order of their first use, measures in the order
/// and as often as the relation puts them out.
fn canonical_aggregate(r: &mut DynamicMessage) {
    let groups = messages(r, "grouping_expressions");
    let measures = messages(r, "measures");
    let keys: Vec<Vec<u8>> = groups
        .iter()
        .map(|x| {
            let mut x = x.clone();
            norm(&mut x);
            x.encode_to_vec()
        })
        .collect();
    let mut used: Vec<usize> = vec![];
    let mut place = |i: usize| {
        used.iter().position(|&j| keys[j] == keys[i]).unwrap_or_else(|| {
            used.push(i);
            used.len() - 1
        })
    };
    let mut sets = messages(r, "groupings");
    for s in &mut sets {
        if let Value::List(refs) = s.get_field_by_name_mut("expression_references").unwrap() {
            for v in refs {
                if let Some(i) = v.as_u32()
                    && (i as usize) < groups.len()
                {
                    *v = Value::U32(place(i as usize) as u32);
                }
            }
        }
    }
    let outs = mapping(r).unwrap_or_else(|| (0..(groups.len() + measures.len()) as i32).collect());
    let mut new_measures = vec![];
    let mut map: Vec<(i32, bool)> = vec![];
    for i in outs {
        let u = i as usize;
        map.push(if i >= 0 && u < groups.len() {
            (place(u) as i32, false)
        } else if i >= 0 && u < groups.len() + measures.len() {
            new_measures.push(measures[u - groups.len()].clone());
            (new_measures.len() as i32 - 1, true)
        } else {
            (i, false)
        });
    }
    let n = used.len() as i32;
    let groups = used.iter().map(|&i| groups[i].clone()).collect();
    set_messages(r, "grouping_expressions", groups);
    set_messages(r, "measures", new_measures);
    set_messages(r, "groupings", sets);
    set_mapping(r, map.into_iter().map(|(i, m)| if m { n + i } else { i }).collect());
}

fn norm(m: &mut DynamicMessage) {
    let d = m.descriptor();
    let name = short(d.full_name()).to_string();
    // Relations: what the output mapping leaves out, then the mapping itself.
    if name == "Rel" {
        let inner = m.fields().next().map(|(f, v)| (f.clone(), v.clone()));
        if let Some((f, Value::Message(mut r))) = inner {
            match f.name() {
                "project" => canonical_project(&mut r),
                "aggregate" => canonical_aggregate(&mut r),
                _ => {}
            }
            let map = mapping(&r);
            let direct = direct_width(f.name(), &r);
            let identity = map.as_ref().is_none_or(|m| m.len() == direct && m.iter().enumerate().all(|(i, &x)| x as i64 == i as i64));
            if r.descriptor().get_field_by_name("common").is_some() {
                let Value::Message(c) = r.get_field_by_name_mut("common").unwrap() else { unreachable!() };
                c.clear_field_by_name("hint");
                c.clear_field_by_name("advanced_extension");
                c.clear_field_by_name("direct");
                if identity || direct >= UNKNOWN {
                    c.clear_field_by_name("emit");
                }
            }
            if f.name() == "aggregate"
                && let Value::List(l) = r.get_field_by_name_mut("groupings").unwrap()
                && matches!(l.as_slice(), [Value::Message(x)] if x.encoded_len() == 0)
            {
                l.clear();
            }
            m.set_field(&f, Value::Message(r));
        }
    }
    let clear: &[&str] = match name.as_str() {
        "Plan" => &["advanced_extensions", "expected_type_urls", "type_aliases", "parameter_bindings"],
        "ReadRel.NamedTable" => &["advanced_extension"],
        "AggregateRel.Measure" => &["filter"],
        "AggregateFunction" => &["phase", "invocation", "sorts", "options"],
        "NamedStruct" => &[],
        _ => &[],
    };
    for c in clear {
        m.clear_field_by_name(c);
    }
    if sub(m, "advanced_extension").is_some_and(|x| x.encoded_len() == 0) {
        m.clear_field_by_name("advanced_extension");
    }
    if name == "Plan" {
        for f in ["extensions", "extension_urns"] {
            if let Value::List(l) = m.get_field_by_name_mut(f).unwrap() {
                l.sort_by_key(|v| if let Value::Message(x) = v { x.encode_to_vec() } else { vec![] });
            }
        }
        if sub(m, "version").is_some_and(|v| v.encoded_len() == 0) {
            m.clear_field_by_name("version");
        }
    }
    if name == "NamedStruct"
        && let Value::Message(s) = m.get_field_by_name_mut("struct").unwrap()
    {
        s.clear_field_by_name("nullability");
        s.clear_field_by_name("type_variation_reference");
    }
    if name == "Expression.Literal" && m.has_field_by_name("null") {
        m.clear_field_by_name("nullable");
        m.clear_field_by_name("type_variation_reference");
    }
    // Deprecated alternatives, ignored when the current field is set.
    if ["Expression.ScalarFunction", "AggregateFunction"].contains(&name.as_str()) && list_len(m, "args") > 0 {
        if list_len(m, "arguments") == 0 {
            let fd = d.parent_pool().get_message_by_name("substrait.FunctionArgument").unwrap();
            let args = messages(m, "args")
                .into_iter()
                .map(|e| {
                    let mut a = DynamicMessage::new(fd.clone());
                    a.set_field_by_name("value", Value::Message(e));
                    a
                })
                .collect();
            set_messages(m, "arguments", args);
        }
        m.clear_field_by_name("args");
    }
    if name == "AggregateRel"
        && list_len(m, "grouping_expressions") > 0
        && let Value::List(l) = m.get_field_by_name_mut("groupings").unwrap()
    {
        for v in l {
            if let Value::Message(x) = v {
                x.clear_field_by_name("grouping_expressions");
            }
        }
    }
    if name == "Expression.Literal.IntervalDayToSecond" && !m.has_field_by_name("precision") {
        if m.has_field_by_name("microseconds") {
            let Value::I32(us) = *m.get_field_by_name("microseconds").unwrap() else { unreachable!() };
            m.set_field_by_name("subseconds", Value::I64(us as i64));
        }
        m.set_field_by_name("precision", Value::I32(6));
    }
    if name == "FetchRel" {
        for (old, new) in [("count", "count_expr"), ("offset", "offset_expr")] {
            if m.has_field_by_name(old) {
                let Value::I64(n) = *m.get_field_by_name(old).unwrap() else { unreachable!() };
                let mut e = DynamicMessage::new(d.parent_pool().get_message_by_name("substrait.Expression").unwrap());
                let mut l = DynamicMessage::new(d.parent_pool().get_message_by_name("substrait.Expression.Literal").unwrap());
                l.set_field_by_name("i64", Value::I64(n));
                e.set_field_by_name("literal", Value::Message(l));
                m.set_field_by_name(new, Value::Message(e));
            }
        }
    }
    if name == "Type.IntervalDay" && !m.has_field_by_name("precision") {
        m.set_field_by_name("precision", Value::I32(6));
    }
    let fields: Vec<FieldDescriptor> = m.fields().map(|(f, _)| f.clone()).collect();
    for f in fields {
        match m.get_field_mut(&f) {
            Value::Message(x) => norm(x),
            Value::List(l) => {
                for v in l {
                    if let Value::Message(x) = v {
                        norm(x);
                    }
                }
            }
            _ => {}
        }
    }
}

/// Where a message lies in a plan.
#[derive(Clone, Debug)]
pub struct Spot(Vec<Step>);

impl Spot {
    /// One lies within the other.
    pub fn overlaps(&self, other: &Spot) -> bool {
        self.0.iter().zip(&other.0).all(|(a, b)| a.number == b.number && a.index == b.index)
    }
}

impl Editor {
    /// The places of the messages of a type.
    pub fn spots(&self, name: &str) -> Vec<Spot> {
        self.paths.get(name).map(|v| v.iter().cloned().map(Spot).collect()).unwrap_or_default()
    }
    /// The message at a place.
    pub fn at(&self, s: &Spot) -> Vec<u8> {
        get(&self.root, &s.0).encode_to_vec()
    }
    /// The plan with other messages at some places.
    pub fn put(&self, new: &[(Spot, Vec<u8>)]) -> Plan {
        let mut m = self.root.clone();
        for (s, b) in new {
            let d = at(&mut m, &s.0);
            *d = DynamicMessage::decode(d.descriptor(), b.as_slice()).expect("message");
        }
        Plan::decode(m.encode_to_vec().as_slice()).expect("plan")
    }
}
