//! The command line tool and the file formats.


use std::collections::HashMap;
use std::fs;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, Kind, MapKey, MessageDescriptor, SerializeOptions, Value};
use prost_types::field_descriptor_proto::{Label, Type as FT};
use prost_types::{
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, MessageOptions,
    OneofDescriptorProto,
};
use substrait::proto::Plan;
use substrait_explain::cli::{Cli, Commands, Format, Outcome};
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{OutputOptions, Visibility, json};

use super::core::parse_with;
use super::fuzz::{any_text, byte_edit, small, valid_text};
use crate::r#gen::Gen;
use crate::model::{self, Cfg};
use crate::runner::{Case, Fail, Known, Prop, R, sut};
use crate::{ensure, ext, fail, render};

pub const FORMATS: [Format; 4] = [Format::Text, Format::Json, Format::Yaml, Format::Protobuf];

thread_local! {
    static CORE: DescriptorPool = json::build_descriptor_pool(&[]).expect("descriptors");
    static FULL: DescriptorPool = {
        let b = blobs();
        json::build_descriptor_pool(&b.iter().map(|b| b.as_slice()).collect::<Vec<_>>()).expect("descriptors")
    };
    static WITH_DESCRIPTORS: ExtensionRegistry = {
        let mut r = ext::registry();
        blobs().into_iter().for_each(|b| r.add_descriptor(b));
        r
    };
}

// ------------------------------------------------------------- known floats
//
// The JSON reader is off by a unit in the last place on some numbers, and does
// not take the largest float (known findings), so other numbers are used.

fn tame64(v: f64) -> f64 {
    let exact = |v: f64| serde_json::to_string(&v).ok().and_then(|s| serde_json::from_str::<f64>(&s).ok()).is_some_and(|w| w.to_bits() == v.to_bits());
    if !v.is_finite() || exact(v) {
        return v;
    }
    let w = v as f32 as f64;
    if w.is_finite() && exact(w) { w } else { 1.5 }
}

fn tame32(v: f32) -> f32 {
    match v {
        f32::MAX => 1e38,
        f32::MIN => -1e38,
        _ => v,
    }
}

fn tame_value(v: &mut Value) {
    match v {
        Value::F64(x) => *x = tame64(*x),
        Value::F32(x) => *x = tame32(*x),
        Value::Message(m) => tame_message(m),
        Value::List(l) => l.iter_mut().for_each(tame_value),
        Value::Map(m) => m.values_mut().for_each(tame_value),
        _ => {}
    }
}

fn tame_message(m: &mut DynamicMessage) {
    m.fields_mut().for_each(|(_, v)| tame_value(v));
}

fn tame(plan: Plan) -> Plan {
    CORE.with(|pool| {
        let d = pool.get_message_by_name("substrait.Plan").expect("Plan");
        let mut m = DynamicMessage::decode(d, plan.encode_to_vec().as_slice()).expect("plan");
        tame_message(&mut m);
        Plan::decode(m.encode_to_vec().as_slice()).expect("plan")
    })
}

/// The reader's own rendition of a plan written as JSON.
fn as_read(to: &Format, p: &Plan) -> Plan {
    match to {
        Format::Json => decode(to, &encode(to, p)).unwrap_or_else(|_| p.clone()),
        _ => p.clone(),
    }
}

// ------------------------------------------------------- arbitrary messages

struct Make<'a> {
    /// Payload message types for `Any` fields; none means random bytes.
    payloads: &'a [MessageDescriptor],
    /// Also NaN and infinities.
    non_finite: bool,
}

impl Make<'_> {
    fn scalar(&self, g: &mut Gen, k: &Kind) -> Value {
        match k {
            Kind::Double => Value::F64(tame64(match g.weighted(&[3, 2, if self.non_finite { 1 } else { 0 }]) {
                0 => model::f64v(g),
                1 => g.choose(&[0.0, -0.0, 1.0, 0.1, 1e300, f64::MAX, f64::MIN_POSITIVE]),
                _ => g.choose(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            })),
            Kind::Float => Value::F32(tame32(match g.weighted(&[3, 2, if self.non_finite { 1 } else { 0 }]) {
                0 => model::f32v(g),
                1 => g.choose(&[0.0, -0.0, 1.0, 0.1, 1e30, f32::MAX, f32::MIN_POSITIVE]),
                _ => g.choose(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            })),
            Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(if g.bool() { g.below(4) as i32 } else { g.i64() as i32 }),
            Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(g.i64()),
            Kind::Uint32 | Kind::Fixed32 => Value::U32(if g.bool() { g.below(4) as u32 } else { g.i64() as u32 }),
            Kind::Uint64 | Kind::Fixed64 => Value::U64(g.i64() as u64),
            Kind::Bool => Value::Bool(g.bool()),
            Kind::String => Value::String(text(g)),
            Kind::Bytes => Value::Bytes((0..g.count(20)).map(|_| g.below(256) as u8).collect::<Vec<u8>>().into()),
            Kind::Enum(e) => {
                let n = e.values().count() as u64;
                Value::EnumNumber(e.values().nth(g.below(n) as usize).unwrap().number())
            }
            Kind::Message(_) => unreachable!(),
        }
    }
    fn single(&self, g: &mut Gen, k: &Kind, depth: usize) -> Value {
        match k {
            Kind::Message(d) => Value::Message(self.message(g, d, depth)),
            _ => self.scalar(g, k),
        }
    }
    fn any(&self, g: &mut Gen, d: &MessageDescriptor, depth: usize) -> DynamicMessage {
        let mut m = DynamicMessage::new(d.clone());
        if self.payloads.is_empty() {
            m.set_field_by_name("type_url", Value::String(text(g)));
            m.set_field_by_name("value", self.scalar(g, &Kind::Bytes));
        } else {
            let t = &self.payloads[g.usize(self.payloads.len())];
            let p = self.message(g, t, depth.saturating_sub(1));
            m.set_field_by_name("type_url", Value::String(format!("{}{}", g.pick(&["type.googleapis.com/", "type.googleapis.com/", "example.org/x/"]), t.full_name())));
            m.set_field_by_name("value", Value::Bytes(p.encode_to_vec().into()));
        }
        m
    }
    fn message(&self, g: &mut Gen, d: &MessageDescriptor, depth: usize) -> DynamicMessage {
        if d.full_name() == "google.protobuf.Any" {
            return self.any(g, d, depth);
        }
        let mut m = DynamicMessage::new(d.clone());
        let n = d.fields().count();
        if n == 0 {
            return m;
        }
        for _ in 0..1 + g.count(4) {
            let f = d.fields().nth(g.usize(n)).unwrap();
            if depth == 0 && matches!(f.kind(), Kind::Message(_)) {
                continue;
            }
            let depth = depth.saturating_sub(1);
            let v = if f.is_map() {
                let Kind::Message(e) = f.kind() else { unreachable!() };
                let (kk, vk) = (e.get_field(1).unwrap().kind(), e.get_field(2).unwrap().kind());
                let mut h = HashMap::<MapKey, Value>::new();
                for _ in 0..g.usize(3) {
                    let key = match kk {
                        Kind::String => MapKey::String(text(g)),
                        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => MapKey::I64(g.i64()),
                        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => MapKey::I32(g.i64() as i32),
                        Kind::Uint32 | Kind::Fixed32 => MapKey::U32(g.i64() as u32),
                        Kind::Uint64 | Kind::Fixed64 => MapKey::U64(g.i64() as u64),
                        _ => MapKey::Bool(g.bool()),
                    };
                    let v = self.single(g, &vk, depth);
                    h.insert(key, v);
                }
                Value::Map(h)
            } else if f.cardinality() == Cardinality::Repeated {
                Value::List((0..g.range(1, 3)).map(|_| self.single(g, &f.kind(), depth)).collect())
            } else {
                self.single(g, &f.kind(), depth)
            };
            m.set_field(&f, v);
        }
        m
    }
}

/// Strings that YAML or JSON might take for something else.
fn text(g: &mut Gen) -> String {
    match g.weighted(&[3, 3]) {
        0 => g
            .pick(&[
                "", "null", "~", "true", "no", "yes", "on", "1", "1.0", "0x10", "1e3", ".inf", ".nan", "2020-01-01", "- a", "a: b", "# c", "'q'", "\"d\"", "{}", "[]", "!tag", "&a", "*a", "|", ">",
                "%", "@x", "`", "a\nb", "\n", " lead", "trail ", "a\n\nb\n", "\t", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "\u{7f}", "\\", "é", "🦀", "=", "<<", "---", "...", "a\r\nb", "012", "+1", "0o7",
                "1_000", "12:30:45", "\u{1b}", "\u{e000}", "\u{fffd}",
            ])
            .to_string(),
        _ => model::string(g),
    }
}

fn arbitrary_plan(g: &mut Gen, make: &Make<'_>, pool: &DescriptorPool) -> Plan {
    let d = pool.get_message_by_name("substrait.Plan").expect("Plan");
    let depth = g.range(2, 9);
    let mut m = make.message(g, &d, depth);
    // Most fields of a plan are far below its relations.
    if g.chance(4, 5) {
        let f = d.get_field_by_name("relations").unwrap();
        let v = (0..g.range(1, 2)).map(|_| make.single(g, &f.kind(), depth)).collect();
        m.set_field(&f, Value::List(v));
    }
    Plan::decode(m.encode_to_vec().as_slice()).expect("plan")
}

// ------------------------------------------------------------- conversions

fn file_name(g: &mut Gen, f: &Format) -> String {
    let e = match f {
        Format::Text => g.pick(&["substrait", "txt"]),
        Format::Json => "json",
        Format::Yaml => g.pick(&["yaml", "yml"]),
        Format::Protobuf => g.pick(&["pb", "proto", "protobuf"]),
    };
    let e = random_case(g, e);
    format!("{}.{e}", g.pick(&["plan", "a.b", "dir/plan", "x.json", "p.txt", ".hidden", "sp ace", "ünï", "dir.pb/x", "-", "--"]))
}

fn random_case(g: &mut Gen, s: &str) -> String {
    match g.usize(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// What a file holds, read without the tool.
fn decode(f: &Format, bytes: &[u8]) -> Result<Plan, String> {
    let s = || std::str::from_utf8(bytes).map_err(|e| e.to_string());
    match f {
        Format::Text => ext::with_registry(|r| parse_with(s()?, r).map_err(|e| e.to_string())),
        Format::Json => serde_json::from_str(s()?).map_err(|e| e.to_string()),
        Format::Yaml => serde_yaml::from_str(s()?).map_err(|e| e.to_string()),
        Format::Protobuf => Plan::decode(bytes).map_err(|e| e.to_string()),
    }
}

fn encode(f: &Format, p: &Plan) -> Vec<u8> {
    match f {
        Format::Text => render::canonical(p).into_bytes(),
        Format::Json => serde_json::to_vec(p).expect("json"),
        Format::Yaml => serde_yaml::to_string(p).expect("yaml").into_bytes(),
        Format::Protobuf => p.encode_to_vec(),
    }
}

fn convert_cli(input: &str, output: &str, from: Option<Format>, to: Option<Format>, types: bool) -> Cli {
    Cli { command: Commands::Convert { input: input.into(), output: output.into(), from, to, show_literal_types: types, verbose: false } }
}

/// One conversion through the tool, by option or by file name.
fn convert(g: &mut Gen, bytes: &[u8], from: &Format, to: &Format) -> Result<Vec<u8>, Fail> {
    let mut out = vec![];
    let (inp, outp) = (g.bool(), g.bool());
    let types = g.chance(1, 4);
    let wrong = |g: &mut Gen| g.pick(&["-", "x", "x.zip", "x.json", "x.pb", "x.txt"]).to_string();
    let (i, f) = if inp { (file_name(g, from), None) } else { (wrong(g), Some(from.clone())) };
    let (o, t) = if outp { (file_name(g, to), None) } else { (wrong(g), Some(to.clone())) };
    let cli = convert_cli(&i, &o, f, t, types);
    let r = sut("convert", || ext::with_registry(|r| cli.run_with_io(bytes, &mut out, r)))?;
    match r {
        Ok(Outcome::Success) => Ok(out),
        other => Err(Fail::new("conversion failed", format!("{i} ({from:?}) to {o} ({to:?}): {other:?}\n{}", String::from_utf8_lossy(bytes)))),
    }
}

fn same(a: &Plan, b: &Plan) -> bool {
    a.encode_to_vec() == b.encode_to_vec()
}

fn p23(c: &mut Case) -> R {
    match c.g.weighted(&[5, 5, 2]) {
        0 => {
            let plan = tame(model::plan(&mut c.g, &small()));
            c.label("text-representable plan");
            chain(c, plan, &FORMATS)
        }
        1 => {
            let plan = CORE.with(|p| arbitrary_plan(&mut c.g, &Make { payloads: &[], non_finite: false }, p));
            c.label("arbitrary plan");
            chain(c, plan, &FORMATS[1..])
        }
        _ => names(c),
    }
}

fn chain(c: &mut Case, plan: Plan, formats: &[Format]) -> R {
    let n = c.g.range(2, 6);
    let fs: Vec<Format> = (0..n).map(|_| c.g.choose(formats)).collect();
    c.nontrivial = fs.windows(2).any(|w| w[0] != w[1]) && !plan.relations.is_empty();
    c.show(&format!("{fs:?}\n{plan:?}"));
    for w in fs.windows(2) {
        c.label(format!("{:?} to {:?}", w[0], w[1]));
    }
    let mut bytes = encode(&fs[0], &plan);
    let on_disk = c.g.chance(1, 60);
    let dir = if on_disk { Some(Scratch::new()) } else { None };
    for (i, w) in fs.windows(2).enumerate() {
        bytes = match &dir {
            Some(d) => {
                c.label("through files and processes");
                let (a, b) = (d.0.join(format!("in{i}.{}", plain_ext(&w[0]))), d.0.join(format!("out{i}.{}", plain_ext(&w[1]))));
                fs::write(&a, &bytes).expect("write");
                let (ok, _, err) = tool(&["convert", "-i", a.to_str().unwrap(), "-o", b.to_str().unwrap()], &[], None);
                ensure!(ok, "conversion failed", "{w:?}: {err}");
                fs::read(&b).map_err(|e| Fail::new("no output file", e.to_string()))?
            }
            None => convert(&mut c.g, &bytes, &w[0], &w[1])?,
        };
        match decode(&w[1], &bytes) {
            Ok(p) => ensure!(same(&p, &plan), "plan changed", "after {:?}\nexpected {plan:?}\ngot {p:?}\n{}", &fs[..i + 2], String::from_utf8_lossy(&bytes)),
            Err(e) => fail!("output unreadable", "after {:?}: {e}\n{plan:?}\n{}", &fs[..i + 2], String::from_utf8_lossy(&bytes)),
        }
    }
    // The library's reader and writer.
    let f = c.g.choose(formats);
    let mut out = vec![];
    let r = sut("write_plan", || ext::with_registry(|r| f.write_plan(&mut out, &plan, &OutputOptions::default(), r)))?;
    ensure!(matches!(r, Ok(Outcome::Success)), "write_plan failed", "{f:?}: {r:?}\n{plan:?}");
    match sut("read_plan", || ext::with_registry(|r| f.read_plan(&out[..], r)))? {
        Ok(p) => ensure!(same(&p, &plan), "plan changed", "{f:?}\nexpected {plan:?}\ngot {p:?}"),
        Err(e) => fail!("own output unreadable", "{f:?}: {e:?}\n{}", String::from_utf8_lossy(&out)),
    }
    Ok(())
}

fn plain_ext(f: &Format) -> &'static str {
    match f {
        Format::Text => "substrait",
        Format::Json => "json",
        Format::Yaml => "yaml",
        Format::Protobuf => "pb",
    }
}

/// The documented meaning of a file name and of a format option.
fn by_extension(path: &str) -> Option<Format> {
    let base = path.rsplit('/').next().unwrap();
    let (stem, e) = base.rsplit_once('.')?;
    if stem.is_empty() {
        return None;
    }
    match e.to_ascii_lowercase().as_str() {
        "substrait" | "txt" => Some(Format::Text),
        "json" => Some(Format::Json),
        "yaml" | "yml" => Some(Format::Yaml),
        "pb" | "proto" | "protobuf" => Some(Format::Protobuf),
        _ => None,
    }
}

fn by_option(s: &str) -> Option<Format> {
    match s.to_ascii_lowercase().as_str() {
        "text" => Some(Format::Text),
        "json" => Some(Format::Json),
        "yaml" => Some(Format::Yaml),
        "pb" | "proto" | "protobuf" => Some(Format::Protobuf),
        _ => None,
    }
}

fn names(c: &mut Case) -> R {
    let g = &mut c.g;
    let stem = g.pick(&["plan", "a.b", "dir/plan", "x.json", "", ".hidden", "dir.json/x", "-", "json", "./p", "../p", "/tmp/p", "a.pb.txt"]);
    let word = g.pick(&["substrait", "txt", "json", "yaml", "yml", "pb", "proto", "protobuf", "text", "jso", "jsonx", "xml", "", "p", "yam", "pbtxt", "tx", "binpb", "subst", " json", "json "]);
    let word = random_case(g, word);
    let path = format!("{stem}{}{word}", g.pick(&[".", ".", ".", "", "/", "-"]));
    let path = if g.chance(1, 20) { "-".to_string() } else { path };
    c.show(&path);
    c.label("format names");
    let g = &mut c.g;
    c.nontrivial = true;
    let want = by_extension(&path);
    // An empty last component has no extension by any reading.
    if !path.ends_with('/') && !path.ends_with("..") && !path.ends_with("/.") {
        let got = sut("from_extension", || Format::from_extension(&path))?;
        ensure!(got == want, "format of a file name", "{path:?}: expected {want:?}, got {got:?}");
    }
    let got = sut("from_str", || Format::from_str(&word))?;
    ensure!(got.clone().ok() == by_option(&word), "format option", "{word:?}: {got:?}");
    // No format, no conversion and no output.
    let input = "=== Plan\nRoot[a]\n  Read[t => a:i64]\n";
    let unknown = g.pick(&["-", "plan", "plan.xml", ".json", "json", "x.jsonl", "x."]);
    let known = file_name(g, &Format::Text);
    let (i, o) = if g.bool() { (unknown.to_string(), known) } else { (known, unknown.to_string()) };
    let mut out = vec![];
    let r = sut("convert", || convert_cli(&i, &o, None, None, false).run_with_io(input.as_bytes(), &mut out, &ExtensionRegistry::new()))?;
    ensure!(r.is_err() && out.is_empty(), "unknown format accepted", "{i} to {o}: {r:?}");
    if g.chance(1, 40) {
        let bad = g.pick(&["xml", "", "jsn", "txt", "yml", "substrait", "binary"]);
        let (ok, out, err) = tool(&["convert", "-f", "text", "-t", bad], &[], Some(input.as_bytes()));
        ensure!(!ok && out.is_empty(), "unknown format option accepted", "{bad:?}: {err}");
        let good = g.choose(&FORMATS);
        let spelled = random_case(g, match good {
            Format::Text => "text",
            Format::Json => "json",
            Format::Yaml => "yaml",
            Format::Protobuf => "pb",
        });
        let (ok, out, err) = tool(&["convert", "-f", "TEXT", "-t", &spelled], &[], Some(input.as_bytes()));
        ensure!(ok, "format option rejected", "{spelled:?}: {err}");
        let want = parse_with(input, &ExtensionRegistry::new()).expect("plan");
        ensure!(decode(&good, &out).is_ok_and(|p| same(&p, &want)), "plan changed", "{spelled:?}\n{}", String::from_utf8_lossy(&out));
    }
    Ok(())
}

pub const P23: Prop = Prop {
    id: "P23",
    quick: 12_800,
    thorough: 400_000,
    f: p23,
    rule: "at least one step changes the format of a plan with relations, or a format name is resolved",
    assumptions: &["plans nested less deeply than the JSON and protobuf readers allow", "floating point literals are finite outside the text format's own handling"],
    known: &[Known { key: "json-double", kind: "plan changed", f: json_double }],
};

/// A double that the JSON reader misses by a unit in the last place.
fn json_double() -> R {
    let text = format!("=== Plan\nProject[{}]\n  Read[t => a:i64]\n", 8.693549723682979e-302f64);
    let plan = ext::with_registry(|r| parse_with(&text, r)).map_err(|e| Fail::new("rejected", e.to_string()))?;
    let mut json = vec![];
    let r = sut("write_plan", || ext::with_registry(|r| Format::Json.write_plan(&mut json, &plan, &OutputOptions::default(), r)))?;
    ensure!(matches!(r, Ok(Outcome::Success)), "write_plan failed", "{r:?}");
    match sut("read_plan", || ext::with_registry(|r| Format::Json.read_plan(&json[..], r)))? {
        Ok(p) => ensure!(same(&p, &plan), "plan changed", "expected {plan:?}\ngot {p:?}"),
        Err(e) => fail!("own output unreadable", "{e:?}"),
    }
    Ok(())
}

// ------------------------------------------------------------------ faults

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed when dropped.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("sxcheck-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Run the tool: the built executable, or, with `--registry` first, the same
/// entry point with the model's extensions registered.
fn tool(args: &[&str], _env: &[(&str, &str)], stdin: Option<&[u8]>) -> (bool, Vec<u8>, String) {
    run_tool(args, stdin, Stdio::piped())
}

fn run_tool(args: &[&str], stdin: Option<&[u8]>, stdout: Stdio) -> (bool, Vec<u8>, String) {
    let me = std::env::current_exe().expect("executable");
    let mut cmd = match std::env::var_os("SX_EXE") {
        Some(exe) if !uses_extensions(args, stdin) => Command::new(exe),
        _ => {
            let mut c = Command::new(me);
            c.arg("cli");
            c
        }
    };
    cmd.args(args).stdout(stdout).stderr(Stdio::piped());
    cmd.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut child = cmd.spawn().expect("run the tool");
    if let Some(b) = stdin {
        let mut i = child.stdin.take().unwrap();
        let _ = i.write_all(b);
    }
    let out = child.wait_with_output().expect("output");
    (out.status.success(), out.stdout, String::from_utf8_lossy(&out.stderr).into_owned())
}

fn uses_extensions(args: &[&str], stdin: Option<&[u8]>) -> bool {
    let has = |b: &[u8]| b.windows(7).any(|w| w == b"sxcheck") || [&b"Ext:"[..], b"Enh:", b"Opt:", b"ExtensionLeaf:", b"ExtensionSingle:", b"ExtensionMulti:"].iter().any(|p| b.windows(p.len()).any(|w| w == *p));
    stdin.is_some_and(has) || args.iter().any(|a| Path::new(a).is_file() && fs::read(a).is_ok_and(|b| has(&b)))
}

#[derive(Default)]
struct Faulty {
    data: Vec<u8>,
    chunk: usize,
    limit: Option<usize>,
    zero: bool,
    flush_fails: bool,
    interrupt: bool,
    flip: bool,
    flushed: usize,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.flip = !self.flip;
        if self.interrupt && self.flip {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let room = self.limit.map_or(usize::MAX, |l| l.saturating_sub(self.data.len()));
        if room == 0 {
            return if self.zero { Ok(0) } else { Err(io::Error::other("device full")) };
        }
        let n = b.len().min(self.chunk.max(1)).min(room);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            return Err(io::Error::other("flush failed"));
        }
        self.flushed = self.data.len();
        Ok(())
    }
}

struct FaultyReader<'a> {
    data: &'a [u8],
    chunk: usize,
    fail_at: Option<usize>,
    at: usize,
    interrupt: bool,
    flip: bool,
}

impl Read for FaultyReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.flip = !self.flip;
        if self.interrupt && self.flip {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let end = self.fail_at.unwrap_or(self.data.len());
        if self.fail_at.is_some() && self.at >= end {
            return Err(io::Error::other("read failed"));
        }
        let n = b.len().min(self.chunk.max(1)).min(end - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A plan that mostly cannot be written as text without problems.
fn damaged(g: &mut Gen) -> Plan {
    let mut plan = model::plan(g, &small());
    for _ in 0..1 + g.count(2) {
        if let Some((p, _)) = super::reflect::Editor::new(&plan).edit(g, &|_| true) {
            plan = p;
        }
    }
    plan
}

/// A member that a plan does not have.
const UNKNOWN_FIELD: &str = "noSuchField";

/// What the tool must do with an input: the output text or bytes and whether it
/// is complete, or a failure.
fn expected(bytes: &[u8], from: &Format, to: &Format, types: bool) -> Option<(Result<Plan, ()>, Option<(String, bool)>)> {
    let plan = match decode(from, bytes) {
        Ok(p) => p,
        // What else the JSON reader accepts is P25.
        Err(_) if *from == Format::Json && serde_json::from_slice::<serde_json::Value>(bytes).is_ok_and(|v| !v.get(UNKNOWN_FIELD).is_some()) => return None,
        Err(_) => return Some((Err(()), None)),
    };
    let shown = (*to == Format::Text).then(|| {
        let o = OutputOptions { literal_types: if types { Visibility::Always } else { Visibility::Required }, ..OutputOptions::default() };
        let (t, e) = ext::with_registry(|r| substrait_explain::format_with_registry(&plan, &o, r));
        (t, e.is_empty())
    });
    Some((Ok(plan), shown))
}

/// What the tool says besides its result is of no interest here.
fn quiet_stderr() {
    use std::os::fd::AsRawFd;
    unsafe extern "C" {
        fn dup2(from: i32, to: i32) -> i32;
    }
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        if std::env::var_os("SX_STDERR").is_none() {
            let null = fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
            unsafe { dup2(null.as_raw_fd(), 2) };
        }
    });
}

fn p24(c: &mut Case) -> R {
    let g = &mut c.g;
    let from = g.choose(&FORMATS);
    let validate = g.chance(1, 3);
    let (from, to) = if validate { (Format::Text, Format::Text) } else { (from, g.choose(&FORMATS)) };
    let types = !validate && g.chance(1, 4);
    // The input: a plan in its format, a plan with problems, or garbage.
    let kind = g.weighted(&[4, 4, 3]);
    let mut bytes = match kind {
        0 => encode(&from, &model::plan(g, &small())),
        1 if from == Format::Text => valid_text(g, &Cfg { unspecified: true, ..small() }).into_bytes(),
        1 => {
            let p = damaged(g);
            match from {
                Format::Protobuf => p.encode_to_vec(),
                Format::Json => serde_json::to_vec(&p).unwrap_or_default(),
                _ => serde_yaml::to_string(&p).unwrap_or_default().into_bytes(),
            }
        }
        _ if from == Format::Text => any_text(g).0.into_bytes(),
        _ => {
            let mut b = encode(&from, &model::plan(g, &small()));
            match g.usize(3) {
                0 => {
                    let n = g.usize(b.len() + 1);
                    b.truncate(n);
                }
                _ => {
                    for _ in 0..1 + g.count(3) {
                        byte_edit(g, &mut b);
                    }
                }
            }
            b
        }
    };
    if g.chance(1, 25) {
        let at = g.usize(bytes.len() + 1);
        bytes.insert(at, 0xff);
    }
    if from == Format::Json && kind < 2 && g.chance(1, 6) {
        // Something besides the plan.
        match g.usize(3) {
            0 => bytes.extend_from_slice(g.pick(&["{}", " x", "]", "\n{\"version\":{}}", "null", ","]).as_bytes()),
            1 => {
                let at = bytes.iter().position(|&b| b == b'{').map_or(0, |i| i + 1);
                let more = if bytes[at..].first() == Some(&b'}') { "" } else { "," };
                let item = format!("\"{UNKNOWN_FIELD}\":{}{more}", g.pick(&["1", "null", "{}", "[]", "\"x\""]));
                bytes.splice(at..at, item.into_bytes());
            }
            _ => {
                let n = g.range(1, 3).min(bytes.len());
                bytes.truncate(bytes.len() - n);
            }
        }
    }
    c.show(&format!("{from:?} to {to:?}{}\n{}", if validate { " (validate)" } else { "" }, String::from_utf8_lossy(&bytes)));
    let Some((plan, shown)) = sut("expected result", || expected(&bytes, &from, &to, types))? else {
        c.label("not plain JSON");
        return Ok(());
    };
    let verbose = c.g.chance(1, 4);
    if verbose {
        quiet_stderr();
    }
    let cli = if validate {
        Cli { command: Commands::Validate { input: "-".into(), output: "-".into(), verbose } }
    } else {
        Cli { command: Commands::Convert { input: "-".into(), output: "-".into(), from: Some(from.clone()), to: Some(to.clone()), show_literal_types: types, verbose } }
    };
    let run = |reader: &mut dyn Read, writer: &mut dyn Write| sut("run", || ext::with_registry(|r| cli.run_with_io(reader, writer, r)));
    let complete = |r: &anyhow::Result<Outcome>| matches!(r, Ok(Outcome::Success));
    let clean = plan.is_ok() && shown.as_ref().is_none_or(|s| s.1);
    c.nontrivial = true;
    c.label(format!("{} {}", if validate { "validate" } else { "convert" }, match (&plan, clean) {
        (Err(_), _) => "unreadable input",
        (_, true) => "fine",
        _ => "with formatting problems",
    }));

    // Without faults.
    let mut out = vec![];
    let r = run(&mut &bytes[..], &mut out)?;
    // A value without a JSON or YAML form (an unknown enum number) is a failure.
    let unwritable = !clean || (to == Format::Json || to == Format::Yaml) && r.is_err();
    if unwritable {
        ensure!(!complete(&r), "success reported for a wrong result", "{}", String::from_utf8_lossy(&out));
    } else {
        ensure!(complete(&r), "failure reported for a plan that can be written", "{r:?}");
    }
    match (&plan, &shown) {
        (Ok(_), Some((text, ok))) => {
            ensure!(out == text.as_bytes(), "output differs from the plan's text", "expected\n{text}\ngot\n{}", String::from_utf8_lossy(&out));
            ensure!(matches!(r, Ok(Outcome::HadFormattingIssues(ref e)) if !e.is_empty()) != *ok, "formatting problems", "{r:?}");
        }
        (Ok(p), None) if complete(&r) => match decode(&to, &out) {
            Ok(q) => ensure!(same(&as_read(&to, p), &q), "success reported for a wrong result", "expected {p:?}\ngot {q:?}\n{}", String::from_utf8_lossy(&out)),
            Err(e) => fail!("success reported for an unreadable result", "{e}\n{p:?}\n{}", String::from_utf8_lossy(&out)),
        },
        (Err(_), _) => ensure!(out.is_empty(), "output for an unreadable input", "{}", String::from_utf8_lossy(&out)),
        _ => {}
    }

    // With faults.
    let g = &mut c.g;
    let len = out.len();
    let chunk = g.choose(&[1, 2, 7, 64, usize::MAX]);
    let points: Vec<usize> = if len <= 12 { (0..=len).collect() } else { vec![0, 1, g.usize(len), g.usize(len), len - 1, len] };
    for k in points {
        let mut w = Faulty { chunk, limit: Some(k), zero: g.bool(), interrupt: g.bool(), ..Default::default() };
        let r = run(&mut &bytes[..], &mut w)?;
        let fits = k >= len;
        if fits {
            ensure!(complete(&r) == !unwritable, "outcome depends on how output is taken", "{r:?} with room for {k} of {len} bytes");
        } else {
            ensure!(r.is_err(), "success reported for a failed write", "{r:?} with room for {k} of {len} bytes");
        }
        ensure!(w.data == out[..k.min(len)], "output differs", "with room for {k} of {len} bytes");
        ensure!(!complete(&r) || w.flushed == len, "success reported before the output is flushed", "{} of {len} bytes", w.flushed);
    }
    if plan.is_ok() {
        let mut w = Faulty { chunk, flush_fails: true, ..Default::default() };
        let r = run(&mut &bytes[..], &mut w)?;
        ensure!(!complete(&r), "success reported for a failed flush", "{r:?}");
    }
    let fail_at = g.usize(bytes.len() + 1);
    for fail_at in [None, Some(fail_at)] {
        let mut rd = FaultyReader { data: &bytes, chunk, fail_at, at: 0, interrupt: g.bool(), flip: false };
        let mut w = vec![];
        let r = run(&mut rd, &mut w)?;
        match fail_at {
            None => ensure!(complete(&r) == !unwritable && w == out, "outcome depends on how input arrives", "{r:?}"),
            Some(k) => ensure!(r.is_err() && w.is_empty(), "success reported for a failed read", "{r:?} after {k} of {} bytes", bytes.len()),
        }
    }
    // As a process.
    if g.chance(1, 50) {
        c.label("as a process");
        process(c, &bytes, &from, &to, validate, types, !unwritable, &out)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn process(c: &mut Case, bytes: &[u8], from: &Format, to: &Format, validate: bool, types: bool, good: bool, out: &[u8]) -> R {
    let d = Scratch::new();
    let input = d.0.join(format!("input.{}", plain_ext(from)));
    fs::write(&input, bytes).expect("write");
    let (f, t) = (format!("{from:?}"), format!("{to:?}"));
    let mut base: Vec<&str> = if validate { vec!["validate"] } else { vec!["convert", "-f", &f, "-t", &t] };
    if types {
        base.push("--show-literal-types");
    }
    if c.g.chance(1, 4) {
        base.push("-v");
    }
    let with = |more: &[&str]| base.iter().chain(more).map(|s| s.to_string()).collect::<Vec<_>>();
    let verbose = base.contains(&"-v");
    let go = |args: Vec<String>, stdin: Option<&[u8]>, stdout: Stdio| run_tool(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), stdin, stdout);
    let told = std::cell::RefCell::new(vec![]);
    let go = |args: Vec<String>, stdin: Option<&[u8]>, stdout: Stdio| {
        let r = go(args, stdin, stdout);
        told.borrow_mut().push((r.0, r.2.clone()));
        r
    };
    let at = input.to_str().unwrap();
    let mode = c.g.usize(8);
    match mode {
        0 => {
            let (ok, got, err) = go(with(&[]), Some(bytes), Stdio::piped());
            ensure!(ok == good && got == out, "exit status or output", "exit 0: {ok}, expected {good}\n{err}\n{}", String::from_utf8_lossy(&got));
        }
        1 => {
            let o = d.0.join("output.bin");
            fs::write(&o, vec![b'x'; 5000]).expect("write");
            let (ok, got, err) = go(with(&["-i", at, "-o", o.to_str().unwrap()]), None, Stdio::piped());
            ensure!(ok == good && got.is_empty(), "exit status", "exit 0: {ok}, expected {good}\n{err}");
            ensure!(!ok || fs::read(&o).is_ok_and(|b| b == out), "output file", "{err}");
        }
        2 => {
            // In place.
            let (ok, _, err) = go(with(&["-i", at, "-o", at]), None, Stdio::piped());
            ensure!(ok == good, "exit status in place", "exit 0: {ok}, expected {good}\n{err}");
            ensure!(!ok || fs::read(&input).is_ok_and(|b| b == out), "output file in place", "{err}");
        }
        3 => {
            let full = fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
            let (ok, _, err) = go(with(&["-i", at]), None, Stdio::from(full));
            ensure!(ok == (good && out.is_empty()), "success reported though the output was lost", "{err}");
        }
        4 => {
            let (ok, _, err) = go(with(&["-i", at, "-o", "/dev/full"]), None, Stdio::piped());
            ensure!(ok == (good && out.is_empty()), "success reported though the output was lost", "{err}");
        }
        5 => {
            let missing = d.0.join("missing.json");
            let o = d.0.join("kept.json");
            fs::write(&o, b"kept").expect("write");
            let (ok, _, err) = go(with(&["-i", missing.to_str().unwrap(), "-o", o.to_str().unwrap()]), None, Stdio::piped());
            ensure!(!ok && !err.is_empty(), "missing input accepted", "{err}");
        }
        6 => {
            let o = d.0.join("no/such/dir/out.json");
            let (ok, _, err) = go(with(&["-i", at, "-o", o.to_str().unwrap()]), None, Stdio::piped());
            ensure!(!ok && !err.is_empty(), "unwritable output accepted", "{err}");
        }
        _ => {
            let (ok, _, err) = go(with(&["-i", d.0.to_str().unwrap()]), None, Stdio::piped());
            ensure!(!ok && !err.is_empty(), "directory accepted as input", "{err}");
        }
    }
    // What it says is what it returns.
    for (ok, err) in told.into_inner() {
        let claims = err.lines().any(|l| l.starts_with("Successfully "));
        ensure!(claims == (ok && verbose), "the message and the exit status disagree", "exit 0: {ok}, verbose: {verbose}\n{err}");
        ensure!(ok || !err.trim().is_empty(), "failure without a message", "verbose: {verbose}");
    }
    Ok(())
}

pub const P24: Prop = Prop {
    id: "P24",
    quick: 9_600,
    thorough: 200_000,
    f: p24,
    rule: "an input was given to the tool with and without faults",
    assumptions: &["faults are failing, short and interrupted reads and writes, failing flushes, and missing or full files"],
    known: &[],
};

// --------------------------------------------------------------- JSON forms

fn field(name: &str, number: i32, t: FT, label: Label, type_name: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(number),
        label: Some(label as i32),
        r#type: Some(t as i32),
        type_name: type_name.map(|s| s.into()),
        ..Default::default()
    }
}

/// Two descriptor sets, as a compiler would write them: each bundles what it
/// depends on.
fn blobs() -> Vec<Vec<u8>> {
    use Label::{Optional as O, Repeated as M};
    let core = FileDescriptorSet::decode(substrait::proto::FILE_DESCRIPTOR_SET).expect("core");
    let any = core.file.iter().find(|f| f.name() == "google/protobuf/any.proto").expect("any.proto").clone();
    let leaf = DescriptorProto {
        name: Some("Leaf".into()),
        field: vec![field("s", 1, FT::String, O, None), field("i", 2, FT::Int64, O, None), field("b", 3, FT::Bool, O, None), field("d", 4, FT::Double, O, None)],
        ..Default::default()
    };
    let color = EnumDescriptorProto {
        name: Some("Color".into()),
        value: [("COLOR_UNSPECIFIED", 0), ("RED", 1), ("BLUE", 7)]
            .iter()
            .map(|(n, v)| EnumValueDescriptorProto { name: Some(n.to_string()), number: Some(*v), ..Default::default() })
            .collect(),
        ..Default::default()
    };
    let scalars = [
        ("s", FT::String),
        ("by", FT::Bytes),
        ("b", FT::Bool),
        ("i32", FT::Int32),
        ("i64", FT::Int64),
        ("u32", FT::Uint32),
        ("u64", FT::Uint64),
        ("s32", FT::Sint32),
        ("s64", FT::Sint64),
        ("f32", FT::Fixed32),
        ("f64", FT::Fixed64),
        ("d", FT::Double),
        ("f", FT::Float),
    ];
    let mut fields: Vec<FieldDescriptorProto> = scalars.iter().enumerate().map(|(i, (n, t))| field(n, i as i32 + 1, *t, O, None)).collect();
    for (i, (n, t)) in scalars.iter().enumerate() {
        fields.push(field(&format!("many_{n}"), i as i32 + 21, *t, M, None));
    }
    fields.push(field("color", 40, FT::Enum, O, Some(".sxj.Color")));
    fields.push(field("many_colors", 41, FT::Enum, M, Some(".sxj.Color")));
    fields.push(field("leaf", 42, FT::Message, O, Some(".sxj.Leaf")));
    fields.push(field("leaves", 43, FT::Message, M, Some(".sxj.Leaf")));
    fields.push(field("inner_any", 44, FT::Message, O, Some(".google.protobuf.Any")));
    fields.push(field("anys", 45, FT::Message, M, Some(".google.protobuf.Any")));
    fields.push(field("self", 46, FT::Message, O, Some(".sxj.Big")));
    fields.push(field("counts", 47, FT::Message, M, Some(".sxj.Big.CountsEntry")));
    for (i, (n, t)) in [("pick_s", FT::String), ("pick_i", FT::Int64)].iter().enumerate() {
        fields.push(FieldDescriptorProto { oneof_index: Some(0), ..field(n, 50 + i as i32, *t, O, None) });
    }
    fields.push(FieldDescriptorProto { oneof_index: Some(0), ..field("pick_leaf", 53, FT::Message, O, Some(".sxj.Leaf")) });
    fields.push(FieldDescriptorProto { oneof_index: Some(1), proto3_optional: Some(true), ..field("maybe_i", 54, FT::Int32, O, None) });
    fields.push(FieldDescriptorProto { oneof_index: Some(2), proto3_optional: Some(true), ..field("maybe_s", 55, FT::String, O, None) });
    // A plan's own messages may be carried too.
    fields.push(field("expr", 60, FT::Message, O, Some(".substrait.Expression")));
    let entry = DescriptorProto {
        name: Some("CountsEntry".into()),
        field: vec![field("key", 1, FT::String, O, None), field("value", 2, FT::Int64, O, None)],
        options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
        ..Default::default()
    };
    let big = DescriptorProto {
        name: Some("Big".into()),
        field: fields,
        nested_type: vec![entry],
        oneof_decl: ["pick", "_maybe_i", "_maybe_s"].iter().map(|n| OneofDescriptorProto { name: Some(n.to_string()), ..Default::default() }).collect(),
        ..Default::default()
    };
    let one = FileDescriptorProto {
        name: Some("sxj/one.proto".into()),
        package: Some("sxj".into()),
        dependency: vec!["google/protobuf/any.proto".into(), "substrait/algebra.proto".into()],
        message_type: vec![leaf, big],
        enum_type: vec![color],
        syntax: Some("proto3".into()),
        ..Default::default()
    };
    let two = FileDescriptorProto {
        name: Some("sxj/two.proto".into()),
        package: Some("sxj.two".into()),
        dependency: vec!["sxj/one.proto".into()],
        message_type: vec![DescriptorProto {
            name: Some("Other".into()),
            field: vec![field("text", 1, FT::String, O, None), field("big", 2, FT::Message, O, Some(".sxj.Big")), field("empty_list", 3, FT::String, M, None)],
            ..Default::default()
        }],
        syntax: Some("proto3".into()),
        ..Default::default()
    };
    let set = |f: Vec<FileDescriptorProto>| FileDescriptorSet { file: f }.encode_to_vec();
    vec![set(vec![any.clone(), one.clone()]), set(vec![any, one, two])]
}

/// The plan in the standard JSON encoding, payloads inlined.
fn standard(plan: &Plan, o: &SerializeOptions) -> String {
    FULL.with(|pool| {
        let d = pool.get_message_by_name("substrait.Plan").expect("Plan");
        let m = DynamicMessage::decode(d, plan.encode_to_vec().as_slice()).expect("plan");
        let mut out = vec![];
        let mut s = serde_json::Serializer::new(&mut out);
        m.serialize_with_options(&mut s, o).expect("json");
        String::from_utf8(out).expect("utf-8")
    })
}

/// Equal, also inside payloads (whose map entries may be in any order).
fn same_payloads(a: &Plan, b: &Plan) -> bool {
    if same(a, b) {
        return true;
    }
    let o = SerializeOptions::new();
    let v = |p: &Plan| serde_json::from_str::<serde_json::Value>(&standard(p, &o)).ok();
    v(a).is_some() && v(a) == v(b)
}

/// Another spelling of the same JSON: members in another order, spaces.
fn respell(g: &mut Gen, v: &serde_json::Value, out: &mut String) {
    let sp = |g: &mut Gen, out: &mut String| {
        if g.chance(1, 6) {
            out.push_str(g.pick(&[" ", "\n", "\t", "  "]));
        }
    };
    match v {
        serde_json::Value::Object(m) => {
            let mut items: Vec<_> = m.iter().collect();
            for i in (1..items.len()).rev() {
                let j = g.usize(i + 1);
                items.swap(i, j);
            }
            out.push('{');
            for (i, (k, v)) in items.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(g, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                sp(g, out);
                out.push(':');
                sp(g, out);
                respell(g, v, out);
            }
            out.push('}');
        }
        serde_json::Value::Array(l) => {
            out.push('[');
            for (i, v) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(g, out);
                respell(g, v, out);
            }
            out.push(']');
        }
        other => out.push_str(&other.to_string()),
    }
}

/// Every `Any` object of a JSON value, by its `@type`.
fn anys<'v>(v: &'v mut serde_json::Value, out: &mut Vec<&'v mut serde_json::Map<String, serde_json::Value>>) {
    match v {
        serde_json::Value::Object(m) => {
            if m.contains_key("@type") {
                out.push(m);
            } else {
                m.values_mut().for_each(|v| anys(v, out));
            }
        }
        serde_json::Value::Array(l) => l.iter_mut().for_each(|v| anys(v, out)),
        _ => {}
    }
}

/// Descriptor sets in any arrangement: each bundles what its files depend on,
/// sets overlap, and files share packages and base names with each other and
/// with the core schema.
fn descriptor_sets(c: &mut Case) -> R {
    c.label("descriptor sets");
    c.nontrivial = true;
    let g = &mut c.g;
    let core = FileDescriptorSet::decode(substrait::proto::FILE_DESCRIPTOR_SET).expect("core");
    let n = g.range(1, 6);
    let mut files: Vec<FileDescriptorProto> = vec![];
    for i in 0..n {
        let name = format!("{}{}.proto", g.pick(&["", "a/", "b/", "a/b/", "substrait/", "google/protobuf/", "A/"]), g.pick(&["x", "y", "plan", "any", "algebra", "ext", "X"]));
        if files.iter().chain(&core.file).any(|f| f.name() == name) {
            continue;
        }
        let package = g.pick(&["pk", "pk.sub", "substrait", "google.protobuf", "", "other", "substrait.extensions"]).to_string();
        let mut dependency = vec![];
        let mut fields = vec![field("v", 1, FT::String, Label::Optional, None), field("n", 2, FT::Int64, Label::Optional, None)];
        if !files.is_empty() && g.bool() {
            let d = &files[g.usize(files.len())];
            dependency.push(d.name().to_string());
            let full = format!(".{}", full_name(d));
            fields.push(field("inner", 3, FT::Message, Label::Optional, Some(&full)));
        } else if g.chance(1, 3) {
            dependency.push("google/protobuf/any.proto".into());
        }
        files.push(FileDescriptorProto {
            name: Some(name),
            package: (!package.is_empty()).then_some(package),
            dependency,
            message_type: vec![DescriptorProto { name: Some(format!("SxMessage{i}")), field: fields, ..Default::default() }],
            syntax: Some("proto3".into()),
            ..Default::default()
        });
    }
    if files.is_empty() {
        return Ok(());
    }
    // Sets: closed under dependencies, overlapping, in any order.
    let closed = |i: usize| -> Vec<FileDescriptorProto> {
        let mut at = vec![i];
        let mut v: Vec<FileDescriptorProto> = vec![];
        while let Some(k) = at.pop() {
            v.retain(|f| f.name() != files[k].name());
            v.insert(0, files[k].clone());
            for d in &files[k].dependency {
                match files.iter().position(|f| f.name() == d) {
                    Some(p) => at.push(p),
                    None => v.insert(0, core.file.iter().find(|f| f.name() == d).expect("core file").clone()),
                }
            }
        }
        v
    };
    let mut sets: Vec<Vec<u8>> = vec![];
    let mut left: Vec<usize> = (0..files.len()).collect();
    while !left.is_empty() {
        let mut set: Vec<FileDescriptorProto> = vec![];
        for _ in 0..g.range(1, 3) {
            if left.is_empty() {
                break;
            }
            let k = left.remove(g.usize(left.len()));
            for f in closed(k) {
                if !set.iter().any(|s| s.name() == f.name()) {
                    set.push(f);
                }
            }
        }
        sets.push(FileDescriptorSet { file: set }.encode_to_vec());
    }
    if g.chance(1, 3) {
        let again = g.choose(&sets);
        sets.push(again);
    }
    for i in (1..sets.len()).rev() {
        let j = g.usize(i + 1);
        sets.swap(i, j);
    }
    c.show(&format!("{:?}", files.iter().map(|f| (f.name(), f.package(), &f.dependency)).collect::<Vec<_>>()));
    let slices: Vec<&[u8]> = sets.iter().map(|b| b.as_slice()).collect();
    let pool = match sut("build_descriptor_pool", || json::build_descriptor_pool(&slices))? {
        Ok(p) => p,
        Err(e) => fail!("descriptor sets rejected", "{e:?}\n{}", c.text),
    };
    // One payload of each type, inlined and as bytes.
    let mut plan = Plan { advanced_extensions: Some(Default::default()), ..Default::default() };
    let mut inlined = vec![];
    for f in &files {
        let full = full_name(f);
        let Some(d) = pool.get_message_by_name(&full) else { fail!("registered type not found", "{full}\n{}", c.text) };
        let mut m = DynamicMessage::new(d);
        m.set_field_by_name("v", Value::String("x".into()));
        m.set_field_by_name("n", Value::I64(7));
        plan.advanced_extensions.as_mut().unwrap().optimization.push(pbjson_types::Any { type_url: format!("type.googleapis.com/{full}"), value: m.encode_to_vec().into() });
        inlined.push(serde_json::json!({"@type": format!("type.googleapis.com/{full}"), "v": "x", "n": "7"}));
    }
    let text = serde_json::json!({"advancedExtensions": {"optimization": inlined}}).to_string();
    let naive = serde_json::to_string(&plan).expect("json");
    for s in [&text, &naive] {
        match sut("parse_json", || json::parse_json(s, &pool))? {
            Ok(p) => ensure!(same(&p, &plan), "payload read differently", "{s}\nexpected {plan:?}\ngot {p:?}"),
            Err(e) => fail!("payload of a registered type rejected", "{e:?}\n{s}\n{}", c.text),
        }
    }
    let mut r = ExtensionRegistry::new();
    sets.iter().for_each(|s| r.add_descriptor(s.clone()));
    match sut("read_plan", || Format::Json.read_plan(text.as_bytes(), &r))? {
        Ok(p) => ensure!(same(&p, &plan), "payload read differently", "{text}"),
        Err(e) => fail!("payload of a registered type rejected", "{e:?}\n{text}\n{}", c.text),
    }
    // A set that is damaged is an error.
    let g = &mut c.g;
    let at = g.usize(sets.len());
    let mut bad = sets.clone();
    if g.bool() {
        bad[at].pop();
    } else {
        bad[at] = g.choose(&[vec![0xff], vec![0x0a, 0x05, 1], vec![0x0b], b"not a descriptor".to_vec()]);
    }
    let slices: Vec<&[u8]> = bad.iter().map(|b| b.as_slice()).collect();
    let got = sut("build_descriptor_pool", || json::build_descriptor_pool(&slices))?;
    ensure!(got.is_err(), "damaged descriptor set accepted", "{}", c.text);
    Ok(())
}

fn full_name(f: &FileDescriptorProto) -> String {
    let m = f.message_type[0].name();
    if f.package().is_empty() { m.to_string() } else { format!("{}.{m}", f.package()) }
}

fn p25(c: &mut Case) -> R {
    if c.g.chance(1, 25) {
        return descriptor_sets(c);
    }
    let payloads: Vec<MessageDescriptor> = FULL.with(|p| ["sxj.Leaf", "sxj.Big", "sxj.two.Other", "sxj.Big"].iter().map(|n| p.get_message_by_name(n).expect("type")).collect());
    let inner = Make { payloads: &payloads, non_finite: true };
    let plan = if c.g.bool() {
        FULL.with(|p| arbitrary_plan(&mut c.g, &Make { payloads: &payloads, non_finite: false }, p))
    } else {
        // A text-like plan with each payload replaced.
        let mut plan = tame(model::plan(&mut c.g, &Cfg { ext_dense: true, ..small() }));
        super::rels::tops_mut(&mut plan).into_iter().for_each(|r| {
            super::rels::walk(r, &mut |r| {
                for a in details(r) {
                    let d = &payloads[c.g.usize(payloads.len())];
                    let depth = c.g.range(0, 4);
                    let m = inner.message(&mut c.g, d, depth);
                    *a = pbjson_types::Any { type_url: format!("type.googleapis.com/{}", d.full_name()), value: m.encode_to_vec().into() };
                }
            })
        });
        plan
    };
    let std_json = standard(&plan, &SerializeOptions::new());
    let mut parsed: serde_json::Value = serde_json::from_str(&std_json).expect("json");
    let mut found = vec![];
    anys(&mut parsed, &mut found);
    let n = found.len();
    drop(found);
    c.nontrivial = n > 0;
    c.label(match n {
        0 => "no payload",
        1 => "one payload",
        _ => "several payloads",
    });
    c.show(&std_json);
    let parse = |s: &str| sut("parse_json", || FULL.with(|p| json::parse_json(s, p)));

    // Type URL with base64 bytes.
    let naive = serde_json::to_string(&plan).expect("json");
    match parse(&naive)? {
        Ok(p) => ensure!(same(&p, &plan), "base64 form read differently", "{naive}\nexpected {plan:?}\ngot {p:?}"),
        Err(e) => fail!("base64 form rejected", "{e:?}\n{naive}"),
    }
    // Inlined.
    let g = &mut c.g;
    let o = SerializeOptions::new()
        .use_proto_field_name(g.chance(1, 4))
        .use_enum_numbers(g.chance(1, 4))
        .stringify_64_bit_integers(!g.chance(1, 4))
        .skip_default_fields(!g.chance(1, 4));
    let mut inlined = standard(&plan, &o);
    if g.bool() {
        let v: serde_json::Value = serde_json::from_str(&inlined).expect("json");
        inlined = String::new();
        respell(g, &v, &mut inlined);
    }
    if g.chance(1, 4) {
        inlined = format!("{}{inlined}{}", g.pick(&[" ", "\n\n", ""]), g.pick(&[" ", "\n", "\r\n \t"]));
    }
    c.text = inlined.clone();
    match parse(&inlined)? {
        Ok(p) => ensure!(same_payloads(&p, &plan), "inlined form read differently", "{inlined}\nexpected {plan:?}\ngot {p:?}"),
        Err(e) => fail!("inlined form rejected", "{e:?}\n{inlined}"),
    }
    if g.chance(1, 20) {
        c.label("through the format reader");
        for s in [&naive, &inlined] {
            match sut("read_plan", || WITH_DESCRIPTORS.with(|r| Format::Json.read_plan(s.as_bytes(), r)))? {
                Ok(p) => ensure!(same_payloads(&p, &plan), "read differently", "{s}"),
                Err(e) => fail!("rejected by the format reader", "{e:?}\n{s}"),
            }
        }
    }
    let g = &mut c.g;
    // What is wrong is an error.
    let mut v: serde_json::Value = serde_json::from_str(&inlined).expect("json");
    let mut at = vec![];
    anys(&mut v, &mut at);
    if !at.is_empty() {
        let i = g.usize(at.len());
        let m = &mut at[i];
        let what = match g.usize(5) {
            0 => {
                m.insert("@type".into(), g.pick(&["type.googleapis.com/no.Such", "type.googleapis.com/sxj.Leaf2", "type.googleapis.com/", "type.googleapis.com/Leaf", "sxj", ""]).into());
                "unknown type"
            }
            1 => {
                m.insert("no_such_field".into(), 1.into());
                "unknown field of a payload"
            }
            2 => {
                m.insert("@type".into(), 5.into());
                "type that is not a string"
            }
            3 => {
                let t = m.remove("@type").unwrap();
                m.insert("@typ".into(), t);
                "payload without a type"
            }
            _ => {
                m.insert("@type".into(), "type.googleapis.com/sxj.Leaf".into());
                m.insert("i".into(), g.choose(&[serde_json::json!("x"), serde_json::json!({}), serde_json::json!([1]), serde_json::json!(1.5), serde_json::json!("9223372036854775808")]));
                "payload field of the wrong kind"
            }
        };
        let bad = v.to_string();
        if let Ok(p) = parse(&bad)? {
            fail!(format!("{what} accepted"), "{bad}\n{p:?}");
        }
        c.label(what);
        // Without the descriptors.
        let r = sut("parse_json", || CORE.with(|p| json::parse_json(&inlined, p)))?;
        ensure!(r.is_err(), "payload of unregistered type accepted", "{inlined}\n{r:?}");
    }
    let g = &mut c.g;
    let source = if g.bool() { &naive } else { &inlined };
    let trimmed = source.trim_end();
    let mut cut = g.usize(trimmed.len());
    while !trimmed.is_char_boundary(cut) {
        cut -= 1;
    }
    let bad = match g.usize(3) {
        0 => trimmed[..cut].to_string(),
        1 => format!("{trimmed}{}", g.pick(&["x", "{}", "]", "}", ",", "1", "null", "\"", " {\"version\":{}}"])),
        _ => format!("{}{trimmed}", g.pick(&["x", "{", "[", ",", "}", "\u{feff}"])),
    };
    let r = parse(&bad)?;
    ensure!(r.is_err(), "malformed JSON accepted", "{bad}\n{r:?}");
    Ok(())
}

/// The payloads of one relation.
pub fn details(r: &mut substrait::proto::Rel) -> Vec<&mut pbjson_types::Any> {
    use substrait::proto::read_rel::ReadType;
    use substrait::proto::rel::RelType as T;
    let mut out = vec![];
    let mut adv = None;
    match r.rel_type.as_mut() {
        Some(T::ExtensionLeaf(r)) => out.extend(r.detail.as_mut()),
        Some(T::ExtensionSingle(r)) => out.extend(r.detail.as_mut()),
        Some(T::ExtensionMulti(r)) => out.extend(r.detail.as_mut()),
        Some(T::Read(r)) => {
            if let Some(ReadType::ExtensionTable(t)) = &mut r.read_type {
                out.extend(t.detail.as_mut());
            }
            adv = r.advanced_extension.as_mut();
        }
        Some(T::Filter(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Project(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Aggregate(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Sort(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Fetch(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Join(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Cross(r)) => adv = r.advanced_extension.as_mut(),
        Some(T::Set(r)) => adv = r.advanced_extension.as_mut(),
        _ => {}
    }
    if let Some(a) = adv {
        out.extend(a.enhancement.as_mut());
        out.extend(a.optimization.iter_mut());
    }
    out
}

pub const P25: Prop = Prop {
    id: "P25",
    quick: 24_000,
    thorough: 300_000,
    f: p25,
    rule: "the plan carries at least one payload",
    assumptions: &["floating point literals of the plan itself are finite"],
    known: &[Known { key: "largest-float", kind: "inlined form rejected", f: largest_float }],
};

/// The largest float, inlined in a payload.
fn largest_float() -> R {
    let plan = FULL.with(|p| {
        let mut m = DynamicMessage::new(p.get_message_by_name("sxj.Big").expect("type"));
        m.set_field_by_name("f", Value::F32(f32::MAX));
        let mut plan = Plan { advanced_extensions: Some(Default::default()), ..Default::default() };
        let any = pbjson_types::Any { type_url: "type.googleapis.com/sxj.Big".into(), value: m.encode_to_vec().into() };
        plan.advanced_extensions.as_mut().unwrap().optimization.push(any);
        plan
    });
    let json = standard(&plan, &SerializeOptions::new());
    match sut("parse_json", || FULL.with(|p| json::parse_json(&json, p)))? {
        Ok(p) => ensure!(same(&p, &plan), "inlined form read differently", "{json}"),
        Err(e) => fail!("inlined form rejected", "{e:?}\n{json}"),
    }
    Ok(())
}

/// `sxcheck cli ARGS`: the tool with the model's extensions registered.
pub fn main_with_registry(args: &[String]) -> std::process::ExitCode {
    use clap::Parser;
    let cli = Cli::parse_from(std::iter::once("substrait-explain".to_string()).chain(args.iter().cloned()));
    cli.run_with_extensions(ext::registry())
}



