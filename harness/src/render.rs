//! An independent writer of the text format, from the documentation
//! (GRAMMAR.md) rather than from the code under test. It writes a plan either
//! in its canonical spelling or, given a source of choices, in any other
//! spelling the documentation allows for the same plan.

#![allow(deprecated)]

use substrait::proto::expression::field_reference::ReferenceType;
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::{Literal, RexType, reference_segment};
use substrait::proto::extensions::AdvancedExtension;
use substrait::proto::fetch_rel::{CountMode, OffsetMode};
use substrait::proto::function_argument::ArgType;
use substrait::proto::plan_rel::RelType as PlanRelType;
use substrait::proto::read_rel::ReadType;
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::EmitKind;
use substrait::proto::sort_field::SortKind;
use substrait::proto::r#type::{Kind, parameter};
use substrait::proto::{Expression, FunctionArgument, NamedStruct, Plan, Rel, RelCommon, Type};

use crate::ext::{self, Payload, V, Val};
use crate::r#gen::Gen;
use crate::model::{Decl, Env, NUL, UNS, join_width};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Show {
    /// Not even where the text needs it.
    Never,
    Required,
    Always,
}

pub struct W<'a> {
    pub env: Env,
    g: Option<&'a mut Gen>,
    pub anchors: Show,
    pub literal_types: Show,
    pub threshold: usize,
    pub indent: String,
    /// Everything a style may vary.
    pub blank_lines: bool,
}

pub fn canonical(plan: &Plan) -> String {
    W::new(plan, None).plan(plan)
}

pub fn styled(plan: &Plan, g: &mut Gen) -> String {
    W::new(plan, Some(g)).plan(plan)
}

/// Proleptic Gregorian calendar date of a day number (days from 1970-01-01).
pub fn civil(days: i64) -> (i64, u32, u32) {
    // Count from 0000-03-01 in 400-year cycles.
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let mut doe = z.rem_euclid(146_097);
    let mut year = era * 400;
    let c = (doe / 36_524).min(3);
    year += 100 * c;
    doe -= c * 36_524;
    let q = (doe / 1_461).min(24);
    year += 4 * q;
    doe -= q * 1_461;
    let y = (doe / 365).min(3);
    year += y;
    doe -= y * 365;
    // Months from March.
    let lens = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29];
    let mut m = 0;
    while doe >= lens[m] {
        doe -= lens[m];
        m += 1;
    }
    let month = if m < 10 { m + 3 } else { m - 9 };
    if month <= 2 {
        year += 1;
    }
    (year, month as u32, doe as u32 + 1)
}

pub fn year_text(y: i64) -> String {
    if (0..=9999).contains(&y) {
        format!("{y:04}")
    } else if y < 0 {
        format!("-{:04}", -y)
    } else {
        format!("+{y}")
    }
}

pub fn date_text(days: i64, sep: &str) -> String {
    let (y, m, d) = civil(days);
    format!("{}{sep}{m:02}{sep}{d:02}", year_text(y))
}

pub fn float_text(v: &str) -> String {
    if v.contains('.') { v.to_string() } else { format!("{v}.0") }
}

pub fn type_name(t: &Kind) -> Option<(&'static str, i32, Option<i32>)> {
    Some(match t {
        Kind::Bool(x) => ("boolean", x.nullability, None),
        Kind::I8(x) => ("i8", x.nullability, None),
        Kind::I16(x) => ("i16", x.nullability, None),
        Kind::I32(x) => ("i32", x.nullability, None),
        Kind::I64(x) => ("i64", x.nullability, None),
        Kind::Fp32(x) => ("fp32", x.nullability, None),
        Kind::Fp64(x) => ("fp64", x.nullability, None),
        Kind::String(x) => ("string", x.nullability, None),
        Kind::Binary(x) => ("binary", x.nullability, None),
        Kind::Timestamp(x) => ("timestamp", x.nullability, None),
        Kind::TimestampTz(x) => ("timestamp_tz", x.nullability, None),
        Kind::Date(x) => ("date", x.nullability, None),
        Kind::Time(x) => ("time", x.nullability, None),
        Kind::IntervalYear(x) => ("interval_year", x.nullability, None),
        Kind::Uuid(x) => ("uuid", x.nullability, None),
        Kind::PrecisionTimestamp(x) => ("precisiontimestamp", x.nullability, Some(x.precision)),
        Kind::PrecisionTimestampTz(x) => ("precisiontimestamptz", x.nullability, Some(x.precision)),
        Kind::PrecisionTime(x) => ("precisiontime", x.nullability, Some(x.precision)),
        Kind::IntervalDay(x) => ("interval_day", x.nullability, Some(x.precision.unwrap_or(6))),
        _ => return None,
    })
}

fn nul(n: i32) -> &'static str {
    match n {
        NUL => "?",
        UNS => "⁉",
        _ => "",
    }
}

pub fn is_identifier(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic()) && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

pub fn join_name(t: i32) -> &'static str {
    ["Unspecified", "Inner", "Outer", "Left", "Right", "LeftSemi", "LeftAnti", "LeftSingle", "RightSemi", "RightAnti", "RightSingle", "LeftMark", "RightMark"]
        [t as usize]
}

pub fn set_name(t: i32) -> &'static str {
    ["Unspecified", "MinusPrimary", "MinusMultiset", "IntersectionPrimary", "IntersectionMultiset", "UnionDistinct", "UnionAll", "MinusPrimaryAll", "IntersectionMultisetAll"]
        [t as usize]
}

pub fn sort_name(t: i32) -> &'static str {
    ["Unspecified", "AscNullsFirst", "AscNullsLast", "DescNullsFirst", "DescNullsLast", "Clustered"][t as usize]
}

/// How the inside of a string can be written.
#[derive(Clone, Copy, PartialEq)]
enum Quote {
    Single,
    Double,
}

impl<'a> W<'a> {
    pub fn new(plan: &Plan, g: Option<&'a mut Gen>) -> Self {
        W {
            env: Env::of(plan),
            g,
            anchors: Show::Required,
            literal_types: Show::Required,
            threshold: 3,
            indent: "  ".into(),
            blank_lines: true,
        }
    }

    /// 0 is the canonical choice.
    fn alt(&mut self, n: usize) -> usize {
        match &mut self.g {
            Some(g) => {
                if g.chance(1, 3) {
                    g.usize(n)
                } else {
                    0
                }
            }
            None => 0,
        }
    }

    /// Optional space, canonically `base`.
    fn sp(&mut self, base: &str) -> String {
        match &mut self.g {
            Some(g) => {
                if g.chance(1, 5) {
                    " ".repeat(g.usize(4))
                } else {
                    base.to_string()
                }
            }
            None => base.to_string(),
        }
    }

    /// A separator: `sp "," sp`.
    fn comma(&mut self) -> String {
        let a = self.sp("");
        let b = self.sp(" ");
        format!("{a},{b}")
    }

    /// A separator that allows space only after the comma.
    fn tight_comma(&mut self) -> String {
        let b = self.sp(" ");
        format!(",{b}")
    }

    fn sep(&mut self, items: Vec<String>) -> String {
        let mut out = String::new();
        for (i, it) in items.into_iter().enumerate() {
            if i > 0 {
                let c = self.comma();
                out.push_str(&c);
            }
            out.push_str(&it);
        }
        out
    }

    fn tight_sep(&mut self, items: Vec<String>) -> String {
        let mut out = String::new();
        for (i, it) in items.into_iter().enumerate() {
            if i > 0 {
                let c = self.tight_comma();
                out.push_str(&c);
            }
            out.push_str(&it);
        }
        out
    }

    fn escaped(&mut self, s: &str, q: Quote) -> String {
        if self.g.is_none() || self.alt(3) == 0 {
            return s.escape_debug().to_string();
        }
        let mut out = String::new();
        let close = if q == Quote::Single { '\'' } else { '"' };
        for c in s.chars() {
            let raw_ok = c != close && c != '\\' && c != '\n' && c != '\r';
            match self.alt(4) {
                0 if raw_ok => out.push(c),
                1 if c == '\n' => out.push_str("\\n"),
                1 if c == '\r' => out.push_str("\\r"),
                1 if c == '\t' => out.push_str("\\t"),
                1 if c == '\0' => out.push_str("\\0"),
                1 if c == '\\' || c == '\'' || c == '"' => {
                    out.push('\\');
                    out.push(c)
                }
                2 => out.push_str(&format!("\\u{{{:X}}}", c as u32)),
                // An escaped character that is not special stands for itself.
                3 if raw_ok && !"ntr0u".contains(c) => {
                    out.push('\\');
                    out.push(c)
                }
                _ => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
            }
        }
        out
    }

    pub fn str_lit(&mut self, s: &str) -> String {
        let e = self.escaped(s, Quote::Single);
        format!("'{e}'")
    }

    pub fn name(&mut self, s: &str) -> String {
        if is_identifier(s) && self.alt(2) == 0 {
            return s.to_string();
        }
        let e = self.escaped(s, Quote::Double);
        format!("\"{e}\"")
    }

    fn word_case(&mut self, s: &str) -> String {
        match self.alt(3) {
            0 => s.to_string(),
            1 => s.to_uppercase(),
            _ => {
                let mut o = s.to_string();
                o[..1].make_ascii_uppercase();
                o
            }
        }
    }

    pub fn typ(&mut self, t: &Type) -> String {
        let k = t.kind.as_ref().expect("type kind");
        if let Some((n, nu, p)) = type_name(k) {
            return match p {
                None => format!("{n}{}", nul(nu)),
                Some(p) => {
                    let n = self.word_case(n);
                    format!("{n}{}<{p}>", nul(nu))
                }
            };
        }
        match k {
            Kind::List(l) => {
                let n = self.word_case("list");
                let inner = self.typ(l.r#type.as_ref().unwrap());
                format!("{n}{}<{inner}>", nul(l.nullability))
            }
            Kind::UserDefined(u) => {
                let d = self.env.types.iter().find(|d| d.anchor == u.type_reference).expect("declared type").clone();
                let clash = self.env.types.iter().filter(|o| o.name == d.name).count() > 1;
                let prefix = if self.alt(3) == 1 { "u!" } else { "" };
                let mut anchor = String::new();
                if self.anchors != Show::Never && (clash || self.anchors == Show::Always || self.alt(3) == 1) {
                    anchor = format!("#{}", d.anchor);
                }
                if self.alt(4) == 1 {
                    anchor.push_str(&format!("@{}", d.urn));
                }
                let mut params = String::new();
                if !u.type_parameters.is_empty() {
                    let items: Vec<String> = u
                        .type_parameters
                        .iter()
                        .map(|p| match p.parameter.as_ref().unwrap() {
                            parameter::Parameter::DataType(t) => self.typ(t),
                            _ => unreachable!("parameter"),
                        })
                        .collect();
                    params = format!("<{}>", self.tight_sep(items));
                } else if self.alt(4) == 1 {
                    params = "<>".into();
                }
                format!("{prefix}{}{anchor}{}{params}", d.name, nul(u.nullability))
            }
            other => unreachable!("type {other:?}"),
        }
    }

    fn int_text(&mut self, v: i64) -> String {
        if self.alt(8) == 1 {
            let z = self.alt(3);
            let zeros = "0".repeat(z);
            return if v < 0 { format!("-{zeros}{}", v.unsigned_abs()) } else { format!("{zeros}{v}") };
        }
        v.to_string()
    }

    fn float_style(&mut self, s: String) -> String {
        let mut s = float_text(&s);
        if self.alt(5) == 1 {
            let z = self.alt(4);
            s.push_str(&"0".repeat(z));
        }
        if self.alt(8) == 1 {
            s = match s.strip_prefix('-') {
                Some(r) => format!("-0{r}"),
                None => format!("0{s}"),
            };
        }
        s
    }

    /// Clock text for a time of day in units of `10^-p` seconds.
    fn clock(&mut self, units: i64, p: u32) -> String {
        let unit = 10i64.pow(p);
        let (secs, frac) = (units / unit, units % unit);
        let mut s = format!("{:02}:{:02}:{:02}", secs / 3600, secs / 60 % 60, secs % 60);
        let canon = if p == 0 { String::new() } else { format!("{frac:0w$}", w = p as usize) };
        let digits = match self.alt(3) {
            0 => canon,
            // As few digits as the value needs.
            1 => canon.trim_end_matches('0').to_string(),
            // More zeros than needed, up to nanoseconds.
            _ => {
                let mut c = canon;
                while c.len() < 9 && c.len() < p as usize + 2 {
                    c.push('0');
                }
                c
            }
        };
        if !digits.is_empty() {
            s.push('.');
            s.push_str(&digits);
        }
        s
    }

    fn timestamp(&mut self, v: i64, p: u32) -> String {
        let day = 86_400 * 10i64.pow(p);
        let t = if self.alt(3) == 1 { " " } else { "T" };
        let sep = if self.alt(4) == 1 { "/" } else { "-" };
        let c = self.clock(v.rem_euclid(day), p);
        format!("{}{t}{c}", date_text(v.div_euclid(day), sep))
    }

    pub fn literal(&mut self, l: &Literal) -> String {
        let lt = l.literal_type.as_ref().expect("literal");
        let n = if l.nullable { "?" } else { "" };
        // Value, type name, precision, whether the type goes without saying.
        let (v, ty, p, default): (String, &str, Option<i32>, bool) = match lt {
            LiteralType::I64(v) => (self.int_text(*v), "i64", None, true),
            LiteralType::I32(v) => (self.int_text(*v as i64), "i32", None, false),
            LiteralType::I16(v) => (self.int_text(*v as i64), "i16", None, false),
            LiteralType::I8(v) => (self.int_text(*v as i64), "i8", None, false),
            LiteralType::Boolean(v) => (v.to_string(), "boolean", None, true),
            LiteralType::String(s) => (self.str_lit(s), "string", None, true),
            LiteralType::Fp64(v) => (self.float_style(format!("{v}")), "fp64", None, true),
            LiteralType::Fp32(v) => (self.float_style(format!("{v}")), "fp32", None, false),
            LiteralType::Date(d) => {
                let sep = if self.alt(4) == 1 { "/" } else { "-" };
                (self.str_lit(&date_text(*d as i64, sep)), "date", None, false)
            }
            LiteralType::Time(t) => {
                let c = self.clock(*t, 6);
                (self.str_lit(&c), "time", None, false)
            }
            LiteralType::Timestamp(t) => {
                let c = self.timestamp(*t, 6);
                (self.str_lit(&c), "timestamp", None, false)
            }
            LiteralType::PrecisionTime(t) => {
                let c = self.clock(t.value, t.precision as u32);
                (self.str_lit(&c), "precisiontime", Some(t.precision), false)
            }
            LiteralType::PrecisionTimestamp(t) => {
                let c = self.timestamp(t.value, t.precision as u32);
                (self.str_lit(&c), "precisiontimestamp", Some(t.precision), false)
            }
            LiteralType::PrecisionTimestampTz(t) => {
                let c = self.timestamp(t.value, t.precision as u32);
                (self.str_lit(&c), "precisiontimestamptz", Some(t.precision), false)
            }
            LiteralType::IntervalDayToSecond(i) => {
                let Some(PrecisionMode::Precision(p)) = i.precision_mode else { unreachable!("interval precision") };
                let unit = match p {
                    0 => "",
                    3 => "ms",
                    6 => "us",
                    9 => "ns",
                    _ => "ps",
                };
                let mut terms = vec![];
                if i.days != 0 || self.alt(4) == 1 {
                    terms.push(format!("{}d", i.days));
                }
                if i.seconds != 0 || self.alt(4) == 1 {
                    terms.push(format!("{}s", i.seconds));
                }
                if p != 0 && (i.subseconds != 0 || self.alt(4) == 1) {
                    terms.push(format!("{}{unit}", i.subseconds));
                }
                if terms.is_empty() {
                    terms.push("0s".into());
                }
                (self.str_lit(&terms.join(" ")), "interval_day", Some(p), false)
            }
            LiteralType::Null(t) => {
                let s = self.sp("");
                let t = self.typ(t);
                return format!("null:{s}{t}");
            }
            other => unreachable!("literal {other:?}"),
        };
        let shown = match self.literal_types {
            Show::Never => false,
            Show::Always => true,
            Show::Required => !default || l.nullable || self.alt(4) == 1,
        };
        if !shown {
            return v;
        }
        let s = self.sp("");
        match p {
            None => format!("{v}:{s}{ty}{n}"),
            Some(p) => {
                let ty = self.word_case(ty);
                format!("{v}:{s}{ty}{n}<{p}>")
            }
        }
    }

    fn func_ref(&mut self, anchor: u32) -> String {
        let d = self.env.funcs.iter().find(|d| d.anchor == anchor).expect("declared function").clone();
        let full_unique = self.env.funcs.iter().filter(|o| o.name == d.name).count() == 1;
        let base_unique = self.env.funcs.iter().filter(|o| o.base() == d.base()).count() == 1;
        let signed = d.name.contains(':');
        let (name, with_anchor) = if self.anchors == Show::Always {
            (d.name.clone(), true)
        } else if self.anchors == Show::Never {
            (d.base().to_string(), false)
        } else {
            match self.alt(4) {
                1 => (d.name.clone(), true),
                2 => (d.base().to_string(), true),
                3 if signed && full_unique => (d.name.clone(), false),
                _ if base_unique => (d.base().to_string(), false),
                _ => (d.name.clone(), !full_unique || !signed),
            }
        };
        let mut s = name;
        if with_anchor {
            let a = self.sp("");
            let b = self.sp("");
            s.push_str(&format!("{a}#{b}{}", d.anchor));
        }
        if self.alt(5) == 1 {
            let a = self.sp("");
            let b = self.sp("");
            s.push_str(&format!("{a}@{b}{}", d.urn));
        }
        s
    }

    fn call(&mut self, reference: u32, args: &[FunctionArgument], out: &Type) -> String {
        let f = self.func_ref(reference);
        let args: Vec<String> = args
            .iter()
            .map(|a| match a.arg_type.as_ref().unwrap() {
                ArgType::Value(e) => self.expr(e),
                _ => unreachable!("function argument"),
            })
            .collect();
        let args = self.sep(args);
        let a = self.sp("");
        let b = self.sp("");
        let t = self.typ(out);
        format!("{f}{a}({args}):{b}{t}")
    }

    pub fn expr(&mut self, e: &Expression) -> String {
        match e.rex_type.as_ref().expect("expression") {
            RexType::Literal(l) => self.literal(l),
            RexType::Selection(s) => {
                let Some(ReferenceType::DirectReference(r)) = &s.reference_type else { unreachable!() };
                let Some(reference_segment::ReferenceType::StructField(f)) = &r.reference_type else { unreachable!() };
                format!("${}", f.field)
            }
            RexType::ScalarFunction(f) => self.call(f.function_reference, &f.arguments, f.output_type.as_ref().unwrap()),
            RexType::Cast(c) => {
                let x = self.expr(c.input.as_ref().unwrap());
                let t = self.typ(c.r#type.as_ref().unwrap());
                let fb = match c.failure_behavior {
                    1 => "?",
                    2 => "!",
                    _ => "",
                };
                let s: Vec<String> = (0..5).map(|_| self.sp("")).collect();
                format!("({}{x}{}){}::{}{fb}{}{t}", s[0], s[1], s[2], s[3], s[4])
            }
            RexType::IfThen(i) => {
                let mut out = String::from("if_then(");
                let s = self.sp("");
                out.push_str(&s);
                for c in &i.ifs {
                    let a = self.expr(c.r#if.as_ref().unwrap());
                    let b = self.expr(c.then.as_ref().unwrap());
                    let (s1, s2, cm) = (self.sp(" "), self.sp(" "), self.comma());
                    out.push_str(&format!("{a}{s1}->{s2}{b}{cm}"));
                }
                let e = self.expr(i.r#else.as_ref().unwrap());
                let (s1, s2) = (self.sp(" "), self.sp(" "));
                out.push_str(&format!("_{s1}->{s2}{e})"));
                out
            }
            other => unreachable!("expression {other:?}"),
        }
    }

    fn refs(&mut self, m: &[i32]) -> String {
        let items = m.iter().map(|i| format!("${i}")).collect();
        self.sep(items)
    }

    fn schema_cols(&mut self, s: &NamedStruct) -> String {
        let types = &s.r#struct.as_ref().unwrap().types;
        let items: Vec<String> = s
            .names
            .iter()
            .zip(types)
            .map(|(n, t)| {
                let n = self.name(n);
                let t = self.typ(t);
                format!("{n}:{t}")
            })
            .collect();
        self.tight_sep(items)
    }

    pub fn ext_val(&mut self, v: &Val) -> String {
        match v.v.as_ref().unwrap() {
            V::Str(s) => self.str_lit(s),
            V::Int(i) => self.int_text(*i),
            V::FloatBits(b) => self.float_style(format!("{}", f64::from_bits(*b))),
            V::Bool(b) => b.to_string(),
            V::Null(_) => "null".into(),
            V::Expr(e) => self.expr(e),
            V::Enum(e) => format!("&{e}"),
            V::Tuple(t) => {
                let s0 = self.sp("");
                let s1 = self.sp("");
                let items: Vec<String> = t.items.iter().map(|i| self.ext_val(i)).collect();
                match items.len() {
                    0 => format!("({s0})"),
                    1 => {
                        let s2 = self.sp("");
                        format!("({s0}{}{s1},{s2})", items[0])
                    }
                    _ => {
                        let tail = if self.alt(3) == 1 {
                            let s = self.sp("");
                            format!("{s},")
                        } else {
                            String::new()
                        };
                        let body = self.sep(items);
                        format!("({s0}{body}{tail}{s1})")
                    }
                }
            }
        }
    }

    pub fn ext_args(&mut self, p: &Payload) -> String {
        let mut items: Vec<String> = p.positional.iter().map(|v| self.ext_val(v)).collect();
        for n in &p.named {
            let v = self.ext_val(n.val.as_ref().unwrap());
            let k = self.name(&n.name);
            let (a, b) = (self.sp(""), self.sp(""));
            items.push(format!("{k}{a}={b}{v}"));
        }
        if items.is_empty() {
            return if self.alt(3) == 1 { String::new() } else { "_".into() };
        }
        self.sep(items)
    }

    pub fn ext_cols(&mut self, p: &Payload) -> String {
        let items: Vec<String> = p
            .cols
            .iter()
            .map(|c| match (&c.ty, &c.expr) {
                (Some(t), _) => {
                    let n = self.name(&c.name);
                    let t = self.typ(t);
                    format!("{n}:{t}")
                }
                (_, Some(e)) => self.expr(e),
                _ => unreachable!(),
            })
            .collect();
        self.sep(items)
    }

    fn pad(&self, depth: usize) -> String {
        self.indent.repeat(depth)
    }

    fn line(&mut self, out: &mut String, depth: usize, s: &str) {
        if !out.is_empty() {
            out.push('\n');
        }
        if self.blank_lines && self.alt(10) == 1 {
            out.push('\n');
        }
        out.push_str(&self.pad(depth));
        out.push_str(s);
        if self.alt(10) == 1 {
            out.push_str("   ");
        }
    }

    fn arrow(&mut self, args: &str, cols: &str) -> String {
        let (a, b) = (self.sp(" "), self.sp(" "));
        format!("{args}{a}=>{b}{cols}")
    }

    fn addendum(&mut self, out: &mut String, depth: usize, kind: &str, a: &pbjson_types::Any) {
        let s = self.sp(" ");
        let n = self.name(ext::name_of(&a.type_url).expect("registered"));
        let args = self.ext_args(&ext::shown(a, &[]));
        self.line(out, depth, &format!("+{s}{kind}:{n}[{args}]"));
    }

    fn advanced(&mut self, out: &mut String, depth: usize, a: &Option<AdvancedExtension>) {
        let Some(a) = a else { return };
        let late = self.alt(4) == 1;
        if let (Some(e), false) = (&a.enhancement, late) {
            self.addendum(out, depth, "Enh", e);
        }
        for o in &a.optimization {
            self.addendum(out, depth, "Opt", o);
        }
        if let (Some(e), true) = (&a.enhancement, late) {
            self.addendum(out, depth, "Enh", e);
        }
    }

    pub fn rel(&mut self, out: &mut String, depth: usize, r: &Rel) {
        let mapped = |c: &Option<RelCommon>, width: usize| -> Vec<i32> {
            match c.as_ref().and_then(|c| c.emit_kind.as_ref()) {
                Some(EmitKind::Emit(e)) => e.output_mapping.clone(),
                _ => (0..width as i32).collect(),
            }
        };
        match r.rel_type.as_ref().expect("relation") {
            RelType::Read(r) => {
                let schema = r.base_schema.as_ref().unwrap();
                match r.read_type.as_ref().unwrap() {
                    ReadType::NamedTable(t) => {
                        let names: Vec<String> = t.names.iter().map(|n| self.name(n)).collect();
                        let cols = self.schema_cols(schema);
                        let head = names.join(".");
                        let s = match r.common.as_ref().and_then(|c| c.emit_kind.as_ref()) {
                            Some(EmitKind::Emit(e)) => {
                                let m = self.refs(&e.output_mapping);
                                let s: Vec<String> = (0..4).map(|_| self.sp(" ")).collect();
                                format!("Read[{head}{}+>{}{cols}{}|>{}{m}]", s[0], s[1], s[2], s[3])
                            }
                            _ => {
                                let op = if self.alt(4) == 1 { "+>" } else { "=>" };
                                let (a, b) = (self.sp(" "), self.sp(" "));
                                format!("Read[{head}{a}{op}{b}{cols}]")
                            }
                        };
                        self.line(out, depth, &s);
                    }
                    ReadType::VirtualTable(t) => {
                        let mut args: Vec<String> = t
                            .expressions
                            .iter()
                            .map(|row| {
                                let items: Vec<String> = row.fields.iter().map(|e| self.expr(e)).collect();
                                let body = self.sep(items);
                                let (a, b) = (self.sp(""), self.sp(""));
                                format!("({a}{body}{b})")
                            })
                            .collect();
                        if args.is_empty() {
                            args.push("_".into());
                        }
                        if let Some(f) = &r.filter {
                            let e = self.expr(f);
                            let (a, b) = (self.sp(""), self.sp(""));
                            args.push(format!("filter{a}={b}{e}"));
                        }
                        let cols = self.schema_cols(schema);
                        let n = t.expressions.len();
                        let canon_multi = n > 0 && n >= self.threshold;
                        let flip = self.alt(4) == 1;
                        if canon_multi != flip {
                            // Each place a line may be continued is independent.
                            let mixed = self.alt(3) == 1;
                            let pad = self.pad(depth + 1);
                            let brk = |w: &mut Self, inline: &str| {
                                if mixed && w.alt(2) == 1 { inline.to_string() } else { format!("{}\n{pad}- ", if w.alt(6) == 1 { "  " } else { "" }) }
                            };
                            let mut s = String::from("Read:Virtual[");
                            s.push_str(&brk(self, ""));
                            for (i, a) in args.iter().enumerate() {
                                if i > 0 {
                                    s.push(',');
                                    s.push_str(&brk(self, " "));
                                }
                                s.push_str(a);
                            }
                            s.push_str(&brk(self, " "));
                            let sp = self.sp(" ");
                            s.push_str(&format!("=>{sp}{cols}]"));
                            self.line(out, depth, &s);
                        } else {
                            let args = self.sep(args);
                            let s = self.arrow(&args, &cols);
                            self.line(out, depth, &format!("Read:Virtual[{s}]"));
                        }
                    }
                    ReadType::ExtensionTable(t) => {
                        let cols = self.schema_cols(schema);
                        self.line(out, depth, &format!("Read:Extension[{cols}]"));
                        let late = self.alt(4) == 1;
                        if late {
                            self.advanced(out, depth + 1, &r.advanced_extension);
                        }
                        self.addendum(out, depth + 1, "Ext", t.detail.as_ref().unwrap());
                        if !late {
                            self.advanced(out, depth + 1, &r.advanced_extension);
                        }
                        return;
                    }
                    other => unreachable!("read {other:?}"),
                }
                self.advanced(out, depth + 1, &r.advanced_extension);
            }
            RelType::Filter(r) => {
                let input = r.input.as_ref().unwrap();
                let c = self.expr(r.condition.as_ref().unwrap());
                let m = self.refs(&mapped(&r.common, width(input)));
                let s = self.arrow(&c, &m);
                self.line(out, depth, &format!("Filter[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, input);
            }
            RelType::Project(r) => {
                let input = r.input.as_ref().unwrap();
                let w = width(input);
                let items: Vec<String> = mapped(&r.common, w + r.expressions.len())
                    .into_iter()
                    .map(|i| if (i as usize) < w { format!("${i}") } else { self.expr(&r.expressions[i as usize - w]) })
                    .collect();
                let s = self.sep(items);
                self.line(out, depth, &format!("Project[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, input);
            }
            RelType::Aggregate(r) => {
                let mut sets: Vec<Vec<String>> = vec![];
                for set in &r.groupings {
                    sets.push(set.expression_references.iter().map(|&i| self.expr(&r.grouping_expressions[i as usize])).collect());
                }
                let args = match sets.len() {
                    0 => "_".to_string(),
                    1 if sets[0].is_empty() => "_".to_string(),
                    1 if self.alt(4) != 1 => {
                        let s = sets.remove(0);
                        self.sep(s)
                    }
                    _ => {
                        let items: Vec<String> = sets
                            .into_iter()
                            .map(|s| {
                                if s.is_empty() {
                                    return "_".into();
                                }
                                let body = self.sep(s);
                                let (a, b) = (self.sp(""), self.sp(""));
                                format!("({a}{body}{b})")
                            })
                            .collect();
                        self.sep(items)
                    }
                };
                let ng = r.grouping_expressions.len();
                let cols: Vec<String> = mapped(&r.common, ng + r.measures.len())
                    .into_iter()
                    .map(|i| {
                        let i = i as usize;
                        if i < ng {
                            self.expr(&r.grouping_expressions[i])
                        } else {
                            let f = r.measures[i - ng].measure.as_ref().unwrap();
                            self.call(f.function_reference, &f.arguments, f.output_type.as_ref().unwrap())
                        }
                    })
                    .collect();
                let cols = self.sep(cols);
                let s = self.arrow(&args, &cols);
                self.line(out, depth, &format!("Aggregate[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, r.input.as_ref().unwrap());
            }
            RelType::Sort(r) => {
                let input = r.input.as_ref().unwrap();
                let items: Vec<String> = r
                    .sorts
                    .iter()
                    .map(|s| {
                        let e = self.expr(s.expr.as_ref().unwrap());
                        let Some(SortKind::Direction(d)) = s.sort_kind else { unreachable!() };
                        let (a, b, c) = (self.sp(""), self.comma(), self.sp(""));
                        format!("({a}{e}{b}&{}{c})", sort_name(d))
                    })
                    .collect();
                let args = if items.is_empty() { "_".to_string() } else { self.sep(items) };
                let m = self.refs(&mapped(&r.common, width(input)));
                let s = self.arrow(&args, &m);
                self.line(out, depth, &format!("Sort[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, input);
            }
            RelType::Fetch(r) => {
                let input = r.input.as_ref().unwrap();
                let mut items = vec![];
                if let Some(CountMode::CountExpr(e)) = &r.count_mode {
                    let e = self.fetch_value(e);
                    let (a, b) = (self.sp(""), self.sp(""));
                    items.push(format!("limit{a}={b}{e}"));
                }
                if let Some(OffsetMode::OffsetExpr(e)) = &r.offset_mode {
                    let e = self.fetch_value(e);
                    let (a, b) = (self.sp(""), self.sp(""));
                    items.push(format!("offset{a}={b}{e}"));
                }
                if self.alt(3) == 1 {
                    items.reverse();
                }
                let args = if items.is_empty() { "_".to_string() } else { self.sep(items) };
                let m = self.refs(&mapped(&r.common, width(input)));
                let s = self.arrow(&args, &m);
                self.line(out, depth, &format!("Fetch[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, input);
            }
            RelType::Join(r) => {
                let (l, rt) = (r.left.as_ref().unwrap(), r.right.as_ref().unwrap());
                let mut items = vec![format!("&{}", join_name(r.r#type)), self.expr(r.expression.as_ref().unwrap())];
                if let Some(p) = &r.post_join_filter {
                    let e = self.expr(p);
                    let (a, b) = (self.sp(""), self.sp(""));
                    items.push(format!("post_filter{a}={b}{e}"));
                }
                let args = self.sep(items);
                let m = self.refs(&mapped(&r.common, join_width(r.r#type, width(l), width(rt))));
                let s = self.arrow(&args, &m);
                self.line(out, depth, &format!("Join[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, l);
                self.rel(out, depth + 1, rt);
            }
            RelType::Set(r) => {
                let w = r.inputs.first().map(width).unwrap_or(0);
                let m = self.refs(&mapped(&r.common, w));
                let s = self.arrow(&format!("&{}", set_name(r.op)), &m);
                self.line(out, depth, &format!("Set[{s}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                for i in &r.inputs {
                    self.rel(out, depth + 1, i);
                }
            }
            RelType::Cross(r) => {
                let (l, rt) = (r.left.as_ref().unwrap(), r.right.as_ref().unwrap());
                let m = self.refs(&mapped(&r.common, width(l) + width(rt)));
                self.line(out, depth, &format!("Cross[{m}]"));
                self.advanced(out, depth + 1, &r.advanced_extension);
                self.rel(out, depth + 1, l);
                self.rel(out, depth + 1, rt);
            }
            RelType::ExtensionLeaf(r) => self.ext_rel(out, depth, "ExtensionLeaf", r.detail.as_ref().unwrap(), &[]),
            RelType::ExtensionSingle(r) => {
                let i = r.input.as_ref().unwrap();
                self.ext_rel(out, depth, "ExtensionSingle", r.detail.as_ref().unwrap(), std::slice::from_ref(i))
            }
            RelType::ExtensionMulti(r) => self.ext_rel(out, depth, "ExtensionMulti", r.detail.as_ref().unwrap(), &r.inputs),
            other => unreachable!("relation {other:?}"),
        }
    }

    /// A limit or offset: a plain integer is a value, anything else an expression.
    fn fetch_value(&mut self, e: &Expression) -> String {
        let s = self.expr(e);
        // A bare integer must not be negative.
        match &e.rex_type {
            Some(RexType::Literal(Literal { literal_type: Some(LiteralType::I64(v)), nullable: false, .. })) if *v < 0 && !s.contains(':') && self.literal_types != Show::Never => s + ":i64",
            _ => s,
        }
    }

    fn ext_rel(&mut self, out: &mut String, depth: usize, kind: &str, a: &pbjson_types::Any, inputs: &[Rel]) {
        let widths: Vec<usize> = inputs.iter().map(width).collect();
        let p = ext::shown(a, &widths);
        let n = self.name(ext::name_of(&a.type_url).expect("registered"));
        let args = self.ext_args(&p);
        let cols = self.ext_cols(&p);
        let s0 = self.sp("");
        let s = if p.cols.is_empty() && self.alt(3) == 1 { args } else { self.arrow(&args, &cols) };
        self.line(out, depth, &format!("{kind}:{n}[{s0}{s}]"));
        for i in inputs {
            self.rel(out, depth + 1, i);
        }
    }

    fn header_lines(&mut self, title: &str, lines: Vec<String>, out: &mut String) {
        if lines.is_empty() {
            return;
        }
        out.push_str(title);
        out.push('\n');
        for l in lines {
            out.push_str(&self.indent.clone());
            out.push_str(&l);
            if self.alt(10) == 1 {
                out.push_str("  ");
            }
            out.push('\n');
            if self.blank_lines && self.alt(12) == 1 {
                out.push('\n');
            }
        }
    }

    fn anchor_text(&mut self, mark: char, n: u32) -> String {
        if self.alt(3) == 1 {
            let s = self.sp("");
            return format!("{mark}{s}{n}");
        }
        format!("{mark}{n:3}")
    }

    fn decl_line(&mut self, d: &Decl, is_type: bool) -> String {
        let a = self.anchor_text('#', d.anchor);
        let u = self.anchor_text('@', d.urn);
        let (s1, s2, s3) = (self.sp(" "), self.sp(""), self.sp(" "));
        let p = if is_type && self.alt(4) == 1 { "u!" } else { "" };
        format!("{a}{s1}{u}{s2}:{s3}{p}{}", d.name)
    }

    fn order<T>(&mut self, v: &mut [T]) {
        if self.alt(2) == 1
            && let Some(g) = &mut self.g
        {
            for i in (1..v.len()).rev() {
                let j = g.usize(i + 1);
                v.swap(i, j);
            }
        }
    }

    pub fn extensions(&mut self) -> String {
        let mut out = String::new();
        let mut urns = self.env.urns.clone();
        urns.sort();
        let mut groups = vec![self.env.funcs.clone(), self.env.types.clone(), self.env.vars.clone()];
        for gr in &mut groups {
            gr.sort_by_key(|d| d.anchor);
        }
        if urns.is_empty() && groups.iter().all(|x| x.is_empty()) {
            return out;
        }
        out.push_str("=== Extensions\n");
        self.order(&mut urns);
        let lines = urns
            .iter()
            .map(|(a, u)| {
                let t = self.anchor_text('@', *a);
                let s = self.sp(" ");
                format!("{t}:{s}{u}")
            })
            .collect();
        self.header_lines("URNs:", lines, &mut out);
        let mut order = vec![0usize, 1, 2];
        self.order(&mut order);
        for k in order {
            let mut ds = groups[k].clone();
            self.order(&mut ds);
            let lines = ds.iter().map(|d| self.decl_line(d, k == 1)).collect();
            self.header_lines(["Functions:", "Types:", "Type Variations:"][k], lines, &mut out);
        }
        out.push('\n');
        out
    }

    pub fn plan(&mut self, plan: &Plan) -> String {
        let mut out = String::new();
        if self.blank_lines && self.alt(6) == 1 {
            out.push_str("\n\n");
        }
        if let Some(v) = &plan.version
            && *v != Default::default()
        {
            out.push_str(&format!("=== Version {}.{}.{}\n", v.major_number, v.minor_number, v.patch_number));
            let mut lines = vec![];
            if !v.producer.is_empty() {
                let s = self.sp(" ");
                lines.push(format!("{}producer:{s}{}\n", self.indent, v.producer));
            }
            if !v.git_hash.is_empty() {
                let s = self.sp(" ");
                lines.push(format!("{}git_hash:{s}{}\n", self.indent, v.git_hash));
            }
            if self.alt(3) == 1 {
                lines.reverse();
            }
            out.push_str(&lines.concat());
            if self.blank_lines && self.alt(6) == 1 {
                out.push('\n');
            }
        }
        let e = self.extensions();
        out.push_str(&e);
        out.push_str("=== Plan\n");
        for (i, r) in plan.relations.iter().enumerate() {
            if i > 0 {
                out.push_str("\n\n");
            }
            let mut s = String::new();
            match r.rel_type.as_ref().expect("relation") {
                PlanRelType::Rel(r) => self.rel(&mut s, 0, r),
                PlanRelType::Root(r) => {
                    let names: Vec<String> = r.names.iter().map(|n| self.name(n)).collect();
                    let names = self.sep(names);
                    self.line(&mut s, 0, &format!("Root[{names}]"));
                    self.rel(&mut s, 1, r.input.as_ref().unwrap());
                }
            }
            out.push_str(&s);
        }
        if self.alt(6) != 1 {
            out.push('\n');
        }
        if self.alt(6) == 1 {
            out = out.replace('\n', "\r\n");
        }
        out
    }
}

/// How many columns a relation emits.
/// Grouping columns, also of an aggregation in the deprecated form.
#[allow(deprecated)]
fn grouping_columns(a: &substrait::proto::AggregateRel) -> usize {
    if !a.grouping_expressions.is_empty() {
        return a.grouping_expressions.len();
    }
    let all: std::collections::BTreeSet<Vec<u8>> = a.groupings.iter().flat_map(|g| &g.grouping_expressions).map(prost::Message::encode_to_vec).collect();
    all.len()
}

pub fn width(r: &Rel) -> usize {
    let emitted = |c: &Option<RelCommon>, direct: usize| match c.as_ref().and_then(|c| c.emit_kind.as_ref()) {
        Some(EmitKind::Emit(e)) => e.output_mapping.len(),
        _ => direct,
    };
    match r.rel_type.as_ref().expect("relation") {
        RelType::Read(r) => emitted(&r.common, r.base_schema.as_ref().map_or(0, |s| s.names.len())),
        RelType::Filter(r) => emitted(&r.common, width(r.input.as_ref().unwrap())),
        RelType::Sort(r) => emitted(&r.common, width(r.input.as_ref().unwrap())),
        RelType::Fetch(r) => emitted(&r.common, width(r.input.as_ref().unwrap())),
        RelType::Project(r) => emitted(&r.common, width(r.input.as_ref().unwrap()) + r.expressions.len()),
        RelType::Aggregate(r) => emitted(&r.common, grouping_columns(r) + r.measures.len()),
        RelType::Join(r) => emitted(&r.common, join_width(r.r#type, width(r.left.as_ref().unwrap()), width(r.right.as_ref().unwrap()))),
        RelType::Cross(r) => emitted(&r.common, width(r.left.as_ref().unwrap()) + width(r.right.as_ref().unwrap())),
        RelType::Set(r) => emitted(&r.common, r.inputs.first().map_or(0, width)),
        RelType::ExtensionLeaf(r) => ext::shown(r.detail.as_ref().unwrap(), &[]).cols.len(),
        RelType::ExtensionSingle(r) => ext::shown(r.detail.as_ref().unwrap(), &[width(r.input.as_ref().unwrap())]).cols.len(),
        RelType::ExtensionMulti(r) => {
            let widths: Vec<usize> = r.inputs.iter().map(width).collect();
            ext::shown(r.detail.as_ref().unwrap(), &widths).cols.len()
        }
        other => unreachable!("relation {other:?}"),
    }
}

/// A one-column table.
pub fn canonical_read(name: &str) -> Rel {
    use substrait::proto::{NamedStruct, ReadRel, read_rel, r#type::Struct};
    Rel {
        rel_type: Some(RelType::Read(Box::new(ReadRel {
            common: crate::model::direct(),
            base_schema: Some(NamedStruct {
                names: vec!["a".into()],
                r#struct: Some(Struct { types: vec![crate::model::simple_type(0, crate::model::REQ)], type_variation_reference: 0, nullability: crate::model::REQ }),
            }),
            read_type: Some(read_rel::ReadType::NamedTable(read_rel::NamedTable { names: vec![name.into()], advanced_extension: None })),
            ..Default::default()
        }))),
    }
}
