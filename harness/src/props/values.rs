//! Literals, types, strings and names.

#![allow(deprecated)]

use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp};
use substrait::proto::expression::{Literal, RexType};
use substrait::proto::{Expression, Plan};
use substrait_explain::extensions::{ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError, ExtensionRegistry};
use substrait_explain::{OutputOptions, Visibility};

use super::core::{format, format_opts, must_parse, parse, parse_with, same_plan, text_diff};
use super::slots::{EXPR_SLOTS, Place, TYPE_HOLE, TYPE_SLOTS, slot_env};
use crate::r#gen::Gen;
use crate::model::{self, Cfg, Env, lit_expr, literal_of};
use crate::reading::{self, Token};
use crate::render::{self, Show, W};
use crate::runner::{Case, Fail, Prop, R, sut};
use crate::{ensure, ext, fail};

fn place(g: &mut Gen, env: Env) -> Place {
    let s = g.usize(EXPR_SLOTS.len());
    Place::new(g, env, s)
}

// ---------------------------------------------------------------- P07

/// First and last day number of years that are surely representable.
const MIN_DAY: i64 = -96_400_000; // about year -261960
const MAX_DAY: i64 = 95_000_000; // about year 262070

fn any_day(g: &mut Gen) -> i64 {
    match g.weighted(&[4, 3, 2, 3]) {
        0 => model::days(g) as i64,
        // First and last days of months and years, anywhere.
        1 => {
            let y = g.choose(&[0i64, 1, 4, 100, 400, 1600, 1700, 1900, 1970, 2000, 2023, 2024, 2100, 9999, 10000, -1, -4, -100, -400, 99999, 262000, -261000]) + g.below(3) as i64 - 1;
            let start = days_from_year(y);
            start + g.choose(&[0i64, 30, 31, 58, 59, 60, 364, 365, 366, -1])
        }
        2 => MIN_DAY + g.below((MAX_DAY - MIN_DAY) as u64) as i64,
        _ => g.below(60_000) as i64 - 20_000,
    }
}

/// Day number of 1 January of the year.
fn days_from_year(y: i64) -> i64 {
    let y1 = y - 1;
    365 * y1 + y1.div_euclid(4) - y1.div_euclid(100) + y1.div_euclid(400) - 719_162
}

fn any_units(g: &mut Gen, p: u32) -> i64 {
    let unit = 10i64.pow(p);
    match g.weighted(&[3, 2]) {
        0 => model::time_units(g, p as i32),
        _ => {
            let s = g.choose(&[0i64, 59, 60, 3599, 86399]);
            let f = if p == 0 { 0 } else { g.choose(&[0, 1, 9, 10, unit - 1, unit / 10, unit / 10 * 9, unit / 1000 + 1]) };
            s * unit + f.min(unit - 1)
        }
    }
}

fn any_instant(g: &mut Gen, p: u32) -> i64 {
    let unit = 10i64.pow(p);
    let day = 86_400 * unit;
    if p == 9 {
        return match g.weighted(&[2, 2, 1]) {
            0 => (g.below(200_000) as i64 - 100_000) * day + any_units(g, p),
            1 => g.raw() as i64,
            _ => g.choose(&[i64::MIN, i64::MAX, -1, 0, 1, -day, -day - 1, day - 1, i64::MIN + 1, i64::MIN + 1_000_000_000]),
        };
    }
    if g.chance(1, 8) {
        return g.choose(&[-1, 0, 1, -day, -day - 1, day - 1, -unit, -unit - 1, 1 - unit]);
    }
    any_day(g) * day + any_units(g, p)
}

fn any_f64(g: &mut Gen) -> f64 {
    match g.weighted(&[2, 3, 2, 2]) {
        0 => model::f64v(g),
        1 => {
            let v = f64::from_bits(g.raw());
            if v.is_finite() { v } else { 0.3 }
        }
        // Halfway and neighbouring values.
        2 => {
            let e = g.below(2046) << 52;
            let m = g.choose(&[0u64, 1, (1 << 52) - 1, 1 << 51, (1 << 51) + 1, 2]);
            let s = (g.below(2)) << 63;
            f64::from_bits(s | e | m)
        }
        _ => {
            let k = g.range(0, 40) as i32 - 20;
            g.i64() as f64 * 10f64.powi(k)
        }
    }
}

fn any_f32(g: &mut Gen) -> f32 {
    match g.weighted(&[2, 3, 2]) {
        0 => model::f32v(g),
        1 => {
            let v = f32::from_bits(g.raw() as u32);
            if v.is_finite() { v } else { 0.3 }
        }
        _ => {
            let e = (g.below(254) as u32) << 23;
            let m = g.choose(&[0u32, 1, (1 << 23) - 1, 1 << 22, 2]);
            f32::from_bits(((g.below(2) as u32) << 31) | e | m)
        }
    }
}

fn any_interval(g: &mut Gen) -> (IntervalDayToSecond, bool) {
    let p = g.choose(&[6, 0, 3, 9, 12]);
    let wide = g.chance(1, 4);
    let n = |g: &mut Gen, lim: i64| -> i64 {
        match g.weighted(&[2, 3, 2, 2]) {
            0 => 0,
            1 => g.below(200) as i64 - 100,
            2 => g.choose(&[lim, -lim, 1, -1, lim - 1]),
            _ => g.below(2 * lim as u64 + 1) as i64 - lim,
        }
    };
    let mut days = n(g, 3_650_000) as i32;
    let mut seconds = n(g, 86_400 * 1000) as i32;
    if g.chance(1, 4) {
        // Whole minutes, hours and days are kept as seconds.
        seconds = g.choose(&[86_400, 86_399, -86_400, 3600, 60, 59, 1000, 172_800]);
    }
    let mut sub = if p == 0 { 0 } else { n(g, 10i64.pow(p as u32) - 1) };
    if p > 0 && g.chance(1, 6) {
        sub = g.choose(&[1000, 999, 1_000_000.min(10i64.pow(p as u32) - 1), 1, -1, 10i64.pow(p as u32) / 10, 10i64.pow(p as u32) / 2]).min(10i64.pow(p as u32) - 1);
    }
    if wide {
        match g.usize(3) {
            0 => days = g.choose(&[i32::MIN, i32::MAX, i32::MIN + 1, 3_650_001]),
            1 => seconds = g.choose(&[i32::MIN, i32::MAX, i32::MAX - 1]),
            _ => sub = if p == 0 { 0 } else { g.choose(&[i64::MIN, i64::MAX, 10i64.pow(p as u32), -10i64.pow(p as u32)]) },
        }
    }
    (IntervalDayToSecond { days, seconds, subseconds: sub, precision_mode: Some(PrecisionMode::Precision(p)) }, wide)
}

/// A literal the format supports, the label of its kind, and whether
/// formatting may report a value that it nevertheless writes in full.
fn any_literal(g: &mut Gen) -> (Literal, &'static str, bool) {
    let nullable = g.chance(1, 3);
    let prec = |g: &mut Gen| g.choose(&[6u32, 0, 3, 9]);
    let mut warn = false;
    let (lt, kind) = match g.weighted(&[3, 2, 2, 2, 1, 4, 3, 3, 3, 2, 3, 2, 3, 3, 4, 2]) {
        0 => (LiteralType::I64(g.i64()), "i64"),
        1 => (LiteralType::I32(g.i64() as i32), "i32"),
        2 => (LiteralType::I16(g.i64() as i16 as i32), "i16"),
        3 => (LiteralType::I8(g.i64() as i8 as i32), "i8"),
        4 => (LiteralType::Boolean(g.bool()), "boolean"),
        5 => (LiteralType::Fp64(any_f64(g)), "fp64"),
        6 => (LiteralType::Fp32(any_f32(g)), "fp32"),
        7 => (LiteralType::String(model::string(g)), "string"),
        8 => (LiteralType::Date(any_day(g).clamp(MIN_DAY, MAX_DAY) as i32), "date"),
        9 => (LiteralType::Time(any_units(g, 6)), "time"),
        10 => (LiteralType::Timestamp(any_instant(g, 6)), "timestamp"),
        11 => {
            let p = prec(g);
            (LiteralType::PrecisionTime(PrecisionTime { precision: p as i32, value: any_units(g, p) }), "precisiontime")
        }
        12 => {
            let p = prec(g);
            (LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: p as i32, value: any_instant(g, p) }), "precisiontimestamp")
        }
        13 => {
            let p = prec(g);
            (LiteralType::PrecisionTimestampTz(PrecisionTimestamp { precision: p as i32, value: any_instant(g, p) }), "precisiontimestamptz")
        }
        14 => {
            let (i, w) = any_interval(g);
            // Beyond the range Substrait gives the type.
            warn = w || i.days.unsigned_abs() > 3_640_000;
            (LiteralType::IntervalDayToSecond(i), "interval_day")
        }
        _ => {
            let t = model::typ(g, &Cfg::default(), &slot_env(), 2);
            return (literal_of(LiteralType::Null(t), false), "null", false);
        }
    };
    (literal_of(lt, nullable), kind, warn)
}

/// Bit-exact comparison (protobuf equality takes -0.0 for 0.0).
fn same(want: &Plan, got: &Plan, kind: &str, text: &str) -> R {
    same_plan(want, got, kind, text)?;
    ensure!(super::fuzz::same_bytes(want, got), kind, "the plans differ in a sign or in bits\n{text}");
    Ok(())
}

/// The decimal expansion of the midpoint between two neighbouring floats, or a
/// number just beside it: the hardest numbers to round.
fn halfway(g: &mut Gen) -> String {
    let exact = |v: f64| format!("{v:.1100}").trim_end_matches('0').to_string();
    let mut t = if g.chance(2, 3) {
        let v = any_f32(g).abs();
        let next = f32::from_bits(v.to_bits() + 1);
        if !next.is_finite() {
            return "1.0".into();
        }
        exact((v as f64 + next as f64) / 2.0)
    } else {
        // Between whole numbers past 2^53, where the midpoint is odd.
        let e = g.range(53, 61) as u32;
        let n = (1u128 << e) + ((g.below(1 << 20) as u128) << (e - 52)) + (1u128 << (e - 53));
        format!("{n}.")
    };
    match g.usize(4) {
        0 => {}
        1 => t = format!("{t}{}1", "0".repeat(g.usize(40))),
        2 => t = format!("{t}{}", "0".repeat(g.usize(20))),
        _ => {
            // Just below: the last nonzero digit one less, then nines.
            if let Some(i) = t.rfind(|c: char| c.is_ascii_digit() && c != '0') {
                let d = t.as_bytes()[i] - 1;
                let point = t.find('.').unwrap();
                let tail = if i < point { t[i + 1..point].replace('0', "9") + "." } else { String::new() };
                t = format!("{}{}{tail}{}", &t[..i], d as char, "9".repeat(g.range(1, 30)));
            }
        }
    }
    if t.ends_with('.') {
        t.push('0');
    }
    if g.bool() { format!("-{t}") } else { t }
}

/// A decimal number as digits, with the value it reads as.
fn decimal(g: &mut Gen) -> String {
    if g.chance(1, 3) {
        return halfway(g);
    }
    let digits = |g: &mut Gen, n: usize| -> String { (0..n).map(|_| (b'0' + g.below(10) as u8) as char).collect() };
    let a = match g.weighted(&[3, 2, 1]) {
        0 => g.range(1, 4),
        1 => g.range(1, 20),
        _ => g.range(1, 300),
    };
    let b = match g.weighted(&[3, 2, 1]) {
        0 => g.range(1, 4),
        1 => g.range(1, 25),
        _ => g.range(1, 320),
    };
    let sign = if g.chance(1, 3) { "-" } else { "" };
    let int = if g.chance(1, 4) { "0".repeat(a.min(4)) } else { digits(g, a) };
    let frac = if g.chance(1, 5) { format!("{}{}", "0".repeat(b), digits(g, 3)) } else { digits(g, b) };
    format!("{sign}{int}.{frac}")
}

fn p07(c: &mut Case) -> R {
    let p = place(&mut c.g, slot_env());
    c.label(EXPR_SLOTS[p.slot]);
    if c.g.chance(1, 6) {
        // A number spelled in decimal denotes the nearest value.
        let text = decimal(&mut c.g);
        c.label("decimal spelling");
        let (lt, ty) = if c.g.bool() {
            (LiteralType::Fp64(text.parse().unwrap()), if c.g.bool() { "" } else { ":fp64" })
        } else {
            (LiteralType::Fp32(text.parse().unwrap()), ":fp32")
        };
        let finite = match lt {
            LiteralType::Fp64(v) => v.is_finite(),
            LiteralType::Fp32(v) => v.is_finite(),
            _ => unreachable!(),
        };
        let nul = !ty.is_empty() && c.g.chance(1, 3);
        let t = p.expr_with(&format!("{text}{ty}{}", if nul { "?" } else { "" }));
        c.show(&t);
        if !finite {
            return Ok(());
        }
        c.nontrivial = true;
        let Some(want) = p.expr(lit_expr(literal_of(lt, nul))) else { return Ok(()) };
        return same(&want, &must_parse(&t)?, "the number reads as another value", &t);
    }
    if c.g.chance(1, 12) {
        return p07_unrepresentable(c, &p);
    }
    let (l, kind, warn) = any_literal(&mut c.g);
    c.label(kind);
    let Some(plan) = p.expr(lit_expr(l.clone())) else { return Ok(()) };
    c.nontrivial = true;
    let want = render::canonical(&plan);
    c.show(&want);
    let (got, errs) = format(&plan)?;
    ensure!(warn || errs.is_empty(), "problem reported for a supported value", "{errs:?}\n{got}");
    ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
    same(&plan, &must_parse(&got)?, "value changed by a round trip", &got)?;
    // The same value with its type always written.
    let o = OutputOptions { literal_types: Visibility::Always, ..OutputOptions::default() };
    let (full, _) = format_opts(&plan, &o)?;
    let back = must_parse(&full)?;
    if p.expr(lit_expr(l.clone())).is_some() && !in_extension(&p) {
        same(&plan, &back, "value changed by a round trip with literal types", &full)?;
    }
    // And in another documented spelling.
    let spelled = {
        let holder = plan.clone();
        let mut w = W::new(&holder, Some(&mut c.g));
        w.literal(&l)
    };
    let t = p.expr_with(&spelled);
    same(&plan, &must_parse(&t)?, "spelling denotes another value", &t)
}

/// Extension arguments tell plain values from typed ones.
fn in_extension(p: &Place) -> bool {
    EXPR_SLOTS[p.slot].contains("extension") || EXPR_SLOTS[p.slot].contains("argument") && EXPR_SLOTS[p.slot] != "function argument" && EXPR_SLOTS[p.slot] != "measure argument"
}

/// Values outside what the text can hold are reported, or come back intact,
/// or are refused when read; they never come back as something else.
fn p07_unrepresentable(c: &mut Case, p: &Place) -> R {
    c.label("outside the supported range");
    let g = &mut c.g;
    let day = |p: i32| 86_400i64.saturating_mul(10i64.pow(p as u32));
    let prec = g.choose(&[6, 0, 3, 9, 1, 12, -1, 13, 7]);
    let v = g.raw() as i64;
    let lt = match g.usize(11) {
        0 => LiteralType::I8(g.i64() as i32),
        1 => LiteralType::I16(g.i64() as i32),
        2 => LiteralType::Fp64(g.choose(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
        3 => LiteralType::Fp32(g.choose(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY])),
        4 => LiteralType::Date(g.raw() as i32),
        5 => LiteralType::Time(g.choose(&[-1, day(6), day(6) + 1, i64::MIN, i64::MAX, v])),
        6 => LiteralType::Timestamp(v),
        7 => LiteralType::PrecisionTime(PrecisionTime { precision: prec, value: g.choose(&[-1, 0, 1, day(6), i64::MAX, v]) }),
        8 => LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: prec, value: v }),
        9 => LiteralType::PrecisionTimestampTz(PrecisionTimestamp { precision: prec, value: v }),
        _ => LiteralType::IntervalDayToSecond(IntervalDayToSecond {
            days: g.i64() as i32,
            seconds: g.i64() as i32,
            subseconds: g.i64(),
            precision_mode: Some(PrecisionMode::Precision(prec)),
        }),
    };
    let l = literal_of(lt, g.bool());
    c.nontrivial = true;
    let e = Expression { rex_type: Some(RexType::Literal(l)) };
    let Some(plan) = p.expr(e) else { return Ok(()) };
    let (text, errs) = format(&plan)?;
    c.show(&text);
    if !errs.is_empty() {
        return Ok(());
    }
    if let Ok(back) = parse(&text)? {
        same(&plan, &back, "value changed silently", &text)?;
    }
    Ok(())
}

pub const P07: Prop = Prop {
    id: "P07",
    quick: 160_000,
    thorough: 4_000_000,
    f: p07,
    rule: "a literal of a supported kind (or a decimal spelling) stands in one of 23 positions and is written and read back",
    assumptions: &["years within about ±261900, the range of the calendar library used"],
    known: &[],
};

// ---------------------------------------------------------------- P08

/// A literal that denotes nothing, and a neighbour that does.
fn bad_literal(g: &mut Gen) -> (String, Option<String>, &'static str) {
    let nul = |g: &mut Gen| if g.chance(1, 3) { "?" } else { "" };
    let q = |s: String, t: &str| format!("'{s}':{t}");
    let fresh_date = |g: &mut Gen| {
        let (y, m, d) = render::civil(model::days(g) as i64 % 700_000);
        (y, m, d)
    };
    let ts_type = |g: &mut Gen| g.pick(&["timestamp", "timestamp?", "precisiontimestamp<6>", "precisiontimestamp<0>", "precisiontimestamptz<3>", "precisiontimestamptz?<9>"]).to_string();
    match g.usize(14) {
        0 => {
            // Integers just past the range of their type.
            let (t, min, max) = g.choose(&[
                ("i8", i8::MIN as i128, i8::MAX as i128),
                ("i16", i16::MIN as i128, i16::MAX as i128),
                ("i32", i32::MIN as i128, i32::MAX as i128),
                ("i64", i64::MIN as i128, i64::MAX as i128),
            ]);
            let over: i128 = match g.weighted(&[3, 2, 2, 1]) {
                0 => 1 + g.below(3) as i128,
                1 => max - min + 1 - g.below(2) as i128 - (max - min) / 2,
                2 => 1 + g.raw() as i128,
                _ => 1 + ((g.raw() as i128) << 62),
            };
            let n = nul(g);
            let (bad, good) = if g.bool() { (max + over, max) } else { (min - over, min) };
            let bare = t == "i64" && n.is_empty() && g.bool();
            let suffix = if bare { String::new() } else { format!(":{t}{n}") };
            (format!("{bad}{suffix}"), (good >= 0).then(|| format!("{good}{suffix}")), "integer out of range")
        }
        1 => {
            // Floats past the range.
            let (t, e) = g.choose(&[("", 309usize), (":fp64", 309), (":fp32", 39), (":fp32", 40), (":fp64?", 320)]);
            let d = 1 + g.below(9);
            (format!("{d}{}.0{t}", "0".repeat(e)), Some(format!("{d}{}.0{t}", "0".repeat(if e > 100 { 300 } else { 35 }))), "float out of range")
        }
        2 => {
            // Kinds that do not fit the type.
            let strict = ["i8", "i16", "i32", "i64", "fp32", "fp64", "boolean", "string", "date", "time", "timestamp", "binary", "uuid", "interval_year", "timestamp_tz"];
            let t = g.pick(&strict).to_string();
            let n = nul(g);
            let (v, ok): (String, &[&str]) = match g.usize(4) {
                0 => (g.below(100).to_string(), &["i8", "i16", "i32", "i64"]),
                1 => (format!("{}.5", g.below(100)), &["fp32", "fp64"]),
                2 => (g.pick(&["true", "false"]).to_string(), &["boolean"]),
                _ => ("'abc'".to_string(), &["string"]),
            };
            let good = format!("{v}:{}{n}", ok[g.usize(ok.len())]);
            let bad = if ok.contains(&t.as_str()) {
                format!("{v}:{}", g.pick(&["json", "list<i64>", "precisiontime<6>", "precisiontimestamp<6>", "precisiontimestamptz<6>", "interval_day<6>", "uuid", "binary", "point#2"]))
            } else {
                format!("{v}:{t}{n}")
            };
            (bad, Some(good), "kind does not fit the type")
        }
        3 => {
            // Dates that do not exist.
            let (y, m, d) = fresh_date(g);
            let y = 1700 + y.rem_euclid(500);
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            let len = |m: u32| match m {
                2 => 28 + leap as u32,
                4 | 6 | 9 | 11 => 30,
                _ => 31,
            };
            let d = d.min(len(m));
            let good = format!("{y:04}-{m:02}-{d:02}");
            let bad = match g.usize(7) {
                0 => format!("{y:04}-{m:02}-{:02}", len(m) + 1),
                1 => format!("{y:04}-13-{d:02}"),
                2 => format!("{y:04}-00-{d:02}"),
                3 => format!("{y:04}-{m:02}-00"),
                4 => {
                    let y = if leap { y + 1 } else { y };
                    format!("{y:04}-02-29")
                }
                5 => format!("{y:04}-{m:02}"),
                _ => g.pick(&["", "today", "2024-1x-01", "20240101", "2024-01-01T00:00:00", "2024-01-01 ", "01-01-2024-", "2024--01-01", "2024-01-01x", "12:00:00"]).to_string(),
            };
            // A year after the leap year might be a leap year only by the
            // century rule, never for y + 1 of a leap year.
            if g.bool() {
                let n = nul(g);
                (q(bad, &format!("date{n}")), Some(q(good, &format!("date{n}"))), "impossible date")
            } else {
                let t = ts_type(g);
                (q(format!("{bad}T01:02:03"), &t), Some(q(format!("{good}T01:02:03"), &t)), "impossible date")
            }
        }
        4 => {
            // Times that do not exist.
            let good = format!("{:02}:{:02}:{:02}", g.below(24), g.below(60), g.below(60));
            let bad = match g.usize(6) {
                0 => format!("{}:{:02}:{:02}", 24 + g.below(76), g.below(60), g.below(60)),
                1 => format!("{:02}:{}:{:02}", g.below(24), 60 + g.below(40), g.below(60)),
                2 => format!("{:02}:{:02}:{}", g.below(24), g.below(60), 60 + g.below(40)),
                3 => format!("-{good}"),
                4 => format!("{good}."),
                _ => g.pick(&["", "noon", "12", "12:00:00 AM", "12:00:00Z", "12:00:00+01:00", "12.00.00", "2024-01-01", "12:00:00 ", "1e1:00:00", "::", "12:00:60", "23:59:60"]).to_string(),
            };
            if g.bool() {
                let t = g.pick(&["time", "time?", "precisiontime<0>", "precisiontime?<3>", "precisiontime<6>", "precisiontime<9>"]).to_string();
                (q(bad, &t), Some(q(good, &t)), "impossible time")
            } else {
                let t = ts_type(g);
                (q(format!("2024-02-03T{bad}"), &t), Some(q(format!("2024-02-03T{good}"), &t)), "impossible time")
            }
        }
        5 => {
            // Fractions finer than the precision.
            let (t, p) = g.choose(&[
                ("time", 6usize), ("timestamp", 6), ("precisiontime<0>", 0), ("precisiontime<3>", 3), ("precisiontime?<6>", 6), ("precisiontimestamp<0>", 0), ("precisiontimestamp<3>", 3),
                ("precisiontimestamp<6>", 6), ("precisiontimestamp<9>", 9), ("precisiontimestamptz<0>", 0), ("precisiontimestamptz?<3>", 3), ("precisiontimestamptz<9>", 9), ("precisiontime<9>", 9),
                ("timestamp?", 6),
            ]);
            let digits: String = (0..p).map(|_| (b'0' + g.below(10) as u8) as char).collect();
            let extra: String = format!("{}{}", "0".repeat(g.usize(3)), 1 + g.below(9));
            let date = match g.usize(3) {
                _ if !t.contains("timestamp") => String::new(),
                0 => "2023-05-06T".to_string(),
                1 => "1969-12-31T".to_string(),
                _ => format!("{}T", render::date_text(g.below(150_000) as i64 - 90_000, "-")),
            };
            let dot = if p == 0 { "" } else { "." };
            let good = q(format!("{date}01:02:03{dot}{digits}"), t);
            (q(format!("{date}01:02:03.{digits}{extra}"), t), Some(good), "fraction finer than the precision")
        }
        6 => {
            // Intervals.
            let p = g.choose(&[0, 3, 6, 9, 12]);
            let unit = |p: i32| match p {
                3 => "ms",
                6 => "us",
                9 => "ns",
                12 => "ps",
                _ => "s",
            };
            let (a, b, s) = (g.below(50), g.below(50), 1 + g.below(50));
            let good = if p == 0 { format!("{a}d {b}s") } else { format!("{a}d {b}s {s}{}", unit(p)) };
            let other = loop {
                let o = g.choose(&[3, 6, 9, 12]);
                if o != p {
                    break o;
                }
                if p != 3 {
                    break 3;
                }
                break 6;
            };
            let bad = match g.usize(12) {
                0 => format!("{a}d {b}s {s}{}", unit(other)),
                1 => format!("{b}s {a}d"),
                2 => format!("{a}d  {b}s"),
                3 => format!(" {a}d"),
                4 => format!("{a}d "),
                5 => format!("{a}d {b}d"),
                6 => format!("{}d", i32::MAX as i64 + s as i64),
                7 => format!("{}s", i32::MIN as i64 - s as i64),
                8 => format!("{}{}", if p == 0 { i32::MAX as i128 + 1 } else { i64::MAX as i128 + s as i128 }, unit(p)),
                9 => format!("{a}d{b}s"),
                10 => format!("+{a}d"),
                _ => g.pick(&["", "5", "d", "5D", "5 d", "1h", "5m", "1.5s", "5d,3s", "--5d", "5d 3s 1", "P5D", "5d 3S"]).to_string(),
            };
            let n = nul(g);
            let t = format!("interval_day{n}<{p}>");
            (q(bad, &t), Some(q(good, &t)), "malformed interval")
        }
        7 => {
            // Precisions a literal cannot have.
            let n = nul(g);
            let bad = g.choose(&[1, 2, 4, 5, 7, 8, 10, 11, 12, 13, 15, -1, 100, 2147483647]);
            let ok = g.choose(&[0, 3, 6, 9]);
            let (v, t) = g.choose(&[("2024-01-01T01:02:03", "precisiontimestamp"), ("2024-01-01T01:02:03", "precisiontimestamptz"), ("01:02:03", "precisiontime"), ("5d", "interval_day")]);
            let bad = if t == "interval_day" && bad == 12 { 11 } else { bad };
            (format!("'{v}':{t}{n}<{bad}>"), Some(format!("'{v}':{t}{n}<{ok}>")), "precision without a unit")
        }
        8 => {
            // A type that needs a precision without one.
            let (v, t) = g.choose(&[("2024-01-01T01:02:03", "precisiontimestamp"), ("2024-01-01T01:02:03", "precisiontimestamptz"), ("01:02:03", "precisiontime"), ("5d", "interval_day")]);
            let bad = g.pick(&["", "<>", "<x>", "<6", "<6,6>", "<'6'>", "<6.0>"]);
            (format!("'{v}':{t}{bad}"), Some(format!("'{v}':{t}<6>")), "precision malformed")
        }
        9 => (g.pick(&["null:", "null:nosuch", "null:i64??", "null:list", "null :i64"]).to_string(), Some("null:i64?".into()), "malformed null"),
        10 => {
            // Not a number.
            let a = g.below(100);
            let bad = match g.usize(10) {
                0 => format!("{a}."),
                1 => format!(".{a}"),
                2 => format!("{a}e5"),
                3 => format!("+{a}"),
                4 => format!("{a}.{a}.{a}"),
                5 => format!("--{a}"),
                6 => format!("- {a}"),
                7 => format!("0x{a}"),
                8 => format!("{a}_000"),
                _ => format!("{a}.5e3"),
            };
            (bad, Some(format!("{a}.25")), "malformed number")
        }
        11 => (
            g.pick(&["True", "FALSE", "tru", "truefalse", "nul", "NULL:i64", "NaN", "inf", "-inf", "nan:fp64", "inf:fp64", "Infinity"]).to_string(),
            Some("true".into()),
            "malformed word",
        ),
        12 => {
            let s = g.pick(&["a", "", "x y", "1"]);
            (
                match g.usize(6) {
                    0 => format!("'{s}"),
                    1 => format!("{s}'"),
                    2 => format!("'{s}'x"),
                    3 => format!("'{s}' '{s}'"),
                    4 => format!("'{s}\\'"),
                    _ => format!("'{s}'{s}'"),
                },
                Some(format!("'{s}'")),
                "malformed string",
            )
        }
        _ => {
            // A value and a type that only look alike, or a value the type
            // cannot hold.
            let s = g.pick(&[
                "'0054-06-20T01:02:03':precisiontimestamptz<9>", "'2262-04-12T00:00:00':precisiontimestamp<9>", "'2262-04-11T23:47:16.854775808':precisiontimestamp<9>",
                "'1677-09-21T00:12:43.145224191':precisiontimestamptz?<9>", "'1600-01-01T00:00:00':precisiontimestamp?<9>",
                "'2024-01-01':time", "'12:00:00':date", "'2024-01-01':timestamp", "'12:00:00':timestamp", "'5d':date", "'5d':time", "'2024-01-01T00:00:00':date", "'2024-01-01T00:00:00':time",
                "'1':i64", "'1.5':fp64", "'true':boolean", "'null':i64", "1:boolean", "0:boolean", "1:date", "19000:date", "1:string", "true:string", "true:i64", "1.0:i64", "1:fp64", "1:fp32", "1:time",
                "1:timestamp", "'a':interval_day<6>", "'2024-01-01T00:00:00Z':timestamp", "'2024-01-01T00:00:00+00:00':precisiontimestamptz<6>", "'2024-01-01T00:00':timestamp", "1:interval_day<0>",
                "'00000000-0000-0000-0000-000000000000':uuid", "'1y':interval_year", "'ab':binary", "'2024-01-01T00:00:00':timestamp_tz", "1.5:precisiontime<6>", "true:fp64", "'x':list<string>",
            ]);
            (s.to_string(), None, "kind does not fit the type")
        }
    }
}

/// A written value of some kind: its text, and whether it is quoted.
fn written_value(g: &mut Gen) -> (String, bool, &'static str) {
    let two = |g: &mut Gen, n: u64| format!("{:02}", g.below(n));
    let day = |g: &mut Gen| {
        let sep = g.pick(&["-", "-", "/"]);
        render::date_text(any_day(g).clamp(-700_000, 2_900_000), sep)
    };
    let clock = |g: &mut Gen| {
        let n = g.weighted(&[3, 1, 1, 2, 1, 1, 2, 1, 1, 2, 1]);
        let frac: String = (0..n).map(|_| (b'0' + g.below(10) as u8) as char).collect();
        format!("{}:{}:{}{}{frac}", two(g, 24), two(g, 60), two(g, 60), if n > 0 { "." } else { "" })
    };
    match g.weighted(&[3, 3, 1, 3, 3, 5, 4, 2, 1]) {
        0 => (g.i64().to_string(), false, "integer"),
        1 => (decimal(g), false, "decimal"),
        2 => (g.pick(&["true", "false"]).to_string(), false, "boolean"),
        3 => (day(g), true, "date"),
        4 => (clock(g), true, "time"),
        5 => (format!("{}{}{}", day(g), g.pick(&["T", "T", " "]), clock(g)), true, "timestamp"),
        6 => {
            let mut t = vec![];
            for u in ["d", "s", g.pick(&["ms", "us", "ns", "ps"])] {
                if g.chance(3, 5) {
                    let n = if g.chance(1, 4) { g.i64() } else { g.below(200) as i64 - 100 };
                    t.push(format!("{n}{u}"));
                }
            }
            (t.join(" "), true, "interval")
        }
        7 => (g.pick(&["abc", "", "null", "true", "0"]).to_string(), true, "string"),
        _ => (g.pick(&["abc", "nan", "inf", "True", "nul", "_", "e1", "infinity"]).to_string(), false, "word"),
    }
}

/// A type whose literals are written like the value, or any type.
fn type_for(g: &mut Gen, kind: &str, env: &Env) -> substrait::proto::Type {
    let any = |g: &mut Gen| model::typ(g, &Cfg { unspecified: false, ..Cfg::default() }, env, 2);
    if g.chance(2, 5) {
        return any(g);
    }
    let n = if g.chance(1, 3) { model::NUL } else { model::REQ };
    let precise = |g: &mut Gen, names: &[usize]| -> substrait::proto::Type {
        use substrait::proto::r#type as ty;
        let precision = g.choose(&[0, 3, 6, 9, 12]);
        let (nullability, type_variation_reference) = (n, 0);
        substrait::proto::Type {
            kind: Some(match names[g.usize(names.len())] {
                0 => ty::Kind::PrecisionTimestamp(ty::PrecisionTimestamp { precision, nullability, type_variation_reference }),
                1 => ty::Kind::PrecisionTimestampTz(ty::PrecisionTimestampTz { precision, nullability, type_variation_reference }),
                2 => ty::Kind::PrecisionTime(ty::PrecisionTime { precision, nullability, type_variation_reference }),
                _ => ty::Kind::IntervalDay(ty::IntervalDay { precision: Some(precision), nullability, type_variation_reference }),
            }),
        }
    };
    match kind {
        "integer" => model::simple_type(g.choose(&[0, 3, 4, 5]), n),
        "decimal" => model::simple_type(g.choose(&[6, 7]), n),
        "boolean" => model::simple_type(2, n),
        "date" => model::simple_type(11, n),
        "time" if g.bool() => model::simple_type(12, n),
        "time" => precise(g, &[2]),
        "timestamp" if g.chance(1, 3) => model::simple_type(9, n),
        "timestamp" => precise(g, &[0, 1]),
        "interval" => precise(g, &[3]),
        _ => any(g),
    }
}

/// Written values, edited at random, read against any type: rejected when they
/// denote nothing of that type, and otherwise never read as something else.
fn p08_edited(c: &mut Case) -> R {
    let p = place(&mut c.g, slot_env());
    let g = &mut c.g;
    let (mut v, quoted, kind) = written_value(g);
    let edits = g.weighted(&[3, 4, 2, 1]);
    for _ in 0..edits {
        let mut cs: Vec<char> = v.chars().collect();
        let i = g.usize(cs.len() + 1);
        let new = if quoted {
            g.choose(&['0', '1', '5', '9', '-', '/', ':', '.', 'T', ' ', '+', 'Z', 't', 'd', 's', 'm', 'u', '_', ',', 'e', '3', '\u{663}', '\u{2212}', '\u{a0}', '\t'])
        } else {
            g.choose(&['0', '1', '5', '9', '-', '.', '+', '_', 'e', 'E', 'x', '3', 'f'])
        };
        match g.usize(6) {
            // A part dropped, or twice.
            k @ (4 | 5) if quoted => {
                let at: Vec<usize> = (0..cs.len()).filter(|&i| ":.T-/ dsm".contains(cs[i])).collect();
                if !at.is_empty() {
                    let i = at[g.usize(at.len())];
                    let j = at.iter().copied().find(|&j| j > i).unwrap_or(cs.len());
                    let part: Vec<char> = cs[i..j].to_vec();
                    if k == 4 {
                        cs.drain(i..j);
                    } else {
                        cs.splice(j..j, part);
                    }
                }
            }
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 if i < cs.len() => cs[i] = new,
            2 if i + 1 < cs.len() => cs.swap(i, i + 1),
            _ => cs.insert(i, new),
        }
        v = cs.into_iter().collect();
    }
    if !quoted && (v.is_empty() || v == "_" || v == "null") {
        v = "1.".into();
    }
    let env = slot_env();
    let t = type_for(g, kind, &env);
    let want = reading::denotes(if quoted { Token::Quoted(&v) } else { Token::Bare(&v) }, &t);
    let holder = p.expr(lit_expr(literal_of(LiteralType::I64(0), false)));
    let Some(holder) = holder else { return Ok(()) };
    let mut w = W::new(&holder, None);
    let tok = if quoted { w.str_lit(&v) } else { v.clone() };
    let lit = format!("{tok}:{}", w.typ(&t));
    let text = p.expr_with(&lit);
    c.show(&text);
    c.label(EXPR_SLOTS[p.slot]);
    c.label(format!("{kind} edited, {}", if want.is_some() { "denotes a value" } else { "denotes nothing" }));
    c.nontrivial = want.is_none() || edits > 0;
    let slot = EXPR_SLOTS[p.slot];
    if slot == "extension column" && v.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !quoted {
        return Ok(());
    }
    match (want, parse(&text)?) {
        (None, Ok(got)) => {
            let (out, _) = format(&got)?;
            fail!(format!("{kind} that denotes nothing accepted"), "{lit}\n{text}\nread as\n{out}")
        }
        (Some(lt), Ok(got)) => {
            let nullable = render_nullable(&t);
            let l = match &lt {
                LiteralType::Null(_) => return Ok(()),
                _ => literal_of(lt, nullable),
            };
            let e = lit_expr(l);
            if in_extension(&p) && ext::plain(&e).is_some() {
                return Ok(());
            }
            match p.expr(e) {
                Some(want) => same(&want, &got, "the literal reads as another value", &text),
                None => Ok(()),
            }
        }
        (_, Err(_)) => Ok(()),
    }
}

fn render_nullable(t: &substrait::proto::Type) -> bool {
    t.kind.as_ref().and_then(render::type_name).is_some_and(|(_, n, _)| n == model::NUL)
}

fn p08(c: &mut Case) -> R {
    if c.g.chance(2, 5) {
        return p08_edited(c);
    }
    let mut p = place(&mut c.g, slot_env());
    let (bad, good, kind) = bad_literal(&mut c.g);
    c.label(kind);
    if kind == "malformed null" && in_extension(&p) && bad == "null" {
        p.slot = 0;
    }
    c.label(EXPR_SLOTS[p.slot]);
    if c.g.chance(1, 20) && !in_extension(&p) {
        let t = p.expr_with("null");
        c.show(&t);
        if let Ok(got) = parse(&t)? {
            fail!("untyped null accepted", "{t}\n{got:?}");
        }
    }
    let text = p.expr_with(&bad);
    c.show(&text);
    c.nontrivial = true;
    // The place accepts a value of the kind.
    if let Some(g) = good {
        let slot = EXPR_SLOTS[p.slot];
        let column = slot == "extension column" && (g.starts_with("null") || g.starts_with("true") || g.starts_with("false"));
        if !column {
            must_parse(&p.expr_with(&g))?;
        }
    }
    if EXPR_SLOTS[p.slot] == "extension column" && bad.starts_with(|c: char| c.is_ascii_alphabetic()) {
        // Reads as a named column there.
        return Ok(());
    }
    if let Ok(got) = parse(&text)? {
        let (out, _) = format(&got)?;
        fail!(format!("{kind} accepted"), "{bad}\n{text}\nread as\n{out}");
    }
    Ok(())
}

pub const P08: Prop = Prop {
    id: "P08",
    quick: 200_000,
    thorough: 3_000_000,
    f: p08,
    rule: "a literal that denotes no value of its type stands in one of 23 positions whose neighbourhood parses with a valid literal",
    assumptions: &[],
    known: &[],
};

// ---------------------------------------------------------------- P09

fn bad_type(g: &mut Gen, good: &str) -> String {
    match g.usize(9) {
        0 => g.pick(&["nosuch", "i128", "int", "i65", "fp16", "str", "bool", "u!nosuch", "Json2", "jso", "jsonn", "point_", "i8y", "x", "precisiontimes", "lists<i64>", "dat"]).to_string(),
        1 => g.pick(&["map<i64, i64>", "struct<i64>", "decimal<10, 2>", "varchar<10>", "fixedchar<3>", "fixedbinary<2>", "func<i64>", "interval_compound<6>", "struct<>", "varchar", "decimal"]).to_string(),
        2 => {
            let t = g.pick(&["precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day"]);
            let p = g.pick(&["", "<>", "<13>", "<-1>", "<99>", "<x>", "<6,6>", "<6", "6>", "<i64>", "<'6'>", "<6.0>", "<+6>", "<4294967302>", "<99999999999999999999>", "<6>>"]);
            format!("{t}{p}")
        }
        3 => g.pick(&["list", "list<>", "list<i64", "list<i64,i64>", "list<6>", "list<nosuch>", "list<i64>>", "list i64", "list<i64, >", "list<,>", "listi64"]).to_string(),
        4 if g.chance(1, 3) => g.pick(&["JSON", "Json#1", "JSON#1", "Point#2", "POINT#3", "jsoN?", "I8x", "i8X#7", "LIST<JSON>", "u!JSON#1", "I64", "Fp32", "STRING", "Boolean?"]).to_string(),
        4 => g.pick(&["json#2", "json#99", "point", "point#1", "json#0", "point#7", "json#-1", "json#4294967297", "json##1", "u!point", "json#x", "point#9"]).to_string(),
        5 => g.pick(&["json<6>", "json<i64", "json<,>", "json<i64,>", "json<i64 i64>", "json<nosuch>", "json<i64,,i64>", "json<list>", "json<point>", "json<json#2>", "json<'a'>"]).to_string(),
        6 => format!("{good}{}", g.pick(&["?", "??", "<", ">", "<i64>", "!", "#", "x", "*", "?<6>", " i64", "::i64"])),
        7 => format!("{}{good}", g.pick(&["?", "<", "!", "#1", "&", "$", "u!u!", "'", "::"])),
 _ => g.pick(&["()", "?", "u!", "#1", "'i64'", "5", "_", "<>", "i64.i64", "i64[]"]).to_string(),
    }
}

fn p09(c: &mut Case) -> R {
    let s = c.g.usize(TYPE_SLOTS.len());
    let p = Place::new(&mut c.g, slot_env(), s);
    c.label(TYPE_SLOTS[s]);
    let mut env = slot_env();
    env.types.retain(|d| d.name != TYPE_HOLE);
    let depth = c.g.range(0, 4);
    let unspecified = c.g.chance(1, 6);
    let t = model::typ(&mut c.g, &Cfg { unspecified, ..Cfg::default() }, &env, depth);
    let plan = p.typ(t.clone());
    c.nontrivial = true;
    if c.g.chance(1, 3) {
        c.label("malformed");
        let good = W::new(&plan, None).typ(&t);
        let bad = bad_type(&mut c.g, &good);
        // Some suffixes complete the type to another valid one.
        let marker = TYPE_SLOTS[s].contains("cast") && is_type(bad.trim_start_matches(['?', '!']), &env);
        if marker || is_type(&bad, &env) {
            c.label("not malformed after all");
            return Ok(());
        }
        let text = p.type_with(&bad);
        c.show(&text);
        must_parse(&p.type_with(&good))?;
        if let Ok(got) = parse(&text)? {
            let (out, _) = format(&got)?;
            fail!("malformed type accepted", "{bad:?}\n{text}\nread as\n{out}");
        }
        return Ok(());
    }
    let want = render::canonical(&plan);
    c.show(&want);
    // A nullability left open is written as `⁉`, and reported.
    let (got, errors) = format(&plan)?;
    let open = W::new(&plan, None).typ(&t).contains('⁉');
    ensure!(open == !errors.is_empty(), "problems reported for a type without any, or the reverse", "{errors:?}\n{got}");
    ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
    same_plan(&plan, &must_parse(&got)?, "type changed by a round trip", &got)?;
    // Older forms of the same type are written alike.
    let other = older(&t);
    if other != t {
        c.label("older form");
        let (text, errs) = format(&p.typ(other))?;
        ensure!(open == !errs.is_empty(), "problems reported for a type without any, or the reverse", "{errs:?}\n{text}");
        ensure!(text == want, "an older form of a type is written as another type", "{}", text_diff(&want, &text));
    }
    let spelled = W::new(&plan, Some(&mut c.g)).typ(&t);
    let text = p.type_with(&spelled);
    same_plan(&plan, &must_parse(&text)?, "spelling denotes another type", &text)?;
    // Anchors always written.
    let o = OutputOptions { show_simple_extension_anchors: Visibility::Always, ..OutputOptions::default() };
    let (full, _) = format_opts(&plan, &o)?;
    let mut w = W::new(&plan, None);
    w.anchors = Show::Always;
    let want = w.plan(&plan);
    ensure!(full == want, "text with anchors differs from the documented form", "{}", text_diff(&want, &full));
    same_plan(&plan, &must_parse(&full)?, "type changed by a round trip with anchors", &full)
}

/// The same type with a default left out, or in a deprecated form.
fn older(t: &substrait::proto::Type) -> substrait::proto::Type {
    let mut t = t.clone();
    match t.kind.as_mut() {
        Some(substrait::proto::r#type::Kind::IntervalDay(i)) if i.precision == Some(6) => i.precision = None,
        Some(substrait::proto::r#type::Kind::List(l)) => l.r#type.iter_mut().for_each(|e| **e = older(e)),
        Some(substrait::proto::r#type::Kind::UserDefined(u)) if u.nullability == model::REQ && u.type_parameters.is_empty() =>
        {
            #[allow(deprecated)]
            {
                t.kind = Some(substrait::proto::r#type::Kind::UserDefinedTypeReference(u.type_reference))
            }
        }
        _ => {}
    }
    t
}

/// Whether the text is a type, by an independent reading of the grammar.
fn is_type(s: &str, env: &Env) -> bool {
    fn split(s: &str) -> Vec<&str> {
        let (mut depth, mut at, mut v) = (0, 0, vec![]);
        for (i, c) in s.char_indices() {
            match c {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    v.push(&s[at..i]);
                    at = i + 1;
                }
                _ => {}
            }
        }
        v.push(&s[at..]);
        v
    }
    let s = s.trim_start_matches(' ');
    let (head, params) = match s.find('<') {
        Some(i) if s.ends_with('>') => (&s[..i], Some(&s[i + 1..s.len() - 1])),
        Some(_) => return false,
        None => (s, None),
    };
    let head = head.strip_suffix('?').or(head.strip_suffix('⁉')).unwrap_or(head);
    let simple = [
        "boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid",
    ];
    if simple.contains(&head) {
        return params.is_none();
    }
    let lower = head.to_lowercase();
    if ["precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day"].contains(&lower.as_str()) {
        return params.is_some_and(|p| p.parse::<u32>().is_ok_and(|v| v <= 12) && p.bytes().all(|b| b.is_ascii_digit()));
    }
    if lower == "list" {
        return params.is_some_and(|p| split(p).len() == 1 && is_type(p, env));
    }
    let head = head.strip_prefix("u!").unwrap_or(head);
    let (head, _urn) = match head.split_once('@') {
        Some((h, u)) => (h, Some(u)),
        None => (head, None),
    };
    let found = match head.split_once('#') {
        Some((n, a)) => env.types.iter().any(|d| d.name == n && a == d.anchor.to_string()),
        None => env.types.iter().filter(|d| d.name == head).count() == 1,
    };
    found && params.is_none_or(|p| p.trim().is_empty() || split(p).into_iter().all(|x| is_type(x, env)))
}

pub const P09: Prop = Prop {
    id: "P09",
    quick: 200_000,
    thorough: 3_000_000,
    f: p09,
    rule: "a generated type (to depth 4) or a malformed type text stands in one of 12 positions",
    assumptions: &["user-defined types are not named like built-in types"],
    known: &[],
};

// ---------------------------------------------------------------- P10

thread_local! {
    static DYN_NAME: std::cell::Cell<&'static str> = const { std::cell::Cell::new("Dyn") };
    static DYN_ARG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// An extension whose name, and the one argument name it knows, are chosen by
/// the test.
#[derive(Clone, PartialEq, prost::Message)]
pub struct Dyn {
    #[prost(string, tag = "1")]
    pub arg: String,
    #[prost(string, tag = "2")]
    pub val: String,
    #[prost(bool, tag = "3")]
    pub has_arg: bool,
}

impl prost::Name for Dyn {
    const PACKAGE: &'static str = "sxcheck";
    const NAME: &'static str = "Dyn";
}

impl Explainable for Dyn {
    fn name() -> &'static str {
        DYN_NAME.with(|n| n.get())
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let arg = DYN_ARG.with(|a| a.borrow().clone());
        let v: Option<String> = args.get_named(&arg)?;
        Ok(Dyn { has_arg: v.is_some(), arg: if v.is_some() { arg } else { String::new() }, val: v.unwrap_or_default() })
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        if self.has_arg {
            a.insert(self.arg.clone(), self.val.clone());
        }
        Ok(a)
    }
}

fn dyn_any(d: &Dyn) -> pbjson_types::Any {
    pbjson_types::Any { type_url: <Dyn as prost::Name>::type_url(), value: prost::Message::encode_to_vec(d).into() }
}

fn tricky(g: &mut Gen) -> String {
    match g.weighted(&[3, 3, 3, 2, 1, 2, 3]) {
        // Short runs of the same few characters, as separators and quotes are
        // doubled by some formats.
        6 => {
            let n = g.range(1, 4);
            (0..n)
                .map(|_| {
                    let ch = if g.chance(1, 4) { 'a' } else { (0x20 + g.below(0x5f) as u8) as char };
                    ch.to_string().repeat(g.range(1, 3))
                })
                .collect()
        }
        0 => model::string(g),
        1 => model::name(g),
        // An identifier with one foreign character.
        2 => {
            let mut s = String::from("col_1");
            let at = g.usize(s.len() + 1);
            let max = g.choose(&[0x80u32, 0x80, 0x250, 0x2100, 0x11_0000]);
            s.insert(at, char::from_u32(g.below(max as u64) as u32).unwrap_or('\u{fffd}'));
            s
        }
        3 => char::from_u32(g.below(0x3ff) as u32).unwrap().to_string(),
        4 => {
            let n = g.range(100, 3000);
            let part = g.pick(model::STRING_PARTS);
            part.repeat(n / part.len().max(1))
        }
        // What would be structure outside a string.
        _ => g
            .pick(&[
                "x\n  Read[t => a:i64]", "a:i64, b", "a => b", "t]", "\"", "\\", "\\\"", "'", "\"]\n=== Plan\nRead[t => a:i64]", "a\r\nb", "=== Plan", "+ Enh:EnhOne[]", "- (1)", "// c", "\u{2028}x", "a.b",
                "null", "true", "\\n", "\\u{41}", "_", "__a", "A", "z9_", "9z", "a\u{0}", "\u{85}", " a", "a ", "\t", "&x", "$0",
            ])
            .to_string(),
    }
}

const NAME_POSITIONS: &[&str] = &[
    "column", "table column", "extension table column", "table", "table part", "output name", "extension output column", "argument name", "relation extension name", "enhancement name", "optimization name",
    "table extension name", "string literal", "string argument", "string in tuple",
];

fn named_plan(pos: usize, s: &str, p: &Place, more: &[String]) -> Plan {
    use crate::ext::{self, Col, NamedVal, Payload, V, Val, ValList};
    use substrait::proto::extensions::AdvancedExtension;
    use substrait::proto::plan_rel::RelType as PlanRelType;
    use substrait::proto::read_rel::{self, ReadType};
    use substrait::proto::rel::RelType;
    use substrait::proto::{ExtensionLeafRel, FilterRel, NamedStruct, PlanRel, ReadRel, RelRoot};
    let kind = NAME_POSITIONS[pos];
    if kind == "string literal" {
        return p.expr(super::slots::string_lit(s)).unwrap();
    }
    let tys = |n: usize| (0..n).map(|i| model::simple_type(i % 5, model::REQ)).collect::<Vec<_>>();
    let schema = |names: Vec<String>| NamedStruct {
        r#struct: Some(substrait::proto::r#type::Struct { types: tys(names.len()), type_variation_reference: 0, nullability: model::REQ }),
        names,
    };
    let cols = |own: bool| -> Vec<String> {
        let mut v = vec!["c0".to_string()];
        if own {
            v.push(s.to_string());
        }
        v.extend(more.iter().cloned());
        v
    };
    let read = |names: Vec<String>, rt: ReadType| {
        model::rel_of(RelType::Read(Box::new(ReadRel { common: model::direct(), base_schema: Some(schema(names)), read_type: Some(rt), ..Default::default() })))
    };
    let named = |v: Vec<&str>| ReadType::NamedTable(read_rel::NamedTable { names: v.into_iter().map(String::from).collect(), advanced_extension: None });
    let exttab = |a| ReadType::ExtensionTable(read_rel::ExtensionTable { detail: Some(a) });
    let leaf = |a| model::rel_of(RelType::ExtensionLeaf(ExtensionLeafRel { common: model::direct(), detail: Some(a) }));
    let filter = |adv: Option<AdvancedExtension>| {
        model::rel_of(RelType::Filter(Box::new(FilterRel {
            common: model::direct(),
            condition: Some(Box::new(model::field_expr(0))),
            input: Some(Box::new(read(vec!["c0".into()], named(vec!["t"])))),
            advanced_extension: adv,
        })))
    };
    let val = |v: V| Val { v: Some(v) };
    let r = match kind {
        "column" => read(cols(true), named(vec!["t"])),
        "table column" => read(cols(true), ReadType::VirtualTable(read_rel::VirtualTable::default())),
        "extension table column" => read(cols(true), exttab(ext::any("TabA", &Payload::default()))),
        "table" => read(cols(false), named(vec![s])),
        "table part" => read(cols(false), named(vec!["db", s, "t"])),
        "output name" => filter(None),
        "extension output column" => leaf(ext::any(
            "RelA",
            &Payload { cols: vec![Col { name: s.into(), ty: Some(model::simple_type(0, model::REQ)), expr: None }], ..Default::default() },
        )),
        "argument name" => leaf(dyn_any(&Dyn { arg: s.into(), val: "v".into(), has_arg: true })),
        "relation extension name" => leaf(dyn_any(&Dyn::default())),
        "enhancement name" => filter(Some(AdvancedExtension { enhancement: Some(dyn_any(&Dyn::default())), optimization: vec![] })),
        "optimization name" => filter(Some(AdvancedExtension { enhancement: None, optimization: vec![dyn_any(&Dyn::default())] })),
        "table extension name" => read(cols(false), exttab(dyn_any(&Dyn::default()))),
        "string argument" => leaf(ext::any("RelA", &Payload { positional: vec![val(V::Int(1)), val(V::Str(s.into()))], named: vec![NamedVal { name: "a".into(), val: Some(val(V::Bool(true))) }], cols: vec![] })),
        _ => leaf(ext::any(
            "RelA",
            &Payload { named: vec![NamedVal { name: "a".into(), val: Some(val(V::Tuple(ValList { items: vec![val(V::Str(s.into())), val(V::Null(true))] }))) }], ..Default::default() },
        )),
    };
    let names = if kind == "output name" { vec!["o".into(), s.to_string()] } else { vec!["o".to_string()] };
    let (extension_urns, extensions) = p.env.protos();
    Plan { extension_urns, extensions, relations: vec![PlanRel { rel_type: Some(PlanRelType::Root(RelRoot { input: Some(r), names })) }], ..Default::default() }
}

/// The string a quoted text stands for.
fn unquote(t: &str, q: char) -> Option<String> {
    let inner = t.strip_prefix(q)?.strip_suffix(q)?;
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == q {
            return None;
        }
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '0' => out.push('\0'),
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut n = 0u32;
                loop {
                    match it.next()? {
                        '}' => break,
                        d => n = n * 16 + d.to_digit(16)?,
                    }
                }
                out.push(char::from_u32(n)?);
            }
            c => out.push(c),
        }
    }
    Some(out)
}

fn p10(c: &mut Case) -> R {
    let pos = c.g.usize(NAME_POSITIONS.len());
    let kind = NAME_POSITIONS[pos];
    let p = place(&mut c.g, slot_env());
    let s = tricky(&mut c.g);
    let more: Vec<String> = (0..c.g.usize(3)).map(|_| tricky(&mut c.g)).collect();
    c.label(kind);
    c.label(if render::is_identifier(&s) { "identifier" } else { "needs quotes" });
    c.show(&format!("{kind}: {s:?}"));
    c.nontrivial = !render::is_identifier(&s);
    const SKELETON: &str = "zzname";
    let is_ext_name = kind.ends_with("extension name") || kind == "enhancement name" || kind == "optimization name";
    // The extension is called `s`, and its argument is.
    let run = |name: &str, f: &mut dyn FnMut(&ExtensionRegistry) -> Result<(String, Plan), Fail>| -> Result<(String, Plan), Fail> {
        let r = sut("register", || {
            let mut r = ext::with_registry(|r| r.clone());
            DYN_NAME.with(|n| n.set(if is_ext_name { Box::leak(name.to_string().into_boxed_str()) } else { "Dyn" }));
            DYN_ARG.with(|a| *a.borrow_mut() = name.to_string());
            let ok = if kind == "enhancement name" {
                r.register_enhancement::<Dyn>().is_ok()
            } else if kind == "optimization name" {
                r.register_optimization::<Dyn>().is_ok()
            } else if kind == "table extension name" {
                r.register_extension_table::<Dyn>().is_ok()
            } else {
                r.register_relation::<Dyn>().is_ok()
            };
            ok.then_some(r)
        })?;
        match r {
            Some(r) => f(&r),
            None => Err(Fail::new("registration refused", format!("{name:?}"))),
        }
    };
    // Placeholders of other positions keep their place in the skeleton.
    let skeleton_plan = named_plan(pos, SKELETON, &p, &more);
    let plan = named_plan(pos, &s, &p, &more);
    let o = OutputOptions::default();
    let (skeleton, _) = run(SKELETON, &mut |r| {
        let (t, e) = sut("format", || substrait_explain::format_with_registry(&skeleton_plan, &o, r))?;
        ensure!(e.is_empty(), "problems with a plain name", "{e:?}\n{t}");
        Ok((t, Plan::default()))
    })?;
    let quote = if kind.starts_with("string") { '\'' } else { '"' };
    let hole = if quote == '\'' { format!("'{SKELETON}'") } else { SKELETON.to_string() };
    let parts: Vec<&str> = skeleton.split(hole.as_str()).collect();
    ensure!(parts.len() >= 2, "name not written", "{skeleton}");
    let twice = parts.len() > 2;
    let (text, back) = run(&s, &mut |r| {
        let (t, e) = sut("format", || substrait_explain::format_with_registry(&plan, &o, r))?;
        ensure!(e.is_empty(), "problems with a name", "{e:?}\n{t}");
        let back = match sut("parse", || parse_with(&t, r))? {
            Ok(p) => p,
            Err(e) => fail!("formatted text rejected", "{s:?}: {e}\n{t}"),
        };
        Ok((t, back))
    })?;
    c.show(&text);
    same_plan(&plan, &back, "string changed by a round trip", &text)?;
    ensure!(text.matches('\n').count() == skeleton.matches('\n').count(), "a string broke its line", "{s:?}\n{text}");
    ensure!(!text.contains('\r'), "a string wrote a line end", "{s:?}\n{text:?}");
    if !twice {
        let Some(mid) = text.strip_prefix(parts[0]).and_then(|t| t.strip_suffix(parts[1])) else {
            fail!("a string changed the text around it", "{s:?}\n{skeleton}\n{text}");
        };
        if quote == '"' && render::is_identifier(&s) {
            ensure!(mid == s, "a plain name is not written plainly", "{s:?} as {mid}");
        } else {
            let u = unquote(mid, quote);
            ensure!(u.as_deref() == Some(s.as_str()), "a string is not written quoted and escaped", "{s:?} as {mid}, which reads {u:?}");
        }
    }
    // Any other spelling reads the same.
    let spelled = {
        let mut w = W::new(&plan, Some(&mut c.g));
        if quote == '"' { w.name(&s) } else { w.str_lit(&s) }
    };
    let text = parts.join(&spelled);
    let (_, back) = run(&s, &mut |r| match sut("parse", || parse_with(&text, r))? {
        Ok(p) => Ok((String::new(), p)),
        Err(e) => fail!("valid text rejected", "{s:?}: {e}\n{text}"),
    })?;
    same_plan(&plan, &back, "spelling denotes another string", &text)
}

pub const P10: Prop = Prop {
    id: "P10",
    quick: 240_000,
    thorough: 3_000_000,
    f: p10,
    rule: "the string is not a plain identifier",
    assumptions: &[],
    known: &[],
};
