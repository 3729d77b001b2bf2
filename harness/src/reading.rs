//! What a written literal denotes, decided from its characters alone: the
//! oracle for literals that were edited at random.
//!
//! The reading is generous about the shape of dates and times (spaces before a
//! number, one-digit fields, a sign on the year), so `None` means that no
//! reading gives the text a value of the type.

#![allow(deprecated)]

use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
use substrait::proto::expression::literal::{IntervalDayToSecond, LiteralType, PrecisionTime, PrecisionTimestamp};
use substrait::proto::r#type::Kind;
use substrait::proto::Type;

pub enum Token<'a> {
    /// A bare word or number.
    Bare(&'a str),
    /// The content of a quoted string.
    Quoted(&'a str),
}

struct Cursor<'a>(&'a str);

impl<'a> Cursor<'a> {
    fn eat(&mut self, c: char) -> Option<()> {
        self.0 = self.0.strip_prefix(c)?;
        Some(())
    }
    fn spaces(&mut self) {
        self.0 = self.0.trim_start();
    }
    fn digits(&mut self, max: usize) -> Option<&'a str> {
        let n = self.0.bytes().take(max).take_while(u8::is_ascii_digit).count();
        if n == 0 {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn two(&mut self) -> Option<i128> {
        self.spaces();
        self.digits(2)?.parse().ok()
    }
}

fn leap(y: i128) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn date(c: &mut Cursor) -> Option<i128> {
    c.spaces();
    let sign = if c.eat('-').is_some() { Some(-1) } else { c.eat('+').map(|_| 1) };
    let y = c.digits(if sign.is_some() { 12 } else { 4 })?.parse::<i128>().ok()? * sign.unwrap_or(1);
    let sep = if c.eat('-').is_some() { '-' } else { c.eat('/').map(|_| '/')? };
    let m = c.two()?;
    c.eat(sep)?;
    let d = c.two()?;
    let len = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i128,
        _ => return None,
    };
    if !(1..=len).contains(&d) {
        return None;
    }
    // Days before the first of January of `y`, then of the months before `m`.
    let p = y - 1;
    let mut days = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719_162;
    for k in 1..m {
        days += match k {
            4 | 6 | 9 | 11 => 30,
            2 => 28 + leap(y) as i128,
            _ => 31,
        };
    }
    Some(days + d - 1)
}

/// Units of 10^-p seconds since midnight.
fn time(c: &mut Cursor, p: usize) -> Option<i128> {
    let h = c.two()?;
    c.eat(':')?;
    let m = c.two()?;
    c.eat(':')?;
    let s = c.two()?;
    if h > 23 || m > 59 || s > 59 {
        return None;
    }
    let mut units = ((h * 60 + m) * 60 + s) * 10i128.pow(p as u32);
    if c.eat('.').is_some() {
        let f = c.digits(usize::MAX)?;
        let (kept, rest) = f.split_at(p.min(f.len()));
        if rest.bytes().any(|b| b != b'0') {
            return None;
        }
        if !kept.is_empty() {
            units += kept.parse::<i128>().ok()? * 10i128.pow((p - kept.len()) as u32);
        }
    }
    Some(units)
}

fn timestamp(c: &mut Cursor, p: usize) -> Option<i64> {
    let d = date(c)?;
    if c.eat('T').is_none() {
        c.spaces();
    }
    let t = time(c, p)?;
    i64::try_from(d * 86_400 * 10i128.pow(p as u32) + t).ok()
}

fn interval(s: &str, p: i32) -> Option<IntervalDayToSecond> {
    let unit = match p {
        0 => None,
        3 => Some("ms"),
        6 => Some("us"),
        9 => Some("ns"),
        12 => Some("ps"),
        _ => return None,
    };
    let mut r = IntervalDayToSecond { precision_mode: Some(PrecisionMode::Precision(p)), ..Default::default() };
    let mut stage = 0;
    for term in s.split(' ') {
        let mut c = Cursor(term);
        let neg = c.eat('-').is_some();
        let d = c.digits(usize::MAX)?;
        let n: i128 = d.trim_start_matches('0').get(..d.trim_start_matches('0').len().min(30)).filter(|x| !x.is_empty()).unwrap_or("0").parse().ok()?;
        let n = if neg { -n } else { n };
        let k = match c.0 {
            "d" => 1,
            "s" => 2,
            u if Some(u) == unit => 3,
            _ => return None,
        };
        if k <= stage {
            return None;
        }
        stage = k;
        match k {
            1 => r.days = n.try_into().ok()?,
            2 => r.seconds = n.try_into().ok()?,
            _ => r.subseconds = n.try_into().ok()?,
        }
    }
    Some(r)
}

fn is_integer(s: &str) -> bool {
    let d = s.strip_prefix('-').unwrap_or(s);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}

fn is_float(s: &str) -> bool {
    s.split_once('.').is_some_and(|(a, b)| is_integer(a) && !b.is_empty() && b.bytes().all(|b| b.is_ascii_digit()))
}

/// The value of the token as a literal of the type, and whether it is nullable.
pub fn denotes(token: Token, t: &Type) -> Option<LiteralType> {
    let kind = t.kind.as_ref()?;
    match token {
        Token::Bare(s) if is_integer(s) => Some(match kind {
            Kind::I8(_) => LiteralType::I8(s.parse::<i8>().ok()?.into()),
            Kind::I16(_) => LiteralType::I16(s.parse::<i16>().ok()?.into()),
            Kind::I32(_) => LiteralType::I32(s.parse().ok()?),
            Kind::I64(_) => LiteralType::I64(s.parse().ok()?),
            _ => return None,
        }),
        Token::Bare(s) if is_float(s) => Some(match kind {
            Kind::Fp32(_) => LiteralType::Fp32(s.parse().ok().filter(|v: &f32| v.is_finite())?),
            Kind::Fp64(_) => LiteralType::Fp64(s.parse().ok().filter(|v: &f64| v.is_finite())?),
            _ => return None,
        }),
        Token::Bare("true") if matches!(kind, Kind::Bool(_)) => Some(LiteralType::Boolean(true)),
        Token::Bare("false") if matches!(kind, Kind::Bool(_)) => Some(LiteralType::Boolean(false)),
        Token::Bare("null") => Some(LiteralType::Null(t.clone())),
        Token::Bare(_) => None,
        Token::Quoted(s) => {
            let mut c = Cursor(s);
            let unit = |p: i32| usize::try_from(p).ok().filter(|p| [0, 3, 6, 9].contains(p));
            let l = match kind {
                Kind::String(_) => return Some(LiteralType::String(s.to_string())),
                Kind::IntervalDay(i) => return interval(s, i.precision?).map(LiteralType::IntervalDayToSecond),
                Kind::Date(_) => LiteralType::Date(date(&mut c)?.try_into().ok()?),
                Kind::Time(_) => LiteralType::Time(time(&mut c, 6)? as i64),
                Kind::Timestamp(_) => LiteralType::Timestamp(timestamp(&mut c, 6)?),
                Kind::PrecisionTime(x) => LiteralType::PrecisionTime(PrecisionTime { precision: x.precision, value: time(&mut c, unit(x.precision)?)? as i64 }),
                Kind::PrecisionTimestamp(x) => LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: x.precision, value: timestamp(&mut c, unit(x.precision)?)? }),
                Kind::PrecisionTimestampTz(x) => LiteralType::PrecisionTimestampTz(PrecisionTimestamp { precision: x.precision, value: timestamp(&mut c, unit(x.precision)?)? }),
                _ => return None,
            };
            c.0.is_empty().then_some(l)
        }
    }
}
