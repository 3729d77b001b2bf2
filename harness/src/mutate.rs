//! Mutations of texts.

use crate::r#gen::Gen;

/// Split into tokens: words, numbers, quoted strings, runs of spaces, line
/// ends, and operators.
pub fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let start = i;
        let k = c[i];
        if k.is_ascii_alphabetic() || k == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else if k.is_ascii_digit() {
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
        } else if k == ' ' {
            while i < c.len() && c[i] == ' ' {
                i += 1;
            }
        } else if k == '\'' || k == '"' {
            i += 1;
            while i < c.len() && c[i] != k && c[i] != '\n' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(c.len());
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            i += if ["=>", "+>", "|>", "::", "->"].contains(&two.as_str()) {
                2
            } else if c[i..].starts_with(&['=', '=', '=']) {
                3
            } else {
                1
            };
        }
        out.push(c[start..i].iter().collect());
    }
    out
}

pub const DICT: &[&str] = &[
    "[", "]", "(", ")", ",", ", ", "=>", " => ", "+>", "|>", "=", ":", "::", "->", "_", "$", "$0", "$1", "$-1", "$99999999999", "&", "&Inner", "&AscNullsFirst",
    "&HASH", "#", "#1", "@", "@1", "@ 1", "?", "!", "⁉", "<", ">", "<>", "<6>", "<3>", "u!", ".", "-", "- ", "+ ", " ", "  ", "\n", "\n  ", "\n    ", "\n\n",
    "\r\n", "\t", "'", "\"", "\\", "'a'", "\"a b\"", "''", "\"\"", "'\\u{41}'", "'\\u{110000}'", "'\\u{}'", "'\\u{zz}'", "0", "1", "-1", "007", "9223372036854775808", "-9223372036854775808",
    "99999999999999999999999", "1.5", "1.", ".5", "1e5", "-0.0", "null", "true", "false", "NaN", "inf", "i64", "i64?", "i8", "string", "boolean", "fp32", "date", "time",
    "timestamp", "interval_day", "interval_day<6>", "precisiontimestamp<3>", "precisiontime<13>", "list<i64>", "map<i64, i64>", "struct<i64>", "decimal<1,2>", "varchar<5>",
    "Root[", "Read[", "Read:Virtual[", "Read:Extension[", "Filter[", "Project[", "Aggregate[", "Sort[", "Fetch[", "Join[", "Set[", "Cross[", "ExtensionLeaf:ExtRel[",
    "ExtensionSingle:ExtRel[", "ExtensionMulti:Nope[", "+ Enh:EnhOne[", "+ Opt:OptOne[", "+ Ext:TableExt[", "limit=", "offset=", "filter=", "post_filter=", "if_then(", "_ -> ",
    "=== Version 1.2.3", "=== Version", "=== Extensions", "=== Plan", "===", "URNs:", "Functions:", "Types:", "Type Variations:", "producer: x", "git_hash: y",
    "\u{0}", "\u{feff}", "é", "🦀", "\u{301}", "//", "// x", ";", "{", "}", "!{", "%", "/", "*",
];

pub fn dict(g: &mut Gen) -> String {
    g.pick(DICT).to_string()
}

fn random_char(g: &mut Gen) -> char {
    let max = g.choose(&[0x80u32, 0x20, 0x100, 0x11_0000]);
    char::from_u32(g.below(max as u64) as u32).unwrap_or('\u{fffd}')
}

/// One random edit of the text.
pub fn once(g: &mut Gen, s: &str, other: &str) -> String {
    let mut t = tokens(s);
    if t.is_empty() {
        return dict(g);
    }
    let at = g.usize(t.len());
    match g.weighted(&[5, 4, 3, 5, 3, 3, 2, 2, 3, 2, 2, 2, 2, 1]) {
        0 => t[at] = dict(g),
        1 => t.insert(at, dict(g)),
        2 => {
            t.remove(at);
        }
        3 => {
            // Replace by a token of the same or the other text.
            let o = tokens(if g.bool() { other } else { s });
            if !o.is_empty() {
                t[at] = o[g.usize(o.len())].clone();
            }
        }
        4 => {
            let j = g.usize(t.len());
            t.swap(at, j);
        }
        5 => {
            let x = t[at].clone();
            t.insert(at, x);
        }
        6 => {
            let mut c: Vec<char> = s.chars().collect();
            let i = g.usize(c.len());
            c[i] = random_char(g);
            return c.into_iter().collect();
        }
        7 => {
            let mut c: Vec<char> = s.chars().collect();
            let i = g.usize(c.len() + 1);
            c.insert(i, random_char(g));
            return c.into_iter().collect();
        }
        8 => {
            // Lines: drop, repeat, swap, or bring in one of another text.
            let mut l: Vec<String> = s.split('\n').map(String::from).collect();
            let i = g.usize(l.len());
            match g.usize(4) {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                2 => {
                    let j = g.usize(l.len());
                    l.swap(i, j);
                }
                _ => {
                    let o: Vec<&str> = other.split('\n').collect();
                    l.insert(i, o[g.usize(o.len())].to_string());
                }
            }
            return l.join("\n");
        }
        9 => {
            let mut l: Vec<String> = s.split('\n').map(String::from).collect();
            let i = g.usize(l.len());
            l[i] = match g.usize(4) {
                0 => format!("  {}", l[i]),
                1 => l[i].strip_prefix("  ").unwrap_or(&l[i]).to_string(),
                2 => format!(" {}", l[i]),
                _ => l[i].trim_start().to_string(),
            };
            return l.join("\n");
        }
        10 => t.truncate(at),
        11 => {
            // A changed number.
            if let Some(i) = t.iter().position(|x| x.chars().all(|c| c.is_ascii_digit())) {
                let nums: Vec<usize> = (i..t.len()).filter(|&j| t[j].chars().all(|c| c.is_ascii_digit())).collect();
                let j = nums[g.usize(nums.len())];
                t[j] = match g.usize(3) {
                    0 => g.below(20).to_string(),
                    1 => g.i64().unsigned_abs().to_string(),
                    _ => format!("{}{}", t[j], t[j]),
                };
            }
        }
        12 => {
            // A span of the other text.
            let o = tokens(other);
            if !o.is_empty() {
                let i = g.usize(o.len());
                let n = 1 + g.usize(8);
                let span: Vec<String> = o[i..(i + n).min(o.len())].to_vec();
                t.splice(at..at, span);
            }
        }
        _ => {
            let n = 1 + g.usize(6);
            t.drain(at..(at + n).min(t.len()));
        }
    }
    t.concat()
}

const TYPES: &[&str] = &[
    "boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "date", "time", "timestamp", "timestamp_tz", "interval_year", "interval_day", "uuid", "list", "precisiontime",
    "precisiontimestamp", "precisiontimestamptz", "decimal", "varchar", "fixedchar", "fixedbinary", "map", "struct",
];

/// A token like this one.
fn kin(g: &mut Gen, t: &str) -> String {
    let first = t.chars().next().unwrap_or(' ');
    if first.is_ascii_digit() {
        return match g.usize(6) {
            0 => g.below(12).to_string(),
            1 => g.i64().unsigned_abs().to_string(),
            2 => format!("0{t}"),
            3 => format!("{t}.{}", g.below(100)),
            4 => format!("{t}0"),
            _ => g.pick(&["0", "1", "127", "128", "255", "256", "32768", "65536", "2147483647", "2147483648", "4294967295", "9223372036854775807"]).to_string(),
        };
    }
    if first == '\'' || first == '"' {
        let inner = t.trim_matches(first).to_string();
        return match g.usize(9) {
            0 => format!("{first}{first}"),
            1 => format!("{first}{inner}{inner}{first}"),
            2 => format!("{first} {inner}{first}"),
            3 => format!("{first}{inner}{}{first}", g.pick(&["\\n", "\\t", "\\\\", "\\'", "\\\"", "\\u{41}", "\\u{1F980}", "\\0", "\\x", "\\r", "\\u{7f}", "\\u{202e}"])),
            4 => format!("{first}{inner}{}{first}", g.pick(&["Z", ".5", ".000", ":00", "T00:00:00", "-01", " ", "0", "s", "5d", "é"])),
            5 => {
                let q = if first == '"' { '\'' } else { '"' };
                format!("{q}{inner}{q}")
            }
            6 => inner,
            7 => {
                let c: Vec<char> = inner.chars().collect();
                let k = g.usize(c.len() + 1);
                format!("{first}{}{first}", c.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect::<String>())
            }
            _ => format!("{first}{}{first}", g.pick(&["a", "null", "1970-01-01", "12:00:00", "2020-02-29T23:59:59", "1d", "P1D", "-5s", "1969-12-31T23:59:59.999999", "$0", "=>", "]"])),
        };
    }
    if TYPES.contains(&t) {
        let n = g.pick(TYPES).to_string();
        return match g.usize(6) {
            0 => format!("{n}?"),
            1 => format!("list<{n}>"),
            2 => format!("{n}<{}>", g.choose(&["0", "3", "6", "9", "12", "13", "i64"])),
            3 => format!("{n}⁉"),
            _ => n,
        };
    }
    if first.is_ascii_alphabetic() {
        return match g.usize(5) {
            0 => format!("\"{t}\""),
            1 => format!("{t}_"),
            2 => g.pick(&["null", "true", "false", "a", "limit", "offset", "filter", "if_then", "i64", "Inner", "LeftSemi", "UnionAll", "MinusAll", "AscNullsLast", "Clustered", "add"]).to_string(),
            3 => t.to_uppercase(),
            _ => format!("{t}:i64"),
        };
    }
    match t {
        "=>" => g.pick(&["+>", "|>", "=> _,", "=>$0,", "=> a:i64,"]).to_string(),
        "+>" => "=>".into(),
        "?" => g.pick(&["", "⁉", "!"]).to_string(),
        ":" => g.pick(&["::", ":?", "::?", "::!"]).to_string(),
        "," => g.pick(&[", $0,", ", 1,", ", null:i64?,", ", (),", ", &A,", ", x=1,", ", _,", ",  "]).to_string(),
        "_" => g.pick(&["$0", "1", "()", "a=1", "&A", "'x'", "", "true", "null"]).to_string(),
        "[" => g.pick(&["[_, ", "[$0, ", "[1, ", "[true, ", "[ "]).to_string(),
        ")" => g.pick(&["):i64", ")::i64", "):i64?", ")::!string", "),()", ", 1)", ", $0)"]).to_string(),
        "(" => g.pick(&["((", "($0, ", "(1, ", "#1(", ":i64(", "(, "]).to_string(),
        "$" => g.pick(&["-$", "$1", "$0, $", "1, $"]).to_string(),
        "&" => g.pick(&["", "& ", "&&"]).to_string(),
        " " => g.pick(&["", "  ", "\t"]).to_string(),
        _ => dict(g),
    }
}

/// A small change to one token that often leaves a text well-formed.
pub fn nudge(g: &mut Gen, s: &str) -> String {
    let mut t = tokens(s);
    if t.is_empty() {
        return dict(g);
    }
    // Mostly in the plan section.
    let lo = match t.iter().position(|x| x == "Plan") {
        Some(i) if i + 1 < t.len() && !g.chance(1, 6) => i + 1,
        _ => 0,
    };
    let mut at = lo + g.usize(t.len() - lo);
    for _ in 0..3 {
        if t[at].trim().is_empty() {
            at = lo + g.usize(t.len() - lo);
        }
    }
    t[at] = kin(g, &t[at].clone());
    t.concat()
}

pub fn mutate(g: &mut Gen, s: &str, other: &str, n: usize) -> String {
    let mut s = s.to_string();
    for _ in 0..n {
        s = once(g, &s, other);
    }
    s
}
