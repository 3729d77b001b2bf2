//! Layout of the text (P14), output options (P15) and the version header (P28).

use substrait::proto::{Plan, Version};
use substrait_explain::{OutputOptions, Visibility};

use super::core::{format, format_opts, must_format, must_parse, parse, same_plan, text_diff};
use super::fuzz::small;
use crate::r#gen::Gen;
use crate::model::{self, Cfg};
use crate::mutate;
use crate::render::{self, Show, W};
use crate::runner::{Case, Prop, R};
use crate::{ensure, fail};

// --- P14 ---------------------------------------------------------------------

/// Byte ranges of a line that are outside quotes. In a well-formed line quotes
/// are balanced and a backslash escapes the next character inside them.
fn outside(line: &str) -> Vec<bool> {
    let mut out = vec![true; line.len() + 1];
    let mut quote = None;
    let mut skip = false;
    for (i, c) in line.char_indices() {
        if let Some(q) = quote {
            for o in &mut out[i..i + c.len_utf8()] {
                *o = false;
            }
            if skip {
                skip = false;
            } else if c == '\\' {
                skip = true;
            } else if c == q {
                quote = None;
            }
        } else if c == '\'' || c == '"' {
            quote = Some(c);
            out[i] = false;
        }
    }
    out
}

fn spaces(g: &mut Gen) -> String {
    " ".repeat(g.range(1, 4))
}

/// More space after a comma, or around an arrow, of a plan line. The first
/// space around an arrow may also go.
fn separators(g: &mut Gen, line: &str) -> String {
    let out = outside(line);
    let mut places = vec![];
    for (i, _) in line.char_indices() {
        if !out[i] {
            continue;
        }
        let rest = &line[i..];
        if rest.starts_with(',') {
            places.push((i + 1, "comma"));
        }
        if rest.starts_with("=>") || rest.starts_with("->") || rest.starts_with("+>") || rest.starts_with("|>") {
            places.push((i, "arrow"));
            places.push((i + 2, "arrow"));
        }
    }
    if places.is_empty() {
        return line.to_string();
    }
    let (at, kind) = places[g.usize(places.len())];
    let (a, b) = line.split_at(at);
    if g.chance(1, 3) {
        if kind == "comma" {
            return format!("{a}{}", b.trim_start_matches(' '));
        }
        // Not before the arrow of a continuation line, whose space belongs to the marker.
        if !a.trim_start().is_empty() && a.trim() != "-" {
            return format!("{}{}", if line[at..].starts_with(['=', '-', '+', '|']) { a.trim_end_matches(' ') } else { a }, b.trim_start_matches(' '));
        }
    }
    format!("{a}{}{b}", spaces(g))
}

fn continuation(line: &str) -> bool {
    line.trim_start().starts_with("- ")
}

/// One change of layout. `valid` tells whether the text is known to be
/// well-formed, so that quotes and sections can be recognised.
fn layout_edit(g: &mut Gen, text: &str, valid: bool) -> (String, &'static str) {
    let mut lines: Vec<String> = text.split('\n').map(String::from).collect();
    let plan_at = lines.iter().position(|l| l.trim_end() == "=== Plan");
    let n = lines.len();
    let i = g.usize(n);
    let followed = i + 1 < n && continuation(&lines[i + 1]);
    let in_plan = plan_at.is_some_and(|p| i > p);
    let cr = lines[i].ends_with('\r');
    let edited = match g.weighted(&[3, 3, 3, 2, 3, 3]) {
        0 => {
            if continuation(&lines[i]) {
                "none"
            } else {
                let blank = g.pick(&["", " ", "   ", "\t", "  \t ", "      "]).to_string();
                let k = g.range(1, 3);
                for _ in 0..k {
                    lines.insert(i, blank.clone());
                }
                "blank lines"
            }
        }
        1 => {
            if cr || followed && !valid {
                "none"
            } else {
                let s = if followed { spaces(g) } else { g.pick(&[" ", "    ", "\t", " \t", "  "]).to_string() };
                // A continuation marker on its own line would change.
                lines[i].push_str(&s);
                "trailing space"
            }
        }
        2 => {
            if text.contains('\r') || (!valid && lines.iter().any(|l| continuation(l))) {
                "none"
            } else {
                let all = g.bool();
                for (k, l) in lines.iter_mut().enumerate() {
                    if k + 1 < n && (all || g.bool()) {
                        l.push('\r');
                    }
                }
                "line endings"
            }
        }
        3 => {
            if lines.last().is_some_and(|l| l.is_empty()) {
                while lines.last().is_some_and(|l| l.trim().is_empty()) && lines.len() > 1 {
                    lines.pop();
                }
            } else {
                lines.push(String::new());
            }
            "final newline"
        }
        4 => {
            if !valid || !in_plan || lines[i].trim().is_empty() {
                "none"
            } else {
                lines[i] = separators(g, &lines[i]);
                "separators"
            }
        }
        _ => {
            if !valid || !in_plan || followed || lines[i].trim_end_matches(' ').ends_with(['\r', '\t']) || lines[i].trim().is_empty() {
                "none"
            } else {
                let c = g.pick(&["// note", "//", "// Level 2 (4 spaces)", "//x", "// Read[a => b:i64]", "// === Plan", "//// - "]);
                let s = if g.chance(1, 4) { String::new() } else { spaces(g) };
                lines[i].push_str(&format!("{s}{c}"));
                "comment"
            }
        }
    };
    (lines.join("\n"), edited)
}

fn alike(a: &str, b: &str, what: &str) -> R {
    let (x, y) = (parse(a)?, parse(b)?);
    match (x, y) {
        (Ok(x), Ok(y)) => same_plan(&x, &y, what, &format!("{a}\n--- versus ---\n{b}")),
        (Err(_), Err(_)) => Ok(()),
        (x, y) => fail!(what, "only one of the two is accepted: {:?} / {:?}\n{a}\n--- versus ---\n{b}", x.err().map(|e| e.to_string()), y.err().map(|e| e.to_string())),
    }
}

fn p14(c: &mut Case) -> R {
    let cfg = if c.g.chance(1, 4) { Cfg::default() } else { small() };
    let plan = model::plan(&mut c.g, &cfg);
    match c.g.weighted(&[6, 3, 2, 2]) {
        // A layout edit of a well-formed or broken text.
        0 => {
            let base = if c.g.bool() { render::canonical(&plan) } else { render::styled(&plan, &mut c.g) };
            let valid = c.g.chance(2, 3);
            let base = if valid {
                base
            } else {
                let other = render::canonical(&model::plan(&mut c.g, &small()));
                let n = c.g.range(1, 2);
                mutate::mutate(&mut c.g, &base, &other, n)
            };
            let mut text = base.clone();
            let mut kinds = vec![];
            for _ in 0..c.g.range(1, 5) {
                let (t, k) = layout_edit(&mut c.g, &text, valid);
                if k != "none" && t != text {
                    kinds.push(k);
                    c.label(k);
                }
                text = t;
            }
            c.label(if valid { "well-formed" } else { "mutated" });
            c.nontrivial = text != base;
            c.show(&base);
            c.show(&text);
            if valid {
                same_plan(&plan, &must_parse(&base)?, "parsed plan differs", &base)?;
            }
            alike(&base, &text, &format!("layout changed the meaning ({})", kinds.join(", ")))
        }
        // Two spellings of one plan.
        1 => {
            let a = render::styled(&plan, &mut c.g);
            let b = render::styled(&plan, &mut c.g);
            c.label("two spellings");
            c.show(&a);
            c.show(&b);
            c.nontrivial = a != b;
            let (x, y) = (must_parse(&a)?, must_parse(&b)?);
            same_plan(&x, &y, "two spellings differ", &format!("{a}\n--- versus ---\n{b}"))
        }
        // A table on one line or on several.
        2 => {
            let env = model::Env::of(&plan);
            let (r, _) = model::read_kind(&mut c.g, &cfg, &env, 1);
            let mut plan = plan;
            plan.relations = vec![substrait::proto::PlanRel { rel_type: Some(substrait::proto::plan_rel::RelType::Rel(r)) }];
            let mut texts = vec![];
            for t in [0, usize::MAX] {
                let mut w = W::new(&plan, None);
                w.threshold = t;
                texts.push(w.plan(&plan));
            }
            texts.push(render::styled(&plan, &mut c.g));
            c.label("table layouts");
            c.show(&texts.concat());
            c.nontrivial = texts[0] != texts[1];
            for t in &texts {
                same_plan(&plan, &must_parse(t)?, "layout of a table changed the plan", t)?;
            }
            Ok(())
        }
        // Indentation is not layout.
        _ => {
            let text = render::canonical(&plan);
            let mut lines: Vec<String> = text.split('\n').map(String::from).collect();
            let at = lines.iter().position(|l| l == "=== Plan").unwrap();
            let places: Vec<usize> = (at + 1..lines.len()).filter(|&i| !lines[i].trim().is_empty() && !continuation(&lines[i])).collect();
            if places.is_empty() {
                return Ok(());
            }
            let i = places[c.g.usize(places.len())];
            let mut end = i + 1;
            while end < lines.len() && continuation(&lines[end]) {
                end += 1;
            }
            let depth = lines[i].len() - lines[i].trim_start().len();
            let new = match c.g.weighted(&[3, 3, 1, 1, 1]) {
                0 if depth >= 2 => depth - 2,
                0 | 1 => depth + 2,
                2 => depth + 1,
                3 => depth + 3,
                _ => c.g.usize(depth + 5),
            };
            if new == depth {
                return Ok(());
            }
            for l in &mut lines[i..end] {
                let extra = (l.len() - l.trim_start().len()) - depth;
                *l = format!("{}{}", " ".repeat(new + extra), l.trim_start());
            }
            let moved = lines.join("\n");
            c.label("indentation");
            c.nontrivial = true;
            c.show(&text);
            c.show(&moved);
            if let Ok(p) = parse(&moved)? {
                ensure!(p != must_parse(&text)?, "indentation treated as layout", "{moved}");
            }
            Ok(())
        }
    }
}

pub const P14: Prop = Prop {
    id: "P14",
    quick: 80_000,
    thorough: 600_000,
    f: p14,
    rule: "the two texts differ",
    assumptions: &["separator and comment edits are made to well-formed texts only, where quotes can be told apart"],
    known: &[],
};

// --- P15 ---------------------------------------------------------------------

fn show(v: Visibility) -> Show {
    match v {
        Visibility::Never => Show::Never,
        Visibility::Required => Show::Required,
        Visibility::Always => Show::Always,
    }
}

fn p15(c: &mut Case) -> R {
    let cfg = if c.g.bool() { Cfg::default() } else { small() };
    let mut plan = model::plan(&mut c.g, &Cfg { clashes: true, ..cfg });
    if c.g.chance(1, 4) {
        // Tables are the one thing the threshold is about.
        let env = model::Env::of(&plan);
        let (r, _) = model::read_kind(&mut c.g, &small(), &env, 1);
        plan.relations = vec![substrait::proto::PlanRel { rel_type: Some(substrait::proto::plan_rel::RelType::Rel(r)) }];
    }
    let vis = |g: &mut Gen| g.choose(&[Visibility::Required, Visibility::Always, Visibility::Never]);
    // What is set here is what counts; what is left alone is as documented.
    let verbose = c.g.chance(1, 6);
    let mut o = if verbose { OutputOptions::verbose() } else { OutputOptions::default() };
    let mut w = W::new(&plan, None);
    let level = if verbose { Show::Always } else { Show::Required };
    (w.anchors, w.literal_types, w.indent, w.threshold) = (level, level, "  ".to_string(), 3);
    if c.g.bool() {
        o.show_simple_extension_anchors = vis(&mut c.g);
        w.anchors = show(o.show_simple_extension_anchors);
    }
    if c.g.bool() {
        o.literal_types = vis(&mut c.g);
        w.literal_types = show(o.literal_types);
    }
    if c.g.chance(1, 3) {
        o.indent = c.g.choose(&["  ", "    ", "\t", "", "|-", " ", "> "]).to_string();
        w.indent = o.indent.clone();
    }
    if c.g.bool() {
        o.virtual_table_multiline_threshold = c.g.choose(&[0, 1, 2, 3, 4, 5, usize::MAX]);
        w.threshold = o.virtual_table_multiline_threshold;
    }
    // Options that concern nothing in these plans.
    if c.g.chance(1, 4) {
        o.show_extension_urns = c.g.bool();
        o.show_simple_extensions = c.g.bool();
        o.read_types = c.g.bool();
        o.nullability = c.g.bool();
        o.show_literal_binaries = c.g.bool();
    }
    let want = w.plan(&plan);
    c.show(&format!("{o:?}\n{want}"));
    let base = render::canonical(&plan);
    c.nontrivial = want != base;
    let (got, errs) = format_opts(&plan, &o)?;
    ensure!(got == want, "text is not what the options say", "{o:?}\n{}", text_diff(&want, &got));
    ensure!(errs.is_empty(), "problems reported for a representable plan", "{o:?}\n{errs:?}\n{got}");
    let never = o.show_simple_extension_anchors == Visibility::Never || o.literal_types == Visibility::Never;
    if o.indent == "  " && !never {
        c.label("reparsed");
        same_plan(&plan, &must_parse(&got)?, "options changed the plan", &got)?;
    }
    if o.indent != "  " && !never {
        // Only the indentation differs from the text with two spaces.
        let o2 = OutputOptions { indent: "  ".into(), ..o.clone() };
        let (two, _) = format_opts(&plan, &o2)?;
        c.label("indentation");
        ensure!(two.lines().count() == got.lines().count(), "indentation changed the lines", "{o:?}\n{got}");
        for (a, b) in two.lines().zip(got.lines()) {
            let body = a.trim_start_matches(' ');
            let depth = (a.len() - body.len()) / 2;
            ensure!(b == format!("{}{body}", o.indent.repeat(depth)), "indentation changed more than the indentation", "{o:?}\n{a:?}\n{b:?}");
        }
    }
    Ok(())
}

pub const P15: Prop = Prop {
    id: "P15",
    quick: 160_000,
    thorough: 800_000,
    f: p15,
    rule: "the options change the text",
    assumptions: &["a text whose literal types or anchors are hidden (Never) need not be readable, so only the text itself is compared"],
    known: &[],
};

// --- P28 ---------------------------------------------------------------------

fn detail(g: &mut Gen) -> String {
    match g.weighted(&[2, 3, 3, 1]) {
        0 => String::new(),
        1 => g
            .pick(&[
                "test", "my producer 1.2", "a: b", "git_hash: x", "producer: y", "prod # 1", "=== Plan", "ünï", "x  y", "// c", "\"quoted\"", "'q'", ":", "0", "@1: x", "- row", "+ Enh:x[]",
                "Functions:", "_", "\\n", "a\tb", "…", "v1.2.3-rc+4",
            ])
            .to_string(),
        2 => model::string(g),
        _ => format!("{:040x}", g.raw() as u128 * 0x9e37_79b9_7f4a_7c15),
    }
}

fn number(g: &mut Gen) -> u32 {
    match g.weighted(&[3, 3, 1]) {
        0 => g.choose(&[0, 1, 55, 99, u32::MAX, u32::MAX - 1, i32::MAX as u32, 1 << 31, 1000, 65535]),
        1 => g.below(200) as u32,
        _ => g.raw() as u32,
    }
}

/// Whether the value is read back as written.
fn fits(s: &str) -> bool {
    s.trim() == s && !s.contains('\n')
}

fn section(v: &Version) -> String {
    let mut s = String::new();
    if *v != Version::default() {
        s.push_str(&format!("=== Version {}.{}.{}\n", v.major_number, v.minor_number, v.patch_number));
        if !v.producer.is_empty() {
            s.push_str(&format!("  producer: {}\n", v.producer));
        }
        if !v.git_hash.is_empty() {
            s.push_str(&format!("  git_hash: {}\n", v.git_hash));
        }
    }
    s
}

fn bad_number(g: &mut Gen) -> String {
    g.pick(&["", "4294967296", "-1", "a", "1a", "0x1", "1_0", "1e3", "99999999999999999999999", " ", "１", "1,", "$0", "v1", "#", "+1", "+0"]).to_string()
}

fn p28(c: &mut Case) -> R {
    let with_plan = c.g.chance(2, 3);
    let mut plan = if with_plan { model::plan(&mut c.g, &Cfg { version: false, ..small() }) } else { Plan::default() };
    let rest = render::canonical(&plan);
    let v = Version { major_number: number(&mut c.g), minor_number: number(&mut c.g), patch_number: number(&mut c.g), producer: detail(&mut c.g), git_hash: detail(&mut c.g) };
    let v = if c.g.chance(1, 30) { Version::default() } else { v };
    match c.g.weighted(&[4, 3, 5]) {
        // Written and read back.
        0 => {
            c.nontrivial = v != Version::default();
            plan.version = Some(v.clone());
            if !fits(&v.producer) || !fits(&v.git_hash) {
                c.label("cannot be written");
                let (text, errs) = format(&plan)?;
                c.show(&text);
                ensure!(!errs.is_empty(), "a version that cannot be written is not reported", "{v:?}\n{text}");
                // It must not spill into the lines around it.
                let want = section(&Version { producer: if v.producer.is_empty() { "".into() } else { "x".into() }, git_hash: if v.git_hash.is_empty() { "".into() } else { "x".into() }, ..v.clone() });
                ensure!(text.lines().count() == want.lines().count() + rest.lines().count(), "a version value spills over its line", "{v:?}\n{text}");
                return Ok(());
            }
            c.label("written");
            let text = must_format(&plan)?;
            c.show(&text);
            let want = format!("{}{rest}", section(&v));
            ensure!(text == want, "text differs from the documented form", "{v:?}\n{}", text_diff(&want, &text));
            let back = must_parse(&text)?;
            if v == Version::default() {
                plan.version = None;
            }
            same_plan(&plan, &back, "version read back differs", &text)
        }
        // Any spelling the documentation allows.
        1 => {
            let v = Version { producer: v.producer.trim().replace('\n', " "), git_hash: v.git_hash.trim().replace('\n', " "), ..v };
            let nums: Vec<String> = [v.major_number, v.minor_number, v.patch_number].iter().map(|n| if c.g.chance(1, 6) { format!("{}{n}", "0".repeat(c.g.range(1, 3))) } else { n.to_string() }).collect();
            let mut lines = vec![];
            let sp = |g: &mut Gen| g.pick(&[" ", "", "   "]).to_string();
            for (k, x) in [("producer", &v.producer), ("git_hash", &v.git_hash)] {
                if !x.is_empty() {
                    lines.push(format!("  {k}:{}{x}", sp(&mut c.g)));
                }
            }
            if c.g.bool() {
                lines.reverse();
            }
            lines.insert(0, format!("=== Version {}", nums.join(".")));
            let mut text = String::new();
            for l in lines {
                if c.g.chance(1, 8) {
                    text.push('\n');
                }
                text.push_str(&l);
                if c.g.chance(1, 8) {
                    text.push_str("  ");
                }
                text.push_str(if c.g.chance(1, 8) { "\r\n" } else { "\n" });
            }
            if c.g.chance(1, 8) {
                text.push('\n');
            }
            text.push_str(&rest);
            c.label("spelling");
            c.nontrivial = true;
            c.show(&text);
            plan.version = Some(v);
            same_plan(&plan, &must_parse(&text)?, "version read differs", &text)
        }
        // Broken in one way.
        _ => {
            let v = Version { producer: "p".into(), git_hash: "h".into(), ..v };
            let mut n: Vec<String> = [v.major_number, v.minor_number, v.patch_number].iter().map(u32::to_string).collect();
            let head = |n: &[String]| format!("=== Version {}\n", n.join("."));
            let details = "  producer: p\n  git_hash: h\n";
            let g = &mut c.g;
            let kind = g.usize(15);
            let (text, what) = match kind {
                0 | 1 => {
                    let i = g.usize(3);
                    n[i] = bad_number(g);
                    (format!("{}{details}{rest}", head(&n)), "bad number")
                }
                2 => {
                    let keep = g.usize(3);
                    n.truncate(keep);
                    (format!("{}{details}{rest}", head(&n)), "too few numbers")
                }
                3 => {
                    n.push(g.below(9).to_string());
                    (format!("{}{details}{rest}", head(&n)), "too many numbers")
                }
                4 => {
                    let t = g.pick(&[" x", ".", " 1", "-rc1", " // note", ",", " 1.2.3"]);
                    (format!("{}{t}\n{details}{rest}", head(&n).trim_end()), "text after the numbers")
                }
                5 => {
                    let h = g.pick(&["=== version", "===Version", "== Version", "=== Versions", "Version", "=== VERSION", "=== Version:", "=== Vers", " === Version", "==== Version"]);
                    (format!("{h} {}\n{details}{rest}", n.join(".")), "bad header")
                }
                6 => {
                    let k = g.pick(&["author", "Producer", "githash", "git hash", "git-hash", "version", "", "producers", "PRODUCER", "git_hash2", "\"producer\""]);
                    (format!("{}  {k}: x\n{rest}", head(&n)), "unknown field")
                }
                7 => {
                    let k = g.pick(&["producer", "git_hash abc", "x", "producer x", "producer = x"]);
                    (format!("{}  {k}\n{rest}", head(&n)), "no colon")
                }
                8 => {
                    let pad = g.pick(&["", " ", "   ", "    ", "\t", "      ", " \t"]);
                    let k = g.pick(&["producer: p", "git_hash: h"]);
                    // An odd number of spaces leaves a space before the key; it is a whole level that counts.
                    if pad == "   " {
                        return Ok(());
                    }
                    (format!("{}{pad}{k}\n{rest}", head(&n)), "wrong indentation")
                }
                9 => (format!("{}{details}{}{rest}", head(&n), head(&n)), "repeated header"),
                10 => {
                    let k = g.pick(&["producer", "git_hash"]);
                    (format!("{}{details}  {k}: again\n{rest}", head(&n)), "repeated field")
                }
                11 => {
                    let at = rest.find("=== Plan\n").unwrap() + "=== Plan\n".len();
                    let (a, b) = if g.bool() { rest.split_at(at) } else { (rest.as_str(), "\n") };
                    (format!("{a}{}{details}{b}", head(&n)), "header in the plan section")
                }
                12 => {
                    let Some(at) = rest.find("=== Extensions\n") else { return Ok(()) };
                    let (a, b) = rest.split_at(at + "=== Extensions\n".len());
                    let at = rest.find("=== Plan").unwrap() - a.len();
                    let (b, d) = if g.bool() { b.split_at(at) } else { ("", b) };
                    (format!("{a}{b}{}{d}", head(&n)), "header in the extensions section")
                }
                13 => (format!("{details}{}{rest}", head(&n)), "fields before the header"),
                _ => {
                    let l = g.pick(&["Read[t => a:i64]", "URNs:", "x", "  @  1: /urn", "    producer: x", "1.2.3", "=== Producer"]);
                    (format!("{}{details}{l}\n{rest}", head(&n)), "foreign line")
                }
            };
            c.label(what);
            c.show(&text);
            c.nontrivial = true;
            ensure!(parse(&text)?.is_err(), "malformed version accepted", "{what}\n{text}");
            Ok(())
        }
    }
}

pub const P28: Prop = Prop {
    id: "P28",
    quick: 240_000,
    thorough: 2_000_000,
    f: p28,
    rule: "there is a version, or a malformed one",
    assumptions: &[],
    known: &[],
};
