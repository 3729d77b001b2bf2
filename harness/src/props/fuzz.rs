//! Arbitrary texts and arbitrary plans.

use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::Format;
use substrait_explain::{OutputOptions, Visibility};

use super::reflect;
use super::core::{format, format_opts, parse, parse_with};
use crate::r#gen::Gen;
use crate::model::{self, Cfg};
use crate::mutate::{dict, mutate, nudge, once};
use crate::runner::{Case, Known, Prop, R, sut};
use crate::{ensure, ext, fail, render};

pub fn small() -> Cfg {
    Cfg { rel_depth: 2, expr_depth: 2, max_cols: 3, ..Cfg::default() }
}

pub fn valid_text(g: &mut Gen, cfg: &Cfg) -> String {
    let plan = model::plan(g, cfg);
    if g.bool() { render::canonical(&plan) } else { render::styled(&plan, g) }
}

pub fn same_bytes(a: &Plan, b: &Plan) -> bool {
    a.encode_to_vec() == b.encode_to_vec()
}

fn p03(c: &mut Case) -> R {
    let cfg = Cfg { unspecified: true, ..small() };
    let base = valid_text(&mut c.g, &cfg);
    let other = if c.g.chance(1, 3) { valid_text(&mut c.g, &cfg) } else { base.clone() };
    let mut text = base.clone();
    let mut accepted = 0;
    // A walk through accepted texts.
    for _ in 0..c.g.range(3, 10) {
        let next = match c.g.usize(5) {
            0 | 1 => once(&mut c.g, &text, &other),
            2 => {
                let t = nudge(&mut c.g, &text);
                nudge(&mut c.g, &t)
            }
            _ => nudge(&mut c.g, &text),
        };
        if next == text || next.len() > 20_000 {
            continue;
        }
        let Ok(plan) = parse(&next)? else { continue };
        text = next;
        accepted += 1;
        c.show(&text);
        stable(c, &text, &plan)?;
    }
    c.nontrivial = accepted > 0 && text != base;
    c.label(format!("{} accepted edits", if accepted > 3 { "4 or more".to_string() } else { accepted.to_string() }));
    c.show(&text);
    Ok(())
}

fn stable(c: &mut Case, text: &str, plan: &Plan) -> R {
    let (out, errs) = format(plan)?;
    if !errs.is_empty() {
        c.label("formatting reports");
        return Ok(());
    }
    let back = match parse(&out)? {
        Ok(p) => p,
        Err(e) => fail!("formatted text rejected", "{e}\n{out}\nfrom\n{text}"),
    };
    if !same_bytes(plan, &back) {
        super::core::same_plan(plan, &back, "reparsed plan differs", &format!("{out}\nfrom\n{text}"))?;
        fail!("reparsed plan differs", "{out}\nfrom\n{text}");
    }
    let (again, errs) = format(&back)?;
    ensure!(errs.is_empty() && again == out, "formatting is not stable", "{out}\n{again}\n{errs:?}");
    Ok(())
}

pub const P03: Prop = Prop {
    id: "P03",
    quick: 120_000,
    thorough: 5_000_000,
    f: p03,
    rule: "a text reached from a valid one by edits (token, line, character, splice, similar token) each of which the parser accepts, at least one",
    assumptions: &[],
    known: &[],
};

/// Arbitrary text: from noise to nearly valid.
pub fn any_text(g: &mut Gen) -> (String, &'static str) {
    match g.weighted(&[5, 3, 2, 1, 2, 2]) {
        0 => {
            let base = valid_text(g, &small());
            let other = valid_text(g, &small());
            let n = 1 + g.count(8);
            (mutate(g, &base, &other, n), "mutant")
        }
        1 => {
            let n = g.range(0, 30);
            let mut s = String::new();
            if g.bool() {
                s.push_str("=== Plan\n");
            }
            for _ in 0..n {
                s.push_str(&dict(g));
            }
            (s, "dictionary")
        }
        2 => (model::string(g) + &model::string(g) + &model::string(g), "noise"),
        3 => {
            // Nesting, balanced and not.
            let d = g.range(1, 40);
            let (a, m, b) = g.choose(&[
                ("(", "$0", ")::i64"), ("add(", "1", "):i64"), ("if_then(", "true -> 1, _ -> 2", ")"), ("(", "1", ",)"), ("(", "1", ", 2)"),
                ("list<", "i64", ">"), ("json<", "i64", ">"), ("(", "", ""), ("[", "", "]"), ("'", "a", "'"), ("if_then(1 -> ", "1", ", _ -> 2)"),
            ]);
            // A malformed conditional nested in conditions, or a malformed type
            // nested in types, takes time exponential in the depth (known
            // findings).
            let d = if a == "if_then(" || a == "list<" { d.min(8) } else { d };
            let e = format!("{}{m}{}", a.repeat(d), b.repeat(if g.chance(1, 4) { d - 1 } else { d }));
            let line = g.choose(&["Filter[", "Project[", "Read:Virtual[(", "Aggregate[(", "ExtensionLeaf:ExtRel[", "Filter[null:", "Read[t => a:", "Sort[(", "Join[&Inner, ", "+ Enh:EnhOne["]);
            (format!("=== Extensions\nURNs:\n  @  1: x\nFunctions:\n  #  1 @  1: add\nTypes:\n  #  1 @  1: json\n=== Plan\n{line}{e} => $0]\n  Read[t => a:i64]\n"), "nesting")
        }
        4 => {
            // A single line in the place of a relation, with children.
            let mut l = String::new();
            for _ in 0..g.range(1, 8) {
                l.push_str(&dict(g));
            }
            let pad = "  ".repeat(g.usize(3));
            (format!("=== Plan\nRoot[a]\n  Filter[$0 => $0]\n{pad}{l}\n    Read[t => a:i64]\n"), "line")
        }
        _ => {
            // Sections in disorder.
            let mut s = String::new();
            for _ in 0..g.range(1, 10) {
                s.push_str(g.pick(&[
                    "=== Plan\n", "=== Extensions\n", "=== Version 1.2.3\n", "URNs:\n", "Functions:\n", "Types:\n", "Type Variations:\n", "  @1: a\n", "  #1 @1: f\n", "  #2 @1: f:i64\n",
                    "Read[t => a:i64]\n", "  producer: x\n", "  git_hash: y\n", "\n", "  Read[t => a:json]\n", "- x\n", "  - y\n", "+ Enh:EnhOne[]\n", "  + Opt:OptOne[]\n", "=== \n", "#1\n", "@\n", "Root[]\n",
                    "  #4294967296 @1: x\n", "  #-1 @1: x\n", "  @-1: u\n", "  @1 x\n", "  #1 @7: g\n",
                ]));
            }
            if g.bool() {
                s = once(g, &s, "=== Plan\nRead[t => a:i64]\n");
            }
            (s, "sections")
        }
    }
}

fn p04(c: &mut Case) -> R {
    match c.g.weighted(&[8, 1]) {
        0 => {
            let (text, kind) = any_text(&mut c.g);
            c.show(&text);
            c.label(kind);
            let r = parse(&text)?;
            c.label(if r.is_ok() { "accepted" } else { "rejected" });
            c.nontrivial = r.is_err();
            let plain = sut("parse without registry", || substrait_explain::parse(&text))?;
            if let Err(e) = &r {
                // Errors can be shown.
                sut("error display", || (format!("{e}"), format!("{e:?}")))?;
            }
            if let Err(e) = &plain {
                sut("error display", || format!("{e}"))?;
            }
        }
        _ => {
            let plan = model::plan(&mut c.g, &small());
            let f = c.g.choose(&[Format::Json, Format::Yaml, Format::Protobuf, Format::Text]);
            let mut bytes = vec![];
            ext::with_registry(|r| sut("write", || f.write_plan(&mut bytes, &plan, &OutputOptions::default(), r)))?.ok();
            let n = 1 + c.g.count(6);
            for _ in 0..n {
                byte_edit(&mut c.g, &mut bytes);
            }
            c.label(format!("{f:?} bytes"));
            c.show(&format!("{f:?} {}", String::from_utf8_lossy(&bytes)));
            c.nontrivial = true;
            let r = ext::with_registry(|r| sut("read", || f.read_plan(&bytes[..], r)))?;
            if let Err(e) = &r {
                sut("error display", || (format!("{e}"), format!("{e:?}")))?;
            }
            c.label(if r.is_ok() { "read" } else { "not read" });
        }
    }
    Ok(())
}

pub fn byte_edit(g: &mut Gen, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(g.below(256) as u8);
        return;
    }
    let i = g.usize(b.len());
    match g.usize(5) {
        0 => b[i] = g.below(256) as u8,
        1 => b.insert(i, g.below(256) as u8),
        2 => {
            b.remove(i);
        }
        3 => b[i] ^= 1 << g.below(8),
        _ => {
            let n = g.range(1, 12);
            let j = g.usize(b.len());
            let span: Vec<u8> = b[j..(j + n).min(b.len())].to_vec();
            b.splice(i..i, span);
        }
    }
}

/// Conditionals nested as first conditions, none closed. Each level is
/// tried as a conditional and again as a function call.
fn nested_if_then() -> R {
    ends(format!("=== Plan\nFilter[{}$0 => $0]\n  Read[t => a:i64]\n", "if_then(".repeat(40)))
}

/// Lists nested around a malformed type. Each level is tried as a list and
/// again as a user-defined type.
fn nested_list() -> R {
    ends(format!("=== Plan\nRead[t => a:{}<{}]\n", "list<".repeat(40), ">".repeat(40)))
}

fn ends(text: String) -> R {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let _ = substrait_explain::parse(&text);
            let _ = tx.send(());
        })
        .expect("thread");
    ensure!(rx.recv_timeout(std::time::Duration::from_secs(3)).is_ok(), "hang", "parsing does not end");
    Ok(())
}

pub const P04: Prop = Prop {
    id: "P04",
    quick: 200_000,
    thorough: 6_000_000,
    f: p04,
    rule: "the input is rejected (so an error path was taken) or is a mutated binary, JSON or YAML document",
    assumptions: &["nesting depth up to 40"],
    known: &[Known { key: "nested-if-then", kind: "hang", f: nested_if_then }, Known { key: "nested-list", kind: "hang", f: nested_list }],
};

pub fn options(g: &mut Gen) -> OutputOptions {
    let vis = |g: &mut Gen| g.choose(&[Visibility::Required, Visibility::Never, Visibility::Always]);
    let mut o = OutputOptions::default();
    o.show_extension_urns = g.bool();
    o.show_simple_extensions = g.bool();
    o.show_simple_extension_anchors = vis(g);
    o.show_emit = g.bool();
    o.read_types = g.bool();
    o.literal_types = vis(g);
    o.nullability = g.bool();
    o.indent = g.choose(&["  ", "", "\t", "    ", "→"]).to_string();
    o.show_literal_binaries = g.bool();
    o.virtual_table_multiline_threshold = g.choose(&[3, 0, 1, 2, 5, usize::MAX]);
    o
}

fn p05(c: &mut Case) -> R {
    let mut plan = if c.g.chance(1, 12) { Plan::default() } else { model::plan(&mut c.g, &Cfg { unspecified: true, ..small() }) };
    let edits = 1 + c.g.count(6);
    let mut done = vec![];
    for _ in 0..edits {
        if c.g.chance(1, 5) {
            let mut b = plan.encode_to_vec();
            for _ in 0..3 {
                byte_edit(&mut c.g, &mut b);
                if let Ok(p) = Plan::decode(&b[..]) {
                    plan = p;
                    done.push("bytes".to_string());
                    break;
                }
            }
        } else if let Some((p, e)) = reflect::Editor::new(&plan).edit(&mut c.g, &|_| true) {
            plan = p;
            done.push(e);
        }
    }
    let o = if c.g.bool() { options(&mut c.g) } else { OutputOptions::default() };
    c.show(&format!("{done:?}\n{}", reflect::dump(&plan)));
    c.nontrivial = !done.is_empty();
    let (text, errs) = format_opts(&plan, &o)?;
    let plain = sut("format without registry", || substrait_explain::format_with_options(&plan, &o))?;
    let verbose = sut("format verbosely", || substrait_explain::format_with_options(&plan, &OutputOptions::verbose()))?;
    for e in errs.iter().chain(&plain.1).chain(&verbose.1) {
        sut("error display", || (format!("{e}"), format!("{e:?}")))?;
    }
    c.label(if errs.is_empty() { "no problem" } else { "problems" });
    // The text may be arbitrary, but reading it must not crash either.
    let r = sut("parse formatted", || ext::with_registry(|r| parse_with(&text, r)))?;
    c.label(if r.is_ok() { "text parses" } else { "text does not parse" });
    Ok(())
}

pub const P05: Prop = Prop {
    id: "P05",
    quick: 25_600,
    thorough: 3_000_000,
    f: p05,
    rule: "at least one field of the plan was set, cleared or replaced through the protobuf schema, or its bytes edited",
    assumptions: &["nesting as deep as the generator makes it (up to about 12 levels)"],
    known: &[],
};

/// Extension payloads are opaque bytes here; their contents are P17 and P20.
fn shown(e: &reflect::Edit) -> bool {
    e.last() != "google.protobuf.Any.value"
        // The deprecated spelling of a user-defined type.
        && e.last() != "Type.user_defined_type_reference"
        && !e.new.contains("user_defined_type_reference")
        // More copies of a grouping expression, which no grouping set selects.
        && !(e.last() == "AggregateRel.grouping_expressions" && e.op != "replace item" && e.op != "clear list")
}

/// What is written without a problem, if it can be read, reads back as the same plan.
fn faithful(c: &mut Case, plan: &Plan) -> R {
    let mut plan = plan.clone();
    let mut steps = String::new();
    for _ in 0..1 + c.g.count(2) {
        if let Some((p, what)) = reflect::Editor::new(&plan).edit(&mut c.g, &shown) {
            steps += &format!("{what}\n");
            plan = p;
        }
    }
    let (text, errs) = format(&plan)?;
    c.show(&format!("{steps}{text}"));
    if !errs.is_empty() {
        c.label("problem reported");
        return Ok(());
    }
    // The contents of binary literals are not written unless asked for, and
    // groupings in the deprecated form read back in the current one.
    let dump = reflect::dump(&plan);
    if steps.is_empty() || dump.contains("Binary(") || dump.contains("Grouping { grouping_expressions: [E") || dump.contains("UserDefinedTypeReference(") {
        c.label("not compared");
        return Ok(());
    }
    c.nontrivial = true;
    c.label("no problem reported");
    let back = sut("parse formatted", || ext::with_registry(|r| parse_with(&text, r)))?;
    let Ok(back) = back else {
        c.label("text cannot be read");
        return Ok(());
    };
    let (a, b) = (reflect::normalize(&plan), reflect::normalize(&back));
    if a != b {
        fail!("another plan without a problem", "{steps}{text}\n{}\n{}", reflect::dump(&Plan::decode(&a[..]).expect("plan")), reflect::dump(&Plan::decode(&b[..]).expect("plan")));
    }
    Ok(())
}

fn p06(c: &mut Case) -> R {
    let cfg = Cfg { rel_depth: 2, expr_depth: 2, max_cols: 3, ..Cfg::default() };
    let mut plan = model::plan(&mut c.g, &cfg);
    if c.g.chance(1, 3) {
        return faithful(c, &plan);
    }
    let o = OutputOptions { show_literal_binaries: true, ..OutputOptions::default() };
    let format = |p: &Plan| format_opts(p, &o);
    let (mut before, errs) = format(&plan)?;
    ensure!(errs.is_empty(), "errors for a representable plan", "{errs:?}\n{before}");
    let mut editor = reflect::Editor::new(&plan);
    let mut steps = String::new();
    for _ in 0..8 {
        let Some((edited, what)) = editor.edit(&mut c.g, &shown) else {
            c.label("edit not applicable");
            continue;
        };
        c.nontrivial = true;
        let field = what.split(" : ").next().unwrap().rsplit(" / ").next().unwrap().to_string();
        c.label(field.clone());
        let (after, errs) = format(&edited)?;
        if errs.is_empty() && after == before {
            if reflect::normalize(&edited) == reflect::normalize(&plan) {
                c.label("edit without meaning");
                continue;
            }
            c.show(&what);
            c.show(&before);
            fail!(format!("content dropped silently: {field}"), "{steps}{what}\n{before}");
        }
        // Go on from a plan that has been edited.
        if errs.is_empty() && c.g.bool() {
            c.label("step");
            steps += &format!("{what}\n");
            editor = reflect::Editor::new(&edited);
            plan = edited;
            before = after;
        }
    }
    c.show(&before);
    Ok(())
}

pub const P06: Prop = Prop {
    id: "P06",
    quick: 12_000,
    thorough: 1_000_000,
    f: p06,
    rule: "at least one field of the plan's content was edited through the protobuf schema",
    assumptions: &[],
    known: &[],
};
