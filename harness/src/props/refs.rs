//! Declarations and references to them.

#![allow(deprecated)]

use std::collections::{BTreeMap, BTreeSet};

use substrait::proto::expression::{RexType, ScalarFunction};
use substrait::proto::function_argument::ArgType;
use substrait::proto::r#type::{self as ty, Kind};
use substrait::proto::{Expression, FunctionArgument, Plan, Type};
use substrait_explain::extensions::simple::{ExtensionKind, SimpleExtensions};
use substrait_explain::{OutputOptions, Visibility};

use super::core::{format, format_opts, must_parse, parse, same_plan, text_diff};
use super::slots::{EXPR_SLOTS, Place, TYPE_HOLE, TYPE_SLOTS};
use crate::r#gen::Gen;
use crate::model::{self, Decl, Env, REQ, field_expr};
use crate::render::{self, Show, W};
use crate::runner::{Case, Prop, R, sut};
use crate::{ensure, fail};

const BASES: &[&str] = &["add", "sub", "a", "add2", "nullif"];
const SIGS: &[&str] = &["", "i64", "i64_i64", "any", "u!json_str"];
const TYPES: &[&str] = &["json", "point", "jsonb", "T", "datetime"];

/// Few names and few anchors, so that most clash with something.
fn clashing_env(g: &mut Gen) -> Env {
    let mut e = Env::default();
    for a in 1..=g.range(1, 2) as u32 {
        e.urns.push((a, g.pick(model::URNS).to_string()));
    }
    let small = g.bool();
    let anchor = |g: &mut Gen, used: &mut BTreeSet<u32>| {
        if small {
            let mut a = g.below(6) as u32;
            while !used.insert(a) {
                a += 1;
            }
            a
        } else {
            model::anchor(g, used)
        }
    };
    let urn = |g: &mut Gen, e: &Env| g.choose(&e.urns).0;
    let pool = g.range(1, BASES.len());
    let mut used = BTreeSet::new();
    for _ in 0..g.range(1, 6) {
        let base = g.pick(&BASES[..pool]);
        let name = if g.chance(3, 5) { format!("{base}:{}", g.pick(SIGS)) } else { base.to_string() };
        let anchor = anchor(g, &mut used);
        e.funcs.push(Decl { anchor, urn: urn(g, &e), name });
    }
    let pool = g.range(1, TYPES.len());
    let mut used = BTreeSet::new();
    for _ in 0..g.range(1, 4) {
        let name = g.pick(&TYPES[..pool]).to_string();
        let anchor = anchor(g, &mut used);
        e.types.push(Decl { anchor, urn: urn(g, &e), name });
    }
    let mut used = BTreeSet::new();
    for _ in 0..g.usize(3) {
        let name = g.pick(&["json", "point", "add", "T"]).to_string();
        let anchor = anchor(g, &mut used);
        e.vars.push(Decl { anchor, urn: urn(g, &e), name });
    }
    e
}

/// The place for the types of other tests, declared last.
fn with_hole(mut e: Env) -> Env {
    let mut a = 77;
    while e.types.iter().any(|d| d.anchor == a) {
        a += 1;
    }
    e.types.push(Decl { anchor: a, urn: e.urns[0].0, name: TYPE_HOLE.into() });
    e
}

/// Documented resolution of a function reference.
fn resolve_func(e: &Env, name: &str, anchor: Option<u32>) -> Option<u32> {
    let fits = |d: &&Decl| if name.contains(':') { d.name == name } else { d.base() == name };
    match anchor {
        Some(a) => e.funcs.iter().find(|d| d.anchor == a).filter(fits).map(|d| d.anchor),
        None => {
            let m: Vec<&Decl> = e.funcs.iter().filter(fits).collect();
            if m.len() == 1 { Some(m[0].anchor) } else { None }
        }
    }
}

fn resolve_type(e: &Env, name: &str, anchor: Option<u32>) -> Option<u32> {
    let m: Vec<&Decl> = e.types.iter().filter(|d| d.name == name && anchor.is_none_or(|a| a == d.anchor)).collect();
    if m.len() == 1 { Some(m[0].anchor) } else { None }
}

fn call(reference: u32, args: usize, out: Type) -> Expression {
    Expression {
        rex_type: Some(RexType::ScalarFunction(ScalarFunction {
            function_reference: reference,
            arguments: (0..args).map(|i| FunctionArgument { arg_type: Some(ArgType::Value(field_expr(i as i32))) }).collect(),
            output_type: Some(out),
            options: vec![],
            args: vec![],
        })),
    }
}

fn user(reference: u32) -> Type {
    Type { kind: Some(Kind::UserDefined(ty::UserDefined { type_reference: reference, nullability: REQ, type_variation_reference: 0, type_parameters: vec![] })) }
}

fn any_anchor(g: &mut Gen, e: &Env) -> u32 {
    match g.weighted(&[4, 2, 2, 1]) {
        0 => g.choose(&e.funcs).anchor,
        1 => g.choose(&e.types).anchor,
        2 => g.below(8) as u32,
        _ => e.vars.first().map_or(u32::MAX, |d| d.anchor),
    }
}

/// `#anchor@urn` after a name. The location must be right to mean anything, so
/// it is only written when the reference resolves.
fn suffix(g: &mut Gen, anchor: Option<u32>, urn: Option<u32>) -> String {
    let mut s = String::new();
    if let Some(a) = anchor {
        s.push_str(&format!("#{a}"));
    }
    if let (Some(u), true) = (urn, g.chance(1, 4)) {
        s.push_str(&format!("@{u}"));
    }
    s
}

fn p11(c: &mut Case) -> R {
    let env = clashing_env(&mut c.g);
    let clashes = env.funcs.iter().any(|d| env.funcs.iter().any(|o| o.anchor != d.anchor && o.base() == d.base()));
    c.label(if clashes { "clashing functions" } else { "distinct functions" });
    match c.g.weighted(&[4, 3, 4, 2, 2]) {
        0 => {
            // Text to declaration, functions.
            let name = match c.g.weighted(&[4, 3, 1]) {
                0 => {
                    let d = c.g.choose(&env.funcs);
                    if c.g.bool() { d.name } else { d.base().to_string() }
                }
                1 => {
                    let b = c.g.pick(BASES);
                    if c.g.bool() { b.to_string() } else { format!("{b}:{}", c.g.pick(SIGS)) }
                }
                _ => c.g.pick(&["nosuch", "nosuch:i64", "ad", "addd", "Add", "add:i6", "json", "point"]).to_string(),
            };
            let anchor = c.g.bool().then(|| any_anchor(&mut c.g, &env));
            let want = resolve_func(&env, &name, anchor);
            let urn = want.map(|a| env.funcs.iter().find(|d| d.anchor == a).unwrap().urn);
            let n = c.g.usize(3);
            let args: Vec<String> = (0..n).map(|i| format!("${i}")).collect();
            let sfx = suffix(&mut c.g, anchor, urn);
            let text = format!("{name}{sfx}({}):i64", args.join(", "));
            let slot = c.g.usize(EXPR_SLOTS.len());
            let p = Place::new(&mut c.g, with_hole(env.clone()), slot);
            let doc = p.expr_with(&text);
            c.show(&doc);
            c.label(if want.is_some() { "function reference resolves" } else { "function reference does not resolve" });
            c.nontrivial = true;
            let got = parse(&doc)?;
            match (want, got) {
                (Some(a), Ok(got)) => {
                    let plan = p.expr(call(a, n, model::simple_type(0, REQ))).unwrap();
                    same_plan(&plan, &got, "reference resolved to another declaration", &format!("{text}\n{doc}"))
                }
                (Some(_), Err(e)) => fail!("resolvable reference rejected", "{text}: {e}\n{doc}"),
                (None, Ok(got)) => {
                    let (out, _) = format(&got)?;
                    fail!("unresolvable reference accepted", "{text}\n{doc}\nread as\n{out}")
                }
                (None, Err(_)) => Ok(()),
            }
        }
        1 => {
            // Text to declaration, types.
            let name = if c.g.chance(3, 4) { c.g.choose(&env.types).name } else { c.g.pick(&["nosuch", "jso", "jsonbb", "add", "Json", "t", "point", "json"]).to_string() };
            let anchor = c.g.bool().then(|| any_anchor(&mut c.g, &env));
            let want = resolve_type(&env, &name, anchor);
            let urn = want.map(|a| env.types.iter().find(|d| d.anchor == a).unwrap().urn);
            let u = if c.g.chance(1, 4) { "u!" } else { "" };
            let sfx = suffix(&mut c.g, anchor, urn);
            let text = format!("{u}{name}{sfx}");
            let slot = c.g.usize(TYPE_SLOTS.len());
            let p = Place::new(&mut c.g, with_hole(env.clone()), slot);
            let doc = p.type_with(&text);
            c.show(&doc);
            c.label(if want.is_some() { "type reference resolves" } else { "type reference does not resolve" });
            c.nontrivial = true;
            match (want, parse(&doc)?) {
                (Some(a), Ok(got)) => same_plan(&p.typ(user(a)), &got, "reference resolved to another declaration", &format!("{text}\n{doc}")),
                (Some(_), Err(e)) => fail!("resolvable reference rejected", "{text}: {e}\n{doc}"),
                (None, Ok(got)) => {
                    let (out, _) = format(&got)?;
                    fail!("unresolvable reference accepted", "{text}\n{doc}\nread as\n{out}")
                }
                (None, Err(_)) => Ok(()),
            }
        }
        2 => {
            // Declaration to text: every function and type of the set, in
            // nested positions.
            let slot = c.g.usize(EXPR_SLOTS.len());
            let p = Place::new(&mut c.g, env.clone(), slot);
            let t = model::typ(&mut c.g, &model::Cfg::default(), &env, 2);
            let f = c.g.choose(&env.funcs);
            let plan = p.expr(call(f.anchor, c.g.usize(3), t)).unwrap();
            c.nontrivial = clashes;
            c.label("written reference");
            let (text, errs) = format(&plan)?;
            c.show(&text);
            ensure!(errs.is_empty(), "errors for a representable plan", "{errs:?}\n{text}");
            let want = render::canonical(&plan);
            ensure!(text == want, "text differs from the documented form", "{}", text_diff(&want, &text));
            same_plan(&plan, &must_parse(&text)?, "written reference denotes another declaration", &text)?;
            let o = OutputOptions { show_simple_extension_anchors: Visibility::Always, ..OutputOptions::default() };
            let (text, errs) = format_opts(&plan, &o)?;
            ensure!(errs.is_empty(), "errors for a representable plan", "{errs:?}\n{text}");
            let mut w = W::new(&plan, None);
            w.anchors = Show::Always;
            let want = w.plan(&plan);
            ensure!(text == want, "text with anchors differs from the documented form", "{}", text_diff(&want, &text));
            same_plan(&plan, &must_parse(&text)?, "written reference denotes another declaration", &text)
        }
        3 => {
            // Undeclared anchors are reported. Declared only as another kind
            // counts as undeclared.
            let slot = c.g.usize(EXPR_SLOTS.len());
            let p = Place::new(&mut c.g, env.clone(), slot);
            let a = any_anchor(&mut c.g, &env);
            let fun = c.g.bool();
            let (declared, e) = if fun {
                (env.funcs.iter().any(|d| d.anchor == a), call(a, 1, model::simple_type(0, REQ)))
            } else {
                (env.types.iter().any(|d| d.anchor == a), call(env.funcs[0].anchor, 1, user(a)))
            };
            let plan = p.expr(e).unwrap();
            let (text, errs) = format(&plan)?;
            c.show(&text);
            c.nontrivial = !declared;
            c.label(if declared { "declared" } else { "undeclared anchor" });
            ensure!(errs.is_empty() == declared, "undeclared anchor not reported", "{a} {errs:?}\n{text}");
            if !declared {
                ensure!(text.contains("!{"), "undeclared anchor not shown", "{a}\n{text}");
                if let Ok(got) = parse(&text)? {
                    same_plan(&plan, &got, "undeclared reference read as something else", &text)?;
                }
            }
            Ok(())
        }
        _ => p11_lookup(c, &env),
    }
}

fn store(e: &Env) -> Result<SimpleExtensions, crate::runner::Fail> {
    sut("declare", || {
        let mut s = SimpleExtensions::new();
        for (a, u) in &e.urns {
            s.add_extension_urn(u.clone(), *a).unwrap();
        }
        for (k, ds) in [(ExtensionKind::Function, &e.funcs), (ExtensionKind::Type, &e.types), (ExtensionKind::TypeVariation, &e.vars)] {
            for d in ds {
                s.add_extension(k, d.urn, d.anchor, d.name.clone()).unwrap();
            }
        }
        s
    })
}

/// The lookups of the declaration set, against the same rules.
fn p11_lookup(c: &mut Case, env: &Env) -> R {
    let s = store(env)?;
    c.label("lookup");
    c.nontrivial = true;
    c.show(&format!("{env:?}"));
    for _ in 0..6 {
        let name = {
            let d = c.g.choose(&env.funcs);
            match c.g.usize(4) {
                0 => d.name,
                1 => d.base().to_string(),
                2 => format!("{}:{}", d.base(), c.g.pick(SIGS)),
                _ => c.g.pick(BASES).to_string(),
            }
        };
        let anchor = c.g.bool().then(|| any_anchor(&mut c.g, env));
        let want = resolve_func(env, &name, anchor);
        let got = sut("resolve_function", || s.resolve_function(&name, anchor).map(|r| (r.anchor, r.urn, r.name.full().to_string(), r.name_unique, r.base_name_unique)).ok())?;
        ensure!(got.as_ref().map(|g| g.0) == want, "lookup differs", "{name} {anchor:?}: {got:?}, expected {want:?}");
        if let Some((a, urn, full, nu, bu)) = got {
            let d = env.funcs.iter().find(|d| d.anchor == a).unwrap();
            let same = env.funcs.iter().filter(|o| o.name == d.name).count();
            let base = env.funcs.iter().filter(|o| o.base() == d.base()).count();
            ensure!((urn, full.as_str(), nu, bu) == (d.urn, d.name.as_str(), same == 1, base == 1), "lookup details differ", "{d:?}: {urn} {full} {nu} {bu}");
        }
        let a = any_anchor(&mut c.g, env);
        for (k, ds) in [(ExtensionKind::Function, &env.funcs), (ExtensionKind::Type, &env.types), (ExtensionKind::TypeVariation, &env.vars)] {
            let want = ds.iter().find(|d| d.anchor == a);
            let got = sut("find_by_anchor", || s.find_by_anchor(k, a).map(|(u, n)| (u, n.full().to_string())).ok())?;
            ensure!(got == want.map(|d| (d.urn, d.name.clone())), "find_by_anchor differs", "{k:?} {a}: {got:?}");
            let name = if ds.is_empty() { "json".to_string() } else { c.g.choose(ds).name };
            let m: Vec<u32> = ds.iter().filter(|d| d.name == name).map(|d| d.anchor).collect();
            let got = sut("find_by_name", || s.find_by_name(k, &name).ok())?;
            ensure!(got == if m.len() == 1 { Some(m[0]) } else { None }, "find_by_name differs", "{k:?} {name}: {got:?} of {m:?}");
            let got = sut("is_name_unique", || s.is_name_unique(k, a, &name).ok())?;
            let want = want.filter(|d| d.name == name).map(|_| m.len() == 1);
            ensure!(got == want, "is_name_unique differs", "{k:?} {a} {name}: {got:?}, expected {want:?}");
        }
    }
    Ok(())
}

pub const P11: Prop = Prop {
    id: "P11",
    quick: 300_000,
    thorough: 3_000_000,
    f: p11,
    rule: "a reference spelled in text, a lookup, an undeclared anchor, or a written reference among functions that share a base name",
    assumptions: &["a location written in a reference (`@n`) is the declared one"],
    known: &[],
};

// ---------------------------------------------------------------- P16

const KINDS: [ExtensionKind; 3] = [ExtensionKind::Function, ExtensionKind::Type, ExtensionKind::TypeVariation];

#[derive(Default, Clone, Debug)]
struct Model {
    urns: BTreeMap<u32, String>,
    decls: BTreeMap<(u32, usize), (u32, String)>,
}

impl Model {
    fn env(&self) -> Env {
        let mut e = Env::default();
        for (a, u) in &self.urns {
            e.urns.push((*a, u.clone()));
        }
        for ((a, k), (u, n)) in &self.decls {
            let d = Decl { anchor: *a, urn: *u, name: n.clone() };
            [&mut e.funcs, &mut e.types, &mut e.vars][*k].push(d);
        }
        e
    }
}

fn decl_name(g: &mut Gen, kind: usize) -> String {
    if kind == 0 {
        let b = g.pick(model::FUNC_BASES);
        if g.bool() { format!("{b}:{}", g.pick(model::SIGS)) } else { b.to_string() }
    } else {
        g.pick(model::TYPE_BASES).to_string()
    }
}

fn check_store(m: &Model, s: &SimpleExtensions, what: &str) -> R {
    let env = m.env();
    let (urns, decls) = env.protos();
    let got = sut("list", || (s.to_extension_urns(), s.to_extension_declarations(), s.is_empty()))?;
    ensure!(got.0 == urns, "locations differ", "{what}: {:?}, expected {urns:?}", got.0);
    ensure!(got.1 == decls, "declarations differ", "{what}: {:?}, expected {decls:?}", got.1);
    ensure!(got.2 == (urns.is_empty() && decls.is_empty()), "is_empty differs", "{what}");
    Ok(())
}

fn p16(c: &mut Case) -> R {
    // A history of insertions.
    let mut m = Model::default();
    let mut s = SimpleExtensions::new();
    let n = c.g.range(1, 12);
    let pool = c.g.choose(&[3u64, 6, 200]);
    let mut refused = 0;
    let mut log = vec![];
    let mut urn_protos = vec![];
    let mut decl_protos = vec![];
    for _ in 0..n {
        let a = if c.g.chance(1, 12) { c.g.choose(&[u32::MAX, 1 << 31, 0, 999, 1000]) } else { c.g.below(pool) as u32 };
        if c.g.chance(1, 3) {
            let u = c.g.pick(model::URNS).to_string();
            log.push(format!("urn {a} {u}"));
            let ok = sut("add_extension_urn", || s.add_extension_urn(u.clone(), a).is_ok())?;
            ensure!(ok != m.urns.contains_key(&a), "duplicate location anchor", "{log:?}: accepted {ok}");
            urn_protos.push(substrait::proto::extensions::SimpleExtensionUrn { extension_urn_anchor: a, urn: u.clone() });
            if ok {
                m.urns.insert(a, u);
            } else {
                refused += 1;
            }
        } else {
            let k = c.g.usize(3);
            let mut name = decl_name(&mut c.g, k);
            let prefixed = c.g.chance(1, 10);
            if prefixed {
                name = format!("u!{name}");
            }
            let urn = if !m.urns.is_empty() && c.g.chance(3, 4) {
                let keys: Vec<u32> = m.urns.keys().copied().collect();
                c.g.choose(&keys)
            } else {
                c.g.below(pool) as u32
            };
            log.push(format!("{:?} {a} @{urn} {name}", KINDS[k]));
            let ok = sut("add_extension", || s.add_extension(KINDS[k], urn, a, name.clone()).is_ok())?;
            let invalid = prefixed && k != 1;
            let duplicate = m.decls.contains_key(&(a, k));
            let missing = !m.urns.contains_key(&urn);
            ensure!(ok == !(invalid || duplicate || missing), "declaration accepted or refused wrongly", "{log:?}: accepted {ok}");
            refused += !ok as usize;
            // A declaration whose location is unknown is reported but kept, so
            // that it can be shown.
            if !invalid && !duplicate {
                m.decls.insert((a, k), (urn, name.strip_prefix("u!").unwrap_or(&name).to_string()));
            }
            let e = Env { urns: vec![], funcs: vec![], types: vec![], vars: vec![] };
            let mut e = e;
            [&mut e.funcs, &mut e.types, &mut e.vars][k].push(Decl { anchor: a, urn, name });
            decl_protos.extend(e.protos().1);
        }
        check_store(&m, &s, &format!("{log:?}"))?;
    }
    c.show(&log.join("\n"));
    c.nontrivial = n > 2;
    c.label(if refused > 0 { "history with refusals" } else { "history without refusals" });
    for (a, u) in &m.urns {
        let got = sut("find_urn", || s.find_urn(*a).map(String::from).ok())?;
        ensure!(got.as_deref() == Some(u), "find_urn differs", "{a}: {got:?}");
    }
    let absent = (0..).find(|a| !m.urns.contains_key(a)).unwrap();
    ensure!(sut("find_urn", || s.find_urn(absent).is_err())?, "find_urn finds what is not there", "{absent}");
    // The same history as lists. Locations come first there.
    let (all, errs) = sut("from_extensions", || SimpleExtensions::from_extensions(&urn_protos, &decl_protos))?;
    check_store(&m, &all, "from lists")?;
    if refused == 0 {
        ensure!(errs.is_empty(), "valid lists refused", "{errs:?}\n{log:?}");
    }
    let dup_or_bad = {
        let mut u = BTreeSet::new();
        let mut bad = urn_protos.iter().filter(|p| !u.insert(p.extension_urn_anchor)).count();
        let e = Env::of(&Plan { extensions: decl_protos.clone(), ..Default::default() });
        for (k, ds) in [&e.funcs, &e.types, &e.vars].into_iter().enumerate() {
            let mut seen = BTreeSet::new();
            for d in ds {
                let invalid = d.name.starts_with("u!") && k != 1;
                bad += (invalid || !u.contains(&d.urn) || seen.contains(&d.anchor)) as usize;
                if !invalid {
                    seen.insert(d.anchor);
                }
            }
        }
        bad
    };
    ensure!(errs.len() == dup_or_bad, "problems in lists not reported one by one", "{errs:?}, expected {dup_or_bad}\n{log:?}");
    // Written as a section.
    let indent = c.g.choose(&["  ", "    ", ""]);
    let written = sut("write", || s.to_string(indent))?;
    let plan = Plan { extension_urns: vec![], extensions: vec![], ..Default::default() };
    let mut w = W::new(&plan, None);
    w.env = m.env();
    w.indent = indent.to_string();
    let want = w.extensions();
    ensure!(written.trim_end() == want.trim_end(), "section differs from the documented form", "{}", text_diff(&want, &written));
    // And read back, if every location is declared.
    if m.decls.values().any(|(u, _)| !m.urns.contains_key(u)) {
        let text = format!("{}\n=== Plan\nRead[t => a:i64]\n", sut("write", || s.to_string("  "))?);
        if let Ok(p) = parse(&text)? {
            fail!("undeclared location accepted", "{text}\n{p:?}");
        }
        return Ok(());
    }
    let mut w = W::new(&plan, Some(&mut c.g));
    w.env = m.env();
    let styled = w.extensions();
    for section in [sut("write", || s.to_string("  "))?, styled] {
        let text = format!("{section}\n=== Plan\nRead[t => a:i64]\n");
        let got = must_parse(&text)?;
        let (u, d) = m.env().protos();
        ensure!(got.extension_urns == u && got.extensions == d, "section reads back as another set", "{text}\n{got:?}");
    }
    corrupt_section(c, &m, &w_canonical(&m))
}

fn w_canonical(m: &Model) -> String {
    let plan = Plan::default();
    let mut w = W::new(&plan, None);
    w.env = m.env();
    w.extensions()
}

/// One fault in the section makes it unreadable.
fn corrupt_section(c: &mut Case, m: &Model, section: &str) -> R {
    if m.urns.is_empty() || m.decls.is_empty() {
        return Ok(());
    }
    let mut lines: Vec<String> = section.trim_end().lines().map(String::from).collect();
    let g = &mut c.g;
    let is_decl = |l: &str| l.starts_with("  #");
    let is_urn = |l: &str| l.starts_with("  @");
    let pick = |g: &mut Gen, lines: &[String], f: &dyn Fn(&str) -> bool| -> usize {
        let v: Vec<usize> = (0..lines.len()).filter(|&i| f(&lines[i])).collect();
        g.choose(&v)
    };
    let d = pick(g, &lines, &is_decl);
    let u = pick(g, &lines, &is_urn);
    let free = (0..).find(|a| !m.urns.contains_key(a)).unwrap();
    let what = match g.usize(16) {
        14 | 15 => {
            // Marks that belong to another kind of declaration.
            let heading = lines[..d].iter().rev().find(|l| !l.starts_with(' ')).unwrap().clone();
            let (head, name) = lines[d].split_once(": ").unwrap();
            let base = name.trim_start_matches("u!").split(':').next().unwrap_or("f").to_string();
            let base = if base.is_empty() { "f".to_string() } else { base };
            if heading == "Functions:" || (heading == "Type Variations:" && g.bool()) {
                lines[d] = format!("{head}: u!{}", if heading == "Functions:" && g.bool() { name.trim_start_matches("u!") } else { &base });
                "user type mark on another declaration"
            } else {
                lines[d] = format!("{head}: {base}{}", g.pick(&[":", ":i64", ":any_any", ":i64_str", ":u!x", "::"]));
                "signature on a type"
            }
        }
        0 => {
            // Same anchor, another name.
            let (head, _) = lines[d].rsplit_once(": ").unwrap();
            let l = format!("{head}: other");
            let at = g.range(d, d + 1);
            lines.insert(at, l);
            "duplicate anchor"
        }
        1 => {
            let l = lines[u].clone();
            lines.insert(u, l);
            "duplicate location"
        }
        2 => {
            let (head, tail) = lines[d].split_once('@').unwrap();
            let (_, name) = tail.split_once(':').unwrap();
            lines[d] = format!("{head}@{free}:{name}");
            "undeclared location"
        }
        3 => {
            lines[d] = lines[d].replacen(": ", " ", 1);
            "no colon"
        }
        4 => {
            let (head, _) = lines[d].split_once(": ").unwrap();
            lines[d] = format!("{head}:");
            "no name"
        }
        5 => {
            lines[d] = format!("  {}", lines[d].trim_start().trim_start_matches('#'));
            "no mark"
        }
        6 => {
            let l = lines.remove(d);
            lines.insert(u, l);
            "declaration among locations"
        }
        7 => {
            let l = lines.remove(u);
            // Far enough down to be under a declaration heading.
            lines.push(l.clone());
            "location among declarations"
        }
        8 => {
            lines[d] = format!("{}{}", lines[d], g.pick(&[" x", "!", "#1", ":x:y", " @1", "(", "-1", ".a", "'"]));
            "trailing text"
        }
        9 => {
            let bad = g.pick(&["-1", "4294967296", "x", "", "1.5", "99999999999999999999", "0x1"]);
            let (_, tail) = lines[d].split_once('@').unwrap();
            lines[d] = format!("  #{bad} @{tail}");
            "malformed anchor"
        }
        10 => {
            let bad = g.pick(&["-1", "4294967296", "x", "", "1.5", "99999999999999999999"]);
            lines[u] = format!("  @{bad}: urn");
            "malformed location anchor"
        }
        11 => {
            lines[d] = lines[d].trim_start().to_string();
            "no indentation"
        }
        12 => {
            lines[d] = format!("  {}", lines[d]);
            "too much indentation"
        }
        _ => {
            let h = pick(g, &lines, &|l| l.ends_with(':') && !l.starts_with(' '));
            lines[h] = g.pick(&["Function:", "functions:", "Functions", "Type variations:", "Things:", "URN:", "Functions: x"]).to_string();
            "unknown heading"
        }
    };
    // A name may end in digits, so some trailing texts extend it.
    let text = format!("{}\n\n=== Plan\nRead[t => a:i64]\n", lines.join("\n"));
    c.label(format!("section fault: {what}"));
    c.show(&text);
    if let Ok(got) = parse(&text)? {
        fail!("faulty declaration accepted", "{what}\n{text}\n{got:?}");
    }
    Ok(())
}

pub const P16: Prop = Prop {
    id: "P16",
    quick: 300_000,
    thorough: 2_000_000,
    f: p16,
    rule: "a history of at least three insertions",
    assumptions: &["locations are single-line texts without leading or trailing spaces"],
    known: &[],
};
