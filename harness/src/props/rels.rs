//! Output columns of relations, and aggregates.

#![allow(deprecated)]

use prost::Message;
use substrait::proto::aggregate_rel::{Grouping, Measure};
use substrait::proto::expression::{FieldReference, RexType, ScalarFunction, field_reference, reference_segment};
use substrait::proto::plan_rel::RelType as PlanRelType;
use substrait::proto::read_rel::ReadType;
use substrait::proto::rel::RelType;
use substrait::proto::rel_common::{Direct, Emit, EmitKind};
use substrait::proto::{AggregateFunction, AggregateRel, Expression, Plan, PlanRel, Rel, RelCommon, RelRoot};

use super::core::{format, must_parse, parse, same_plan, text_diff};
use crate::r#gen::Gen;
use crate::model::{self, Cfg, Env, common, direct, field_expr, rel_of};
use crate::render::{self, W, width};
use crate::runner::{Case, Fail, Known, Prop, R};
use crate::{ensure, fail};

/// What a tree computes: each relation with its output columns spelled out,
/// whatever way the plan stores them.
#[derive(PartialEq, Debug)]
pub struct Meaning {
    head: String,
    outputs: Vec<String>,
    inputs: Vec<Meaning>,
}

fn emitted(c: &Option<RelCommon>, direct: usize) -> Vec<i32> {
    match c.as_ref().and_then(|c| c.emit_kind.as_ref()) {
        Some(EmitKind::Emit(e)) => e.output_mapping.clone(),
        _ => (0..direct as i32).collect(),
    }
}

fn columns(c: &Option<RelCommon>, direct: usize) -> Vec<String> {
    emitted(c, direct).iter().map(|i| format!("${i}")).collect()
}

pub fn column_of(e: &Expression) -> Option<i32> {
    let Some(RexType::Selection(f)) = &e.rex_type else { return None };
    let FieldReference { reference_type: Some(field_reference::ReferenceType::DirectReference(s)), .. } = f.as_ref() else { return None };
    match &s.reference_type {
        Some(reference_segment::ReferenceType::StructField(f)) if f.child.is_none() => Some(f.field),
        _ => None,
    }
}

fn spell(e: &Expression) -> String {
    match column_of(e) {
        Some(i) => format!("${i}"),
        None => format!("{:?}", e.encode_to_vec()),
    }
}

/// The grouping sets of an aggregation, as expressions.
fn sets(a: &AggregateRel) -> Vec<Vec<String>> {
    if a.grouping_expressions.is_empty() && a.groupings.iter().any(|g| !g.grouping_expressions.is_empty()) {
        return a.groupings.iter().map(|g| g.grouping_expressions.iter().map(spell).collect()).collect();
    }
    if a.groupings.is_empty() {
        return vec![vec![]];
    }
    a.groupings
        .iter()
        .map(|g| g.expression_references.iter().map(|&i| a.grouping_expressions.get(i as usize).map_or("?".into(), spell)).collect())
        .collect()
}

/// The columns an aggregation has before its output mapping.
fn aggregate_columns(a: &AggregateRel) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if a.grouping_expressions.is_empty() {
        for g in &a.groupings {
            for e in &g.grouping_expressions {
                let s = spell(e);
                if !v.contains(&s) {
                    v.push(s);
                }
            }
        }
    } else {
        v.extend(a.grouping_expressions.iter().map(spell));
    }
    v.extend(a.measures.iter().map(|m| format!("measure {:?}", m.measure.as_ref().map(|f| f.encode_to_vec()))));
    v
}

fn pick(columns: &[String], m: Vec<i32>) -> Vec<String> {
    m.into_iter().map(|i| usize::try_from(i).ok().and_then(|i| columns.get(i)).map_or(format!("?{i}"), |s| s.clone())).collect()
}

pub fn meaning(r: &Rel) -> Meaning {
    let mut kind = r.rel_type.clone().expect("relation");
    let mut inputs = vec![];
    let mut outputs = vec![];
    macro_rules! one {
        ($r:expr) => {{
            let i = $r.input.take().expect("input");
            outputs = columns(&$r.common.take(), width(&i));
            inputs.push(meaning(&i));
        }};
    }
    match &mut kind {
        RelType::Read(r) => outputs = columns(&r.common.take(), r.base_schema.as_ref().map_or(0, |s| s.names.len())),
        RelType::Filter(r) => one!(r),
        RelType::Sort(r) => one!(r),
        RelType::Fetch(r) => one!(r),
        RelType::Project(r) => {
            let i = r.input.take().expect("input");
            let w = width(&i);
            let all: Vec<String> = (0..w).map(|i| format!("${i}")).chain(r.expressions.drain(..).map(|e| spell(&e))).collect();
            let n = all.len();
            outputs = pick(&all, emitted(&r.common.take(), n));
            inputs.push(meaning(&i));
        }
        RelType::Aggregate(a) => {
            let all = aggregate_columns(a);
            outputs = pick(&all, emitted(&a.common, all.len()));
            let i = a.input.take().expect("input");
            inputs.push(meaning(&i));
            return Meaning { head: format!("Aggregate {:?} {:?}", sets(a), a.advanced_extension), outputs, inputs };
        }
        RelType::Join(r) => {
            let (a, b) = (r.left.take().expect("left"), r.right.take().expect("right"));
            outputs = columns(&r.common.take(), model::join_width(r.r#type, width(&a), width(&b)));
            inputs = vec![meaning(&a), meaning(&b)];
        }
        RelType::Cross(r) => {
            let (a, b) = (r.left.take().expect("left"), r.right.take().expect("right"));
            outputs = columns(&r.common.take(), width(&a) + width(&b));
            inputs = vec![meaning(&a), meaning(&b)];
        }
        RelType::Set(r) => {
            outputs = columns(&r.common.take(), r.inputs.first().map_or(0, width));
            inputs = r.inputs.drain(..).map(|i| meaning(&i)).collect();
        }
        RelType::ExtensionLeaf(r) => r.common = None,
        RelType::ExtensionSingle(r) => {
            r.common = None;
            inputs.push(meaning(&r.input.take().expect("input")));
        }
        RelType::ExtensionMulti(r) => {
            r.common = None;
            inputs = r.inputs.drain(..).map(|i| meaning(&i)).collect();
        }
        other => unreachable!("{other:?}"),
    }
    Meaning { head: format!("{kind:?}"), outputs, inputs }
}

pub fn tops(p: &Plan) -> Vec<&Rel> {
    p.relations
        .iter()
        .map(|r| match r.rel_type.as_ref().expect("relation") {
            PlanRelType::Rel(r) => r,
            PlanRelType::Root(r) => r.input.as_ref().expect("input"),
        })
        .collect()
}

pub fn tops_mut(p: &mut Plan) -> Vec<&mut Rel> {
    p.relations
        .iter_mut()
        .map(|r| match r.rel_type.as_mut().expect("relation") {
            PlanRelType::Rel(r) => r,
            PlanRelType::Root(r) => r.input.as_mut().expect("input"),
        })
        .collect()
}

fn same_meaning(a: &Plan, b: &Plan, text: &str) -> R {
    let m = |p: &Plan| tops(p).into_iter().map(meaning).collect::<Vec<_>>();
    let (x, y) = (m(a), m(b));
    if x == y {
        return Ok(());
    }
    fn first<'a>(x: &'a Meaning, y: &'a Meaning) -> Option<(&'a Meaning, &'a Meaning)> {
        if x.head != y.head || x.outputs != y.outputs || x.inputs.len() != y.inputs.len() {
            return Some((x, y));
        }
        x.inputs.iter().zip(&y.inputs).find_map(|(a, b)| first(a, b))
    }
    let (p, q) = x.iter().zip(&y).find_map(|(a, b)| first(a, b)).unwrap_or((&x[0], &y[0]));
    Err(Fail::new("the text means other columns", format!("{text}\nplan: {} => {:?}\ntext: {} => {:?}", p.head, p.outputs, q.head, q.outputs)))
}

/// Every relation of a tree.
pub fn walk(r: &mut Rel, f: &mut dyn FnMut(&mut Rel)) {
    f(r);
    for i in children(r) {
        walk(i, f);
    }
}

pub fn children(r: &mut Rel) -> Vec<&mut Rel> {
    match r.rel_type.as_mut() {
        Some(RelType::Filter(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::Sort(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::Fetch(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::Project(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::Aggregate(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::ExtensionSingle(r)) => r.input.as_deref_mut().into_iter().collect(),
        Some(RelType::Join(r)) => r.left.as_deref_mut().into_iter().chain(r.right.as_deref_mut()).collect(),
        Some(RelType::Cross(r)) => r.left.as_deref_mut().into_iter().chain(r.right.as_deref_mut()).collect(),
        Some(RelType::Set(r)) => r.inputs.iter_mut().collect(),
        Some(RelType::ExtensionMulti(r)) => r.inputs.iter_mut().collect(),
        _ => vec![],
    }
}

pub fn common_mut(r: &mut Rel) -> &mut Option<RelCommon> {
    match r.rel_type.as_mut().expect("relation") {
        RelType::Read(r) => &mut r.common,
        RelType::Filter(r) => &mut r.common,
        RelType::Sort(r) => &mut r.common,
        RelType::Fetch(r) => &mut r.common,
        RelType::Project(r) => &mut r.common,
        RelType::Aggregate(r) => &mut r.common,
        RelType::Join(r) => &mut r.common,
        RelType::Cross(r) => &mut r.common,
        RelType::Set(r) => &mut r.common,
        RelType::ExtensionLeaf(r) => &mut r.common,
        RelType::ExtensionSingle(r) => &mut r.common,
        RelType::ExtensionMulti(r) => &mut r.common,
        other => unreachable!("{other:?}"),
    }
}

fn named_table(r: &Rel) -> bool {
    matches!(&r.rel_type, Some(RelType::Read(r)) if matches!(r.read_type, Some(ReadType::NamedTable(_))))
}

/// The columns of a relation before its output mapping.
fn direct_width(r: &Rel) -> usize {
    let mut r = r.clone();
    *common_mut(&mut r) = None;
    width(&r)
}

/// Another way to store the same columns. Says whether it changed anything.
fn restate(g: &mut Gen, r: &mut Rel) -> bool {
    let mut changed = false;
    if let Some(RelType::Project(p)) = &mut r.rel_type
        && g.bool()
    {
        // Computed columns in another order, repeated or never used.
        let w = width(p.input.as_ref().unwrap());
        let m = emitted(&p.common, w + p.expressions.len());
        let old = p.expressions.clone();
        let mut new: Vec<Expression> = old.clone();
        let mut place: Vec<usize> = (0..old.len()).collect();
        for _ in 0..g.count(4) {
            let e = if !old.is_empty() && g.bool() { g.choose(&old) } else { field_expr(g.below(7) as i32) };
            let at = g.usize(new.len() + 1);
            new.insert(at, e);
            place.iter_mut().for_each(|p| *p += (*p >= at) as usize);
        }
        if new.len() > 1 && g.bool() {
            let (a, b) = (g.usize(new.len()), g.usize(new.len()));
            new.swap(a, b);
            place.iter_mut().for_each(|p| *p = if *p == a { b } else if *p == b { a } else { *p });
        }
        let m: Vec<i32> = m
            .into_iter()
            .map(|i| {
                if (i as usize) < w {
                    // A column of the input may also be a computed one.
                    if g.chance(1, 6) {
                        new.push(field_expr(i));
                        (w + new.len() - 1) as i32
                    } else {
                        i
                    }
                } else {
                    (w + place[i as usize - w]) as i32
                }
            })
            .collect();
        p.expressions = new;
        p.common = common(EmitKind::Emit(Emit { output_mapping: m }));
        changed = true;
    }
    let n = direct_width(r);
    let named = named_table(r);
    let c = common_mut(r);
    let identity = emitted(c, n).into_iter().eq(0..n as i32);
    let stored = matches!(c.as_ref().and_then(|c| c.emit_kind.as_ref()), Some(EmitKind::Emit(_)));
    if identity && !(named && stored) {
        let new = match g.usize(if named { 3 } else { 4 }) {
            0 => None,
            1 => Some(RelCommon::default()),
            2 => direct(),
            _ => common(EmitKind::Emit(Emit { output_mapping: (0..n as i32).collect() })),
        };
        changed |= new != *c;
        *c = new;
    }
    changed
}

fn wide() -> Cfg {
    Cfg { rel_depth: 4, expr_depth: 1, max_cols: 4, ext: true, ..Cfg::default() }
}

/// A tree under a relation of a chosen kind, so that every kind has inputs of
/// every other kind.
fn plan_of(g: &mut Gen, cfg: &Cfg, which: Option<usize>) -> Plan {
    let Some(which) = which else { return model::plan(g, cfg) };
    let env = model::env(g, cfg);
    let (mut r, mut w) = model::rel_kind(g, cfg, &env, cfg.rel_depth, which);
    for _ in 0..g.usize(3) {
        // Something above that shows how wide it is.
        let k = g.usize(3);
        r = match k {
            0 => rel_of(RelType::Filter(Box::new(substrait::proto::FilterRel { common: direct(), condition: Some(Box::new(field_expr(0))), input: Some(Box::new(r)), advanced_extension: None }))),
            1 => rel_of(RelType::Fetch(Box::new(substrait::proto::FetchRel { common: direct(), input: Some(Box::new(r)), ..Default::default() }))),
            _ => {
                let (left, lw) = model::rel(g, cfg, &env, 1);
                let t = 1 + g.below(12) as i32;
                let swap = g.bool();
                let (a, b) = if swap { (r, left) } else { (left, r) };
                let n = if swap { model::join_width(t, w, lw) } else { model::join_width(t, lw, w) };
                w = n;
                rel_of(RelType::Join(Box::new(substrait::proto::JoinRel {
                    common: direct(),
                    left: Some(Box::new(a)),
                    right: Some(Box::new(b)),
                    expression: Some(Box::new(field_expr(0))),
                    r#type: t,
                    ..Default::default()
                })))
            }
        };
    }
    let rel_type = if g.bool() { PlanRelType::Rel(r) } else { PlanRelType::Root(RelRoot { input: Some(r), names: (0..w).map(|i| format!("c{i}")).collect() }) };
    let (extension_urns, extensions) = env.protos();
    Plan { extension_urns, extensions, relations: vec![PlanRel { rel_type: Some(rel_type) }], ..Default::default() }
}

fn p12(c: &mut Case) -> R {
    let which = c.g.chance(3, 4).then(|| c.g.choose(&[5, 5, 7, 6, 1, 1, 1, 0, 2, 3, 4, 8]));
    let plan = plan_of(&mut c.g, &wide(), which);
    let want = render::canonical(&plan);
    match c.g.weighted(&[2, 4, 2]) {
        0 => {
            // Both directions, as stored.
            c.label("as written");
            c.show(&want);
            let (text, errs) = format(&plan)?;
            ensure!(errs.is_empty(), "errors for a representable plan", "{errs:?}\n{text}");
            ensure!(text == want, "columns are written differently", "{}", text_diff(&want, &text));
            same_plan(&plan, &must_parse(&want)?, "columns are read differently", &want)?;
            let styled = render::styled(&plan, &mut c.g);
            same_plan(&plan, &must_parse(&styled)?, "columns are read differently", &styled)?;
            c.nontrivial = remaps(&plan) > 0;
        }
        1 => {
            c.label("stored another way");
            let mut other = plan.clone();
            let mut changed = false;
            for r in tops_mut(&mut other) {
                walk(r, &mut |r| changed |= c.g.chance(2, 3) && restate(&mut c.g, r));
            }
            c.nontrivial = changed;
            c.show(&format!("{want}\n{other:?}"));
            same_meaning(&plan, &other, "harness: restated plan")?;
            let (text, errs) = format(&other)?;
            ensure!(errs.is_empty(), "errors for a representable plan", "{errs:?}\n{text}");
            let back = must_parse(&text)?;
            same_meaning(&other, &back, &text)?;
            ensure!(text == want, "the same columns are written differently", "{}", text_diff(&want, &text));
        }
        _ => {
            // One mapping that no text expresses.
            let mut other = plan.clone();
            let mut count = 0;
            for r in tops_mut(&mut other) {
                walk(r, &mut |r| count += usize::from(!named_table(r)));
            }
            if count == 0 {
                return Ok(());
            }
            let target = c.g.usize(count);
            let mut at = 0;
            let mut what = String::new();
            for r in tops_mut(&mut other) {
                walk(r, &mut |r| {
                    if named_table(r) {
                        return;
                    }
                    if at == target {
                        what = break_mapping(&mut c.g, r);
                    }
                    at += 1;
                });
            }
            c.label(format!("inexpressible: {}", what.split(' ').next().unwrap()));
            c.show(&format!("{what}\n{want}"));
            c.nontrivial = true;
            let (text, errs) = format(&other)?;
            ensure!(!errs.is_empty(), "inexpressible mapping not reported", "{what}\n{text}");
            ensure!(text.contains("!{"), "inexpressible mapping not shown", "{what}\n{text}");
            if let Ok(back) = parse(&text)? {
                fail!("inexpressible mapping read as something", "{what}\n{text}\n{back:?}")
            }
        }
    }
    Ok(())
}

fn remaps(p: &Plan) -> usize {
    let mut p = p.clone();
    let mut n = 0;
    for r in tops_mut(&mut p) {
        walk(r, &mut |r| n += usize::from(matches!(common_mut(r).as_ref().and_then(|c| c.emit_kind.as_ref()), Some(EmitKind::Emit(_)))));
    }
    n
}

fn break_mapping(g: &mut Gen, r: &mut Rel) -> String {
    let n = direct_width(r) as i32;
    let whole = matches!(&r.rel_type, Some(RelType::ExtensionLeaf(_) | RelType::ExtensionSingle(_) | RelType::ExtensionMulti(_) | RelType::Read(_)));
    let c = common_mut(r);
    let mut m = emitted(c, n as usize);
    if whole && g.bool() {
        // Only the identity can be written here.
        loop {
            m = model::mapping(g, n as usize);
            if !m.iter().copied().eq(0..n) {
                break;
            }
            if n == 0 {
                m = vec![0];
                break;
            }
            m.push(0);
        }
        *c = common(EmitKind::Emit(Emit { output_mapping: m.clone() }));
        return format!("remapped {m:?} of {n} columns");
    }
    let bad = match g.usize(4) {
        0 => n,
        1 => n + 1 + g.below(3) as i32,
        2 => -1 - g.below(3) as i32,
        _ => g.choose(&[i32::MAX, i32::MIN, -1, n]),
    };
    let at = g.usize(m.len() + 1);
    if at < m.len() && g.bool() {
        m[at] = bad;
    } else {
        m.insert(at, bad);
    }
    *c = common(EmitKind::Emit(Emit { output_mapping: m.clone() }));
    format!("out-of-range {m:?} of {n} columns")
}

pub const P12: Prop = Prop {
    id: "P12",
    quick: 50_000,
    thorough: 1_500_000,
    f: p12,
    rule: "the plan remaps columns somewhere, stores its columns in a non-canonical way, or has a mapping that no text expresses",
    assumptions: &["the explicit mapping of a named table is always written, even when it is the identity"],
    known: &[],
};

// ---------------------------------------------------------------- P13

fn agg_env(g: &mut Gen) -> Env {
    let mut env = model::env(g, &Cfg::default());
    if env.funcs.len() < 2 {
        env = super::slots::slot_env();
        env.types.retain(|d| d.name != super::slots::TYPE_HOLE);
    }
    env
}

fn as_call(f: &AggregateFunction) -> Vec<u8> {
    Expression {
        rex_type: Some(RexType::ScalarFunction(ScalarFunction {
            function_reference: f.function_reference,
            arguments: f.arguments.clone(),
            output_type: f.output_type.clone(),
            options: vec![],
            args: vec![],
        })),
    }
    .encode_to_vec()
}

fn measure(g: &mut Gen, cfg: &Cfg, env: &Env, w: usize) -> Measure {
    let f = model::func(g, cfg, env, w, 1);
    Measure { measure: Some(AggregateFunction { function_reference: f.function_reference, arguments: f.arguments, output_type: f.output_type, ..Default::default() }), filter: None }
}

fn grouping_expr(g: &mut Gen, cfg: &Cfg, env: &Env, w: usize) -> Expression {
    match g.weighted(&[5, 2, 3]) {
        0 => field_expr(g.usize(w.max(1) + 1) as i32),
        1 => Expression { rex_type: Some(RexType::ScalarFunction(model::func(g, cfg, env, w, 1))) },
        _ => model::expr(g, cfg, env, w, 2),
    }
}

/// An aggregation stored in any way the message allows.
fn arbitrary(g: &mut Gen, cfg: &Cfg, env: &Env, input: Rel, faults: bool) -> AggregateRel {
    let w = width(&input);
    let mut pool: Vec<Expression> = vec![];
    for _ in 0..1 + g.many(4) {
        let e = match if pool.is_empty() { 2 } else { g.weighted(&[1, 2, 6]) } {
            0 => g.choose(&pool),
            1 => {
                let e = g.choose(&pool);
                model::near(g, env, &e)
            }
            _ => grouping_expr(g, cfg, env, w),
        };
        pool.push(e);
    }
    if g.chance(1, 8) {
        pool.clear();
    }
    let nm = g.many(4);
    let mut measures: Vec<Measure> = vec![];
    for _ in 0..nm {
        let m = if !measures.is_empty() && g.chance(1, 5) { g.choose(&measures) } else { measure(g, cfg, env, w) };
        if !pool.iter().any(|e| e.encode_to_vec() == as_call(m.measure.as_ref().unwrap())) {
            measures.push(m);
        }
    }
    let nsets = g.weighted(&[1, 4, 3, 2, 1]);
    let deprecated = !pool.is_empty() && g.chance(1, 4);
    let mut groupings = vec![];
    for _ in 0..nsets {
        let n = if pool.is_empty() { 0 } else { g.count(pool.len() + 2) };
        let refs: Vec<u32> = (0..n).map(|_| g.usize(pool.len()) as u32).collect();
        groupings.push(if deprecated {
            Grouping { grouping_expressions: refs.iter().map(|&i| pool[i as usize].clone()).collect(), expression_references: vec![] }
        } else {
            Grouping { grouping_expressions: vec![], expression_references: refs }
        });
    }
    if faults && !deprecated && !groupings.is_empty() && g.bool() {
        let i = g.usize(groupings.len());
        let n = pool.len() as u32;
        let bad = g.choose(&[n, n + 1, u32::MAX, i32::MAX as u32 + 1]);
        let at = g.usize(groupings[i].expression_references.len() + 1);
        groupings[i].expression_references.insert(at, bad);
    }
    let mut a = AggregateRel {
        common: None,
        input: Some(Box::new(input)),
        groupings,
        measures,
        grouping_expressions: if deprecated { vec![] } else { pool },
        advanced_extension: None,
    };
    if faults && !a.measures.is_empty() && g.chance(1, 3) {
        let i = g.usize(a.measures.len());
        a.measures[i].measure = None;
    }
    let n = aggregate_columns(&a).len();
    a.common = match g.weighted(&[2, 1, 1, 6]) {
        0 => direct(),
        1 => None,
        2 => Some(RelCommon { emit_kind: Some(EmitKind::Direct(Direct {})), ..Default::default() }),
        _ => {
            let mut m = model::mapping(g, n);
            if faults && g.bool() {
                let bad = g.choose(&[n as i32, n as i32 + 1, -1, i32::MAX, i32::MIN]);
                let at = g.usize(m.len() + 1);
                m.insert(at, bad);
            }
            common(EmitKind::Emit(Emit { output_mapping: m }))
        }
    };
    a
}

/// Whether some part of the aggregation cannot be written.
fn inexpressible(a: &AggregateRel) -> Option<&'static str> {
    let s = sets(a);
    if s.iter().flatten().any(|e| e == "?") {
        return Some("a grouping set refers to no expression");
    }
    let cols = aggregate_columns(a);
    for i in emitted(&a.common, cols.len()) {
        let Some(col) = usize::try_from(i).ok().and_then(|i| cols.get(i)) else { return Some("an output refers to no column") };
        if col == "measure None" {
            return Some("a measure without function");
        }
        if !col.starts_with("measure ") && !s.iter().flatten().any(|e| e == col) {
            return Some("an output in no grouping set");
        }
    }
    None
}

fn over(g: &mut Gen, r: Rel) -> Rel {
    match g.usize(3) {
        0 => r,
        1 => rel_of(RelType::Filter(Box::new(substrait::proto::FilterRel { common: direct(), condition: Some(Box::new(field_expr(0))), input: Some(Box::new(r)), advanced_extension: None }))),
        _ => {
            let w = width(&r);
            rel_of(RelType::Project(Box::new(substrait::proto::ProjectRel {
                common: model::emit_for((0..=w as i32).rev().collect(), w + 1),
                expressions: vec![super::slots::string_lit("p")],
                input: Some(Box::new(r)),
                advanced_extension: None,
            })))
        }
    }
}

fn single(env: &Env, r: Rel) -> Plan {
    let (extension_urns, extensions) = env.protos();
    Plan { extension_urns, extensions, relations: vec![PlanRel { rel_type: Some(PlanRelType::Rel(r)) }], ..Default::default() }
}

fn p13(c: &mut Case) -> R {
    let cfg = Cfg { rel_depth: 1, expr_depth: 1, max_cols: 3, ext: false, ..Cfg::default() };
    let env = agg_env(&mut c.g);
    let (base, _) = model::rel(&mut c.g, &cfg, &env, 1);
    match c.g.weighted(&[4, 2, 2, 3]) {
        k @ (0 | 1) => {
            // Plan to text and back.
            let inner = if c.g.chance(1, 3) {
                let (a, _) = model::aggregate(&mut c.g, &cfg, &env, base, 2);
                rel_of(RelType::Aggregate(Box::new(a)))
            } else {
                base
            };
            let a = arbitrary(&mut c.g, &cfg, &env, inner, k == 1);
            let bad = inexpressible(&a);
            c.label(format!("{} sets", sets(&a).len()));
            if let Some(b) = bad {
                c.label(b);
            }
            c.nontrivial = bad.is_some() || a.groupings.len() > 1 || !a.grouping_expressions.is_empty();
            let agg = rel_of(RelType::Aggregate(Box::new(a.clone())));
            let plan = single(&env, over(&mut c.g, agg));
            let (text, errs) = format(&plan)?;
            c.show(&format!("{text}\n{:?}", plan.relations));
            ensure!(errs.is_empty() == bad.is_none(), if bad.is_some() { "inexpressible aggregation not reported" } else { "errors for a representable aggregation" }, "{bad:?} {errs:?}\n{text}");
            if let Some(bad) = bad {
                ensure!(text.contains("!{"), "inexpressible aggregation not shown", "{bad}\n{text}");
                if parse(&text)?.is_ok() {
                    fail!("inexpressible aggregation read as something", "{bad}\n{text}")
                }
                return Ok(());
            }
            let line = aggregate_line(&mut W::new(&plan, None), &a);
            ensure!(text.lines().any(|l| l.trim_start() == line), "the aggregation is not written as documented", "expected {line}\n{text}");
            same_meaning(&plan, &must_parse(&text)?, &text)
        }
        2 => {
            // The canonical form, exactly.
            let w = width(&base);
            let (a, _) = model::aggregate(&mut c.g, &cfg, &env, base, w);
            c.label(format!("canonical, {} sets", a.groupings.len()));
            c.nontrivial = a.groupings.len() > 1 || !a.grouping_expressions.is_empty();
            let plan = single(&env, rel_of(RelType::Aggregate(Box::new(a))));
            let want = render::canonical(&plan);
            c.show(&want);
            let (text, errs) = format(&plan)?;
            ensure!(errs.is_empty(), "errors for a representable aggregation", "{errs:?}\n{text}");
            ensure!(text == want, "the aggregation is written differently", "{}", text_diff(&want, &text));
            let styled = render::styled(&plan, &mut c.g);
            same_plan(&plan, &must_parse(&styled)?, "the aggregation is read differently", &styled)
        }
        _ => written(c, &cfg, &env, base),
    }
}

/// `Aggregate[sets => outputs]` of any aggregation that can be written.
fn aggregate_line(w: &mut W, a: &AggregateRel) -> String {
    let mut spelled: Vec<(String, String)> = vec![];
    let mut sets_text: Vec<Vec<String>> = vec![];
    let all: Vec<Vec<Expression>> = if a.grouping_expressions.is_empty() && a.groupings.iter().any(|g| !g.grouping_expressions.is_empty()) {
        a.groupings.iter().map(|g| g.grouping_expressions.clone()).collect()
    } else if a.groupings.is_empty() {
        vec![vec![]]
    } else {
        a.groupings.iter().map(|g| g.expression_references.iter().map(|&i| a.grouping_expressions[i as usize].clone()).collect()).collect()
    };
    for s in &all {
        let mut t = vec![];
        for e in s {
            let x = w.expr(e);
            spelled.push((spell(e), x.clone()));
            t.push(x);
        }
        sets_text.push(t);
    }
    let one = sets_text.len() == 1;
    let head: Vec<String> = sets_text.iter().map(|s| if s.is_empty() { "_".into() } else if one { s.join(", ") } else { format!("({})", s.join(", ")) }).collect();
    let cols = aggregate_columns(a);
    let first_measure = cols.len() - a.measures.len();
    let out: Vec<String> = emitted(&a.common, cols.len())
        .into_iter()
        .map(|i| {
            let i = i as usize;
            if i >= first_measure {
                let f = a.measures[i - first_measure].measure.as_ref().unwrap();
                w.expr(&Expression::decode(&as_call(f)[..]).unwrap())
            } else {
                spelled.iter().find(|(k, _)| *k == cols[i]).unwrap().1.clone()
            }
        })
        .collect();
    format!("Aggregate[{} => {}]", head.join(", "), out.join(", "))
}

/// Text to plan, built from the text's own parts.
fn written(c: &mut Case, cfg: &Cfg, env: &Env, base: Rel) -> R {
    let w = width(&base);
    let g = &mut c.g;
    let mut pool: Vec<Expression> = vec![];
    for _ in 0..1 + g.many(4) {
        let e = if !pool.is_empty() && g.chance(1, 4) {
            let e = g.choose(&pool);
            model::near(g, env, &e)
        } else {
            grouping_expr(g, cfg, env, w)
        };
        if !pool.iter().any(|p| p.encode_to_vec() == e.encode_to_vec()) {
            pool.push(e);
        }
    }
    let nsets = 1 + g.many(4);
    let plain = nsets == 1 && g.bool();
    let sets: Vec<Vec<usize>> = (0..nsets)
        .map(|_| {
            let n = if plain { 1 + g.count(4) } else { g.count(5) };
            (0..n).map(|_| g.usize(pool.len())).collect()
        })
        .collect();
    let mut order: Vec<usize> = vec![];
    for &i in sets.iter().flatten() {
        if !order.contains(&i) {
            order.push(i);
        }
    }
    // Outputs: grouping expressions, measures, and perhaps something that is
    // neither.
    let mut measures: Vec<AggregateFunction> = vec![];
    let mut outs: Vec<Result<usize, Expression>> = vec![];
    let mut mapping: Vec<i32> = vec![];
    for _ in 0..g.many(6) {
        if !order.is_empty() && g.bool() {
            let at = g.usize(order.len());
            outs.push(Ok(order[at]));
            mapping.push(at as i32);
        } else {
            let m = if !measures.is_empty() && g.chance(1, 4) { g.choose(&measures) } else { measure(g, cfg, env, w).measure.unwrap() };
            let call = as_call(&m);
            if order.iter().any(|&i| pool[i].encode_to_vec() == call) {
                continue;
            }
            outs.push(Err(Expression::decode(&call[..]).unwrap()));
            mapping.push((order.len() + measures.len()) as i32);
            measures.push(m);
        }
    }
    let mut tries = 0;
    let stray = g.chance(1, 5).then(|| loop {
        let e = match g.usize(4) {
            3 if !order.is_empty() => {
                // Almost a grouping expression.
                let i = g.choose(&order);
                let e = model::near(g, env, &pool[i]);
                if matches!(e.rex_type, Some(RexType::ScalarFunction(_))) { field_expr(11 + g.below(3) as i32) } else { e }
            }
            0 => field_expr(g.below(9) as i32),
            1 => super::slots::string_lit("stray"),
            _ => model::literal(g, cfg, env).pipe(model::lit_expr),
        };
        if !order.iter().any(|&i| pool[i].encode_to_vec() == e.encode_to_vec()) {
            break e;
        }
        tries += 1;
        if tries > 20 {
            break super::slots::string_lit("no such output");
        }
    });
    if let Some(e) = &stray {
        let at = g.usize(outs.len() + 1);
        outs.insert(at, Err(e.clone()));
    }
    let plan_env = single(env, base.clone());
    let mut wr = W::new(&plan_env, None);
    let mut head = vec![];
    for s in &sets {
        let t: Vec<String> = s.iter().map(|&i| wr.expr(&pool[i])).collect();
        head.push(if t.is_empty() { "_".into() } else if plain { t.join(", ") } else { format!("({})", t.join(", ")) });
    }
    let out: Vec<String> = outs.iter().map(|o| match o {
        Ok(i) => wr.expr(&pool[*i]),
        Err(e) => wr.expr(e),
    }).collect();
    let total = order.len() + measures.len();
    let a = AggregateRel {
        common: model::emit_for(mapping, total),
        input: Some(Box::new(base)),
        groupings: sets
            .iter()
            .map(|s| Grouping { grouping_expressions: vec![], expression_references: s.iter().map(|i| order.iter().position(|o| o == i).unwrap() as u32).collect() })
            .collect(),
        measures: measures.into_iter().map(|f| Measure { measure: Some(f), filter: None }).collect(),
        grouping_expressions: order.iter().map(|&i| pool[i].clone()).collect(),
        advanced_extension: None,
    };
    let canonical = render::canonical(&plan_env);
    let (decls, body) = canonical.split_once("=== Plan\n").unwrap();
    let body: String = body.lines().map(|l| format!("  {l}\n")).collect();
    let text = format!("{decls}=== Plan\nAggregate[{} => {}]\n{body}", head.join(", "), out.join(", "));
    c.show(&text);
    c.label(if stray.is_some() { "text with a stray output" } else { "text" });
    c.nontrivial = true;
    match (stray, parse(&text)?) {
        (None, Ok(got)) => same_plan(&single(env, rel_of(RelType::Aggregate(Box::new(a)))), &got, "the aggregation is read differently", &text),
        (None, Err(e)) => fail!("valid aggregation rejected", "{e}\n{text}"),
        (Some(_), Ok(_)) => fail!("an output that is neither measure nor grouping is accepted", "{text}"),
        (Some(_), Err(_)) => Ok(()),
    }
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

/// A measure that reads like a grouping expression.
fn measure_like_grouping() -> R {
    let env = super::slots::slot_env();
    let f = AggregateFunction { function_reference: 1, output_type: Some(model::simple_type(0, model::REQ)), ..Default::default() };
    let e = Expression::decode(&as_call(&f)[..]).unwrap();
    let base = render::canonical_read("t");
    let a = AggregateRel {
        common: direct(),
        input: Some(Box::new(base)),
        groupings: vec![Grouping { grouping_expressions: vec![], expression_references: vec![0] }],
        measures: vec![Measure { measure: Some(f), filter: None }],
        grouping_expressions: vec![e],
        advanced_extension: None,
    };
    let plan = single(&env, rel_of(RelType::Aggregate(Box::new(a))));
    let (text, errs) = format(&plan)?;
    if !errs.is_empty() {
        return Ok(());
    }
    same_meaning(&plan, &must_parse(&text)?, &text)
}

pub const P13: Prop = Prop {
    id: "P13",
    quick: 160_000,
    thorough: 2_000_000,
    f: p13,
    rule: "the aggregation groups by something, has several grouping sets, or cannot be written",
    assumptions: &["measures that are not in the output are not part of the meaning", "no measure has the same text as a grouping expression (known finding)"],
    known: &[Known { key: "measure-like-grouping", kind: "the text means other columns", f: measure_like_grouping }],
};
