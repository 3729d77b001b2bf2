//! Text and plan in both directions.

use substrait::proto::expression::Literal;
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::rel::RelType;
use substrait::proto::{ExtensionLeafRel, Plan, PlanRel, plan_rel};
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{FormatError, OutputOptions, ParseError};

use crate::ext::{Col, Payload};
use crate::model::{self, Cfg};
use crate::runner::{Case, Fail, Known, Prop, R, sut};
use crate::{ensure, ext, fail, render};

pub fn parse(text: &str) -> Result<Result<Plan, ParseError>, Fail> {
    sut("parse", || ext::with_registry(|r| parse_with(text, r)))
}

pub fn parse_with(text: &str, r: &ExtensionRegistry) -> Result<Plan, ParseError> {
    // Two ways to the same thing.
    if text.len() % 2 == 0 {
        return substrait_explain::parse_with_registry(text, r);
    }
    substrait_explain::Parser::new().with_extension_registry(r.clone()).parse_plan(text)
}

/// Whether a plan has nothing a registry is needed for.
fn plain(plan: &Plan) -> bool {
    !format!("{plan:?}").contains("type_url")
}

pub fn must_parse(text: &str) -> Result<Plan, Fail> {
    match parse(text)? {
        Ok(p) => Ok(p),
        Err(e) => Err(Fail::new("valid text rejected", format!("{e}\n{text}"))),
    }
}

pub fn format_opts(plan: &Plan, o: &OutputOptions) -> Result<(String, Vec<FormatError>), Fail> {
    sut("format", || ext::with_registry(|r| substrait_explain::format_with_registry(plan, o, r)))
}

pub fn format(plan: &Plan) -> Result<(String, Vec<FormatError>), Fail> {
    format_opts(plan, &OutputOptions::default())
}

pub fn must_format(plan: &Plan) -> Result<String, Fail> {
    let (t, e) = format(plan)?;
    ensure!(e.is_empty(), "errors for a representable plan", "{e:?}\n{t}");
    Ok(t)
}

/// The first place two texts differ, by line.
pub fn text_diff(want: &str, got: &str) -> String {
    for (i, (a, b)) in want.lines().zip(got.lines()).enumerate() {
        if a != b {
            return format!("line {}:\n  expected {a:?}\n  got      {b:?}", i + 1);
        }
    }
    format!("expected {} lines, got {}\n{want:?}\n{got:?}", want.lines().count(), got.lines().count())
}

pub fn same_plan(want: &Plan, got: &Plan, kind: &str, text: &str) -> R {
    if want != got {
        let (a, b) = (format!("{want:#?}"), format!("{got:#?}"));
        let a: Vec<&str> = a.lines().collect();
        let b: Vec<&str> = b.lines().collect();
        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let lo = at.saturating_sub(6);
        let show = |v: &[&str]| v[lo.min(v.len())..(at + 8).min(v.len())].join("\n");
        fail!(kind, "{text}\nexpected …\n{}\ngot …\n{}", show(&a), show(&b));
    }
    Ok(())
}

fn classify(c: &mut Case, plan: &Plan) {
    let f = model::features(plan);
    c.nontrivial = f.len() >= 2;
    for l in f {
        c.label(l);
    }
}

fn p01(c: &mut Case) -> R {
    let plan = model::plan(&mut c.g, &Cfg::default());
    classify(c, &plan);
    let text = render::styled(&plan, &mut c.g);
    c.show(&text);
    let got = must_parse(&text)?;
    same_plan(&plan, &got, "parsed plan differs", &text)?;
    if c.g.chance(1, 4) && plain(&plan) {
        c.label("without registry");
        let got = sut("parse without registry", || substrait_explain::parse(&text))?.map_err(|e| Fail::new("valid text rejected without registry", format!("{e}\n{text}")))?;
        same_plan(&plan, &got, "parsed plan differs without registry", &text)?;
    }
    Ok(())
}

pub const P01: Prop = Prop {
    id: "P01",
    quick: 160_000,
    thorough: 1_000_000,
    f: p01,
    rule: "the plan has at least two distinct features (relation kinds, emit, addenda, version, several trees)",
    assumptions: &[],
    known: &[],
};

fn p02(c: &mut Case) -> R {
    let plan = model::plan(&mut c.g, &Cfg::default());
    classify(c, &plan);
    let want = render::canonical(&plan);
    c.show(&want);
    let got = must_format(&plan)?;
    ensure!(got == want, "text differs from the documented form", "{}", text_diff(&want, &got));
    let back = must_parse(&got)?;
    same_plan(&plan, &back, "reparsed plan differs", &got)?;
    if c.g.chance(1, 4) && plain(&plan) {
        c.label("without registry");
        let (text, errs) = sut("format without registry", || substrait_explain::format(&plan))?;
        ensure!(errs.is_empty() && text == want, "text differs without registry", "{errs:?}\n{}", text_diff(&want, &text));
    }
    Ok(())
}

/// An output column of an extension relation that is a null or boolean literal
/// with its type written.
fn literal_column(l: LiteralType) -> R {
    let e = model::lit_expr(Literal { literal_type: Some(l), nullable: true, type_variation_reference: 0 });
    let p = Payload { cols: vec![Col { name: String::new(), ty: None, expr: Some(e) }], ..Default::default() };
    let rel = model::rel_of(RelType::ExtensionLeaf(ExtensionLeafRel { common: model::direct(), detail: Some(ext::any("RelA", &p)) }));
    let plan = Plan { relations: vec![PlanRel { rel_type: Some(plan_rel::RelType::Rel(rel)) }], ..Default::default() };
    let got = must_format(&plan)?;
    same_plan(&plan, &must_parse(&got)?, "reparsed plan differs", &got)
}

pub const P02: Prop = Prop {
    id: "P02",
    quick: 160_000,
    thorough: 1_000_000,
    f: p02,
    rule: "the plan has at least two distinct features (relation kinds, emit, addenda, version, several trees)",
    assumptions: &[],
    known: &[
        Known { key: "null-column", kind: "reparsed plan differs", f: || literal_column(LiteralType::Null(model::simple_type(0, model::REQ))) },
        Known { key: "boolean-column", kind: "reparsed plan differs", f: || literal_column(LiteralType::Boolean(true)) },
    ],
};
