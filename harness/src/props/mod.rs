//! The properties: how cases are made and which oracle judges them.
use crate::genr::{Cfg, Gen};
use crate::model::*;
use crate::rng::Rng;
use crate::run::{Bad, Env, Res, bad, guard};
use prost::Message;
use substrait::proto as p;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{OutputOptions, ParseError};

mod atoms;
mod cli;
mod core;
pub mod cost;
mod errs;
mod exts;
mod fuzz;
mod lang;
pub mod pure;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds after which a single case counts as hanging (confirmed with twice as much).
    pub case_cpu: f64,
    pub assume: &'static [&'static str],
    pub run: fn(&mut Env, Rng, u64) -> Res,
}

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(core::PROPS.iter());
    v.extend(fuzz::PROPS.iter());
    v.extend(atoms::PROPS.iter());
    v.extend(exts::PROPS.iter());
    v.extend(cli::PROPS.iter());
    v.extend(errs::PROPS.iter());
    v.extend(pure::PROPS.iter());
    v.extend(lang::PROPS.iter());
    v.extend(cost::PROPS.iter());
    v
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Fixed cases that may be listed as known findings.
pub fn probes(id: &str, env: &mut Env) -> Vec<(&'static str, Res)> {
    match id {
        "C04" => fuzz::probes(env),
        "C13" => cli::probes(env),
        _ => vec![],
    }
}

// ---------------------------------------------------------------- shared helpers

pub fn has_plan(text: &str) -> bool {
    text.starts_with("=== Plan\n") || text.contains("\n=== Plan\n")
}
/// What follows the header of the plan section. (A producer may look like that header.)
pub fn plan_part(text: &str) -> &str {
    match text.strip_prefix("=== Plan\n") {
        Some(b) => b,
        None => text.split_once("\n=== Plan\n").map_or("", |x| x.1),
    }
}

pub fn try_parse(reg: &ExtensionRegistry, t: &str) -> Result<Result<p::Plan, ParseError>, Bad> {
    match guard(|| substrait_explain::parse_with_registry(t, reg)) {
        Ok(r) => Ok(r),
        Err(m) => bad("the parser panicked", format!("{m}\n--- input\n{t}")),
    }
}
pub fn must_parse(reg: &ExtensionRegistry, t: &str) -> Result<p::Plan, Bad> {
    match try_parse(reg, t)? {
        Ok(p) => Ok(p),
        Err(e) => bad("valid text rejected", format!("{e}\n--- input\n{t}")),
    }
}
pub fn do_format(reg: &ExtensionRegistry, plan: &p::Plan, o: &OutputOptions) -> Result<(String, Vec<String>), Bad> {
    match guard(|| substrait_explain::format_with_registry(plan, o, reg)) {
        Ok((t, e)) => Ok((t, e.iter().map(|x| x.to_string()).collect())),
        Err(m) => bad("the formatter panicked", format!("{m}\n--- plan\n{plan:?}")),
    }
}
pub fn fmt_default(reg: &ExtensionRegistry, plan: &p::Plan) -> Result<(String, Vec<String>), Bad> {
    do_format(reg, plan, &OutputOptions::default())
}
/// Equality that also sees what PartialEq does not (negative zero).
pub fn same(a: &p::Plan, b: &p::Plan) -> bool {
    a == b && a.encode_to_vec() == b.encode_to_vec()
}
pub fn plan_diff(got: &p::Plan, want: &p::Plan) -> String {
    let (g, w) = (format!("{got:#?}"), format!("{want:#?}"));
    let (g, w): (Vec<&str>, Vec<&str>) = (g.lines().collect(), w.lines().collect());
    for i in 0..g.len().max(w.len()) {
        if g.get(i) != w.get(i) {
            let lo = i.saturating_sub(12);
            return format!(
                "first difference at line {i} of the debug form\ngot:\n{}\nwant:\n{}",
                g[lo.min(g.len())..(i + 6).min(g.len())].join("\n"),
                w[lo.min(w.len())..(i + 6).min(w.len())].join("\n")
            );
        }
    }
    "plans differ only in their encoding".into()
}
pub fn text_diff(got: &str, want: &str) -> String {
    let (g, w): (Vec<&str>, Vec<&str>) = (got.split('\n').collect(), want.split('\n').collect());
    for i in 0..g.len().max(w.len()) {
        if g.get(i) != w.get(i) {
            return format!("line {}\ngot:  {:?}\nwant: {:?}", i + 1, g.get(i), w.get(i));
        }
    }
    "equal".into()
}
/// The text parses to exactly this plan.
pub fn expect_parse(env: &Env, t: &str, want: &p::Plan) -> Res {
    let got = must_parse(&env.reg, t)?;
    if !same(&got, want) {
        return bad("the text parses to another plan", format!("{}\n--- input\n{t}", plan_diff(&got, want)));
    }
    Ok(())
}
/// The plan formats to exactly this text, without errors.
pub fn expect_text(env: &Env, plan: &p::Plan, want: &str) -> Res {
    let (t, e) = fmt_default(&env.reg, plan)?;
    if !e.is_empty() {
        return bad("the formatter reported errors on a supported plan", format!("{e:?}\n--- text\n{t}"));
    }
    if t != want {
        return bad("the plan renders differently", format!("{}\n--- got\n{t}\n--- want\n{want}", text_diff(&t, want)));
    }
    Ok(())
}
pub fn note_plan(env: &mut Env, m: &MPlan) {
    let mut kinds = vec![];
    m.walk(&mut |r| kinds.push(r.kind()));
    for k in kinds {
        env.ev(&format!("rel {k}"));
    }
}
pub fn plan_of(rng: &mut Rng, c: Cfg) -> (Gen, MPlan) {
    let mut g = Gen::new(rng.fork(), c);
    let m = g.plan();
    (g, m)
}

/// Output width of a protobuf relation; `odd` is set when a projection's output list does not use
/// its computed columns exactly once each and in order (an out-of-range reference did that), or when
/// an output index does not exist.
pub fn proto_width(r: &p::Rel, odd: &mut bool) -> usize {
    use p::rel::RelType as R;
    use p::rel_common::EmitKind;
    let kid = |k: &Option<Box<p::Rel>>, odd: &mut bool| k.as_ref().map_or(0, |k| proto_width(k, odd));
    let emit = |c: &Option<p::RelCommon>, direct: usize, odd: &mut bool| match c.as_ref().and_then(|c| c.emit_kind.as_ref()) {
        Some(EmitKind::Emit(e)) => {
            *odd |= e.output_mapping.iter().any(|&i| i < 0 || i as usize >= direct);
            e.output_mapping.len()
        }
        _ => direct,
    };
    let gen_cols = |d: &Option<pbjson_types::Any>| {
        d.as_ref().and_then(|d| crate::ext::GenMsg::decode(&d.value[..]).ok()).map_or(0, |m| m.cols.len())
    };
    match r.rel_type.as_ref() {
        Some(R::Read(x)) => emit(&x.common, x.base_schema.as_ref().map_or(0, |s| s.names.len()), odd),
        Some(R::Filter(x)) => {
            let w = kid(&x.input, odd);
            emit(&x.common, w, odd)
        },
        Some(R::Sort(x)) => {
            let w = kid(&x.input, odd);
            emit(&x.common, w, odd)
        },
        Some(R::Fetch(x)) => {
            let w = kid(&x.input, odd);
            emit(&x.common, w, odd)
        },
        Some(R::Cross(x)) => {
            let w = kid(&x.left, odd) + kid(&x.right, odd);
            emit(&x.common, w, odd)
        }
        Some(R::Join(x)) => {
            let (l, r) = (kid(&x.left, odd), kid(&x.right, odd));
            let w = (0..JOINS.len()).find(|&t| join_enum(t) == x.r#type).map_or(l + r, |t| join_width(t, l, r));
            emit(&x.common, w, odd)
        }
        Some(R::Set(x)) => {
            let ws: Vec<usize> = x.inputs.iter().map(|k| proto_width(k, odd)).collect();
            emit(&x.common, ws.first().copied().unwrap_or(0), odd)
        }
        Some(R::Project(x)) => {
            let w = kid(&x.input, odd);
            if let Some(EmitKind::Emit(e)) = x.common.as_ref().and_then(|c| c.emit_kind.as_ref()) {
                let computed: Vec<usize> =
                    e.output_mapping.iter().map(|&i| i as usize).filter(|&i| i >= w).collect();
                if computed != (w..w + x.expressions.len()).collect::<Vec<_>>() {
                    *odd = true;
                }
            }
            emit(&x.common, w + x.expressions.len(), odd)
        }
        Some(R::Aggregate(x)) => {
            kid(&x.input, odd);
            emit(&x.common, x.grouping_expressions.len() + x.measures.len(), odd)
        }
        Some(R::ExtensionLeaf(x)) => gen_cols(&x.detail),
        Some(R::ExtensionSingle(x)) => {
            kid(&x.input, odd);
            gen_cols(&x.detail)
        }
        Some(R::ExtensionMulti(x)) => {
            for k in &x.inputs {
                proto_width(k, odd);
            }
            gen_cols(&x.detail)
        }
        _ => 0,
    }
}
/// Whether a plan refers to a projection's own computed columns by number.
pub fn self_referring(plan: &p::Plan) -> bool {
    use p::plan_rel::RelType as T;
    let mut odd = false;
    for r in &plan.relations {
        match r.rel_type.as_ref() {
            Some(T::Rel(r)) => {
                proto_width(r, &mut odd);
            }
            Some(T::Root(r)) => {
                if let Some(i) = &r.input {
                    proto_width(i, &mut odd);
                }
            }
            _ => {}
        }
    }
    odd
}

/// Whether a plan holds what is accepted and written, but reported: an interval outside the range
/// that the specification gives it, or unspecified nullability.
pub fn reported(plan: &p::Plan) -> bool {
    let t = format!("{plan:?}");
    t.contains("nullability: Unspecified") || t.split("IntervalDayToSecond { days: ").skip(1).any(|x| {
        let field = |k: &str| -> i128 {
            let v = if k.is_empty() { Some(x) } else { x.split(k).nth(1) };
            v.and_then(|v| v.split([',', ')', ' ']).next()).and_then(|n| n.parse().ok()).unwrap_or(0)
        };
        let (days, secs, sub, p) = (field(""), field("seconds: "), field("subseconds: "), field("Precision("));
        sub.abs() >= 10i128.pow(p.clamp(0, 18) as u32) || days.abs() > 3_650_000 || (days * 86_400 + secs).abs() > 3_650_000 * 86_400
    })
}
