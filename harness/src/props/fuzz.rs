//! Robustness: the parser and the file readers on any input (C03), the formatter on any plan (C04).
use super::*;
use crate::dynp::{self, Path};
use crate::ext;
use crate::mutate;
use prost_reflect::{DynamicMessage, Value};
use substrait_explain::cli::Format;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C03",
        rule: "inputs derived from random valid plans by token, line and byte edits, token soups and random strings, each parsed with a full and an empty registry and through the text reader; plus damaged JSON, YAML and protobuf files through their readers. A panic, an abort or a CPU-time limit is a violation. Distinct by input",
        quick: 40_000,
        thorough: 1_200_000,
        case_cpu: 20.0,
        assume: &["bracket nesting is bounded by 40 (the deep-nesting cases reach it with every construct, well formed or broken)"],
        run: c03,
    },
    Prop {
        id: "C04",
        rule: "wild plans drawn from the full protobuf schema by reflection and damaged copies of supported plans (one expression, type, relation, enum, required field, anchor, extension payload or output index broken); panics, unreported failure tokens and any effect of the damage outside its own line are violations. Distinct by encoded plan",
        quick: 30_000,
        thorough: 1_000_000,
        case_cpu: 20.0,
        assume: &["strings in declarations and versions are printable without quotes, so that tokens can be told from names"],
        run: c04,
    },
];

/// Deepest bracket nesting, ignoring quotes.
pub fn depth(s: &str) -> usize {
    let (mut d, mut max) = (0usize, 0usize);
    for c in s.chars() {
        match c {
            '(' | '[' | '<' | '{' => {
                d += 1;
                max = max.max(d);
            }
            ')' | ']' | '>' | '}' => d = d.saturating_sub(1),
            '\n' => d = 0,
            _ => {}
        }
    }
    max
}

fn parse_any(env: &mut Env, t: &str, empty: &ExtensionRegistry) -> Res {
    if depth(t) > 40 {
        env.ev("skipped: nested too deep");
        return Ok(());
    }
    env.eval(t.as_bytes(), !t.trim().is_empty());
    for (k, reg) in [&env.reg, empty].into_iter().enumerate() {
        match try_parse(reg, t)? {
            Ok(plan) => {
                if k == 0 {
                    env.counts.entry("accepted".into()).and_modify(|c| *c += 1).or_insert(1);
                }
                // Whatever was accepted can also be rendered.
                fmt_default(reg, &plan)?;
            }
            Err(e) => {
                let (a, b) = match guard(|| (e.to_string(), format!("{e:?}"))) {
                    Ok(x) => x,
                    Err(m) => return bad("showing the parse error panicked", format!("{m}\n--- input\n{t}")),
                };
                if a.is_empty() || b.is_empty() {
                    return bad("empty error message", t.to_string());
                }
                if k == 0 {
                    env.counts.entry("rejected".into()).and_modify(|c| *c += 1).or_insert(1);
                }
            }
        }
    }
    Ok(())
}
fn read_any(env: &mut Env, f: Format, b: &[u8]) -> Res {
    let r = guard(|| f.read_plan(b, &env.reg).map_err(|e| format!("{e:?}")));
    env.eval(b, !b.is_empty());
    match r {
        Err(m) => bad(&format!("the {f:?} reader panicked"), format!("{m}\n--- input\n{}", String::from_utf8_lossy(b))),
        Ok(Ok(plan)) => {
            env.ev(&format!("{f:?} file read"));
            fmt_default(&env.reg, &plan).map(|_| ())
        }
        Ok(Err(_)) => {
            env.ev(&format!("{f:?} file rejected"));
            Ok(())
        }
    }
}

fn c03(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let empty = ExtensionRegistry::new();
    let (mut g, m) = plan_of(&mut rng, Cfg { max_rels: 4, ..Default::default() });
    let text = Pr::styled(&m.decls, g.r.fork()).plan(&m);
    if i % 4 == 0 {
        deep(env, &mut rng, i / 4)?;
    }
    parse_any(env, &text, &empty)?;
    for _ in 0..3 {
        let mut t = if rng.chance(1, 3) { mutate::classy(&text, &mut rng) } else { mutate::tokens(&text, &mut rng) };
        if rng.chance(1, 3) {
            t = mutate::lines(&t, &mut rng);
        }
        env.ev("token edits");
        env.sample(|| t.clone());
        parse_any(env, &t, &empty)?;
    }
    for _ in 0..2 {
        let t = mutate::lines(&text, &mut rng);
        env.ev("line edits");
        parse_any(env, &t, &empty)?;
    }
    for _ in 0..2 {
        let t = mutate::chars(&text, &mut rng);
        env.ev("character edits");
        parse_any(env, &t, &empty)?;
    }
    // Typed literals in odd spellings, and those with single characters changed.
    let lits: Vec<String> = (0..4)
        .map(|k| {
            let l = mutate::odd_lit(&mut rng);
            if k % 2 == 0 { l } else { mutate::chars(&l, &mut rng).replace('\n', " ") }
        })
        .collect();
    for l in &lits {
        env.ev("odd literal");
        parse_any(env, &format!("=== Plan\nProject[{l}]\n  Read[t => a:i64]\n"), &empty)?;
        parse_any(env, &format!("=== Plan\nRead:Virtual[({l}) => a:i64]\n"), &empty)?;
    }
    env.ev("odd extension argument");
    let l = &lits[1];
    parse_any(env, &format!("=== Plan\nExtensionLeaf:ScanX[{l}, x={l}, y=({l}, {l}) => a:i64]\n"), &empty)?;
    let t = mutate::soup(&mut rng);
    env.ev("soup");
    parse_any(env, &t, &empty)?;
    let b = mutate::bytes(text.as_bytes(), &mut rng);
    if let Ok(s) = std::str::from_utf8(&b) {
        env.ev("byte edits");
        parse_any(env, s, &empty)?;
    } else {
        env.ev("not UTF-8");
        read_any(env, Format::Text, &b)?;
    }
    // One line broken inside the grammar of single lines.
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    if !lines.is_empty() {
        let l = rng.pick(&lines).to_string();
        let cut = rng.upto(l.chars().count());
        let t: String = text.replacen(&l, &l.chars().take(cut).collect::<String>(), 1);
        env.ev("truncated line");
        parse_any(env, &t, &empty)?;
    }
    let plan = canon_proto(&m);
    let pb = plan.encode_to_vec();
    read_any(env, Format::Protobuf, &mutate::bytes(&pb, &mut rng))?;
    if i % 4 == 1 {
        let y = serde_yaml::to_string(&plan).unwrap();
        let y = if rng.coin() { mutate::bytes(y.as_bytes(), &mut rng) } else { mutate::tokens(&y, &mut rng).into_bytes() };
        read_any(env, Format::Yaml, &y)?;
    }
    if i % 8 == 2 {
        let y = serde_json::to_string(&plan).unwrap();
        let y = if rng.coin() { mutate::bytes(y.as_bytes(), &mut rng) } else { mutate::tokens(&y, &mut rng).into_bytes() };
        read_any(env, Format::Json, &y)?;
    }
    Ok(())
}
/// What can hold an expression, a type or an argument, as text before and after it.
const EXPR_IN: [(&str, &str); 14] = [
    ("f(", "):i64"),
    ("f($0, ", "):i64"),
    ("f(", ", $0):i64"),
    ("if_then(", "):i64"),
    ("(", ")::i64"),
    ("( ", " )::?i64?"),
    ("if_then(", " -> $0, _ -> $0)"),
    ("if_then($0 -> ", ", _ -> $0)"),
    ("if_then($0 -> $0, _ -> ", ")"),
    ("if_then($0 -> $0, ", " -> $0, _ -> $0)"),
    ("f:i64(", "):list<i64>"),
    ("f#1(", "):i64?"),
    ("f(null:list<", ">):i64"),
    ("(null:t<", ">)::t"),
];
const TYPE_IN: [(&str, &str); 12] = [
    ("list<", ">"),
    ("list?<", ">"),
    ("LIST<", ">"),
    ("map<i64, ", ">"),
    ("map<", ", i64>"),
    ("struct<", ">"),
    ("struct<i64, ", ">"),
    ("t<", ">"),
    ("t<i64, ", ">"),
    ("u!t?<", ", i64>"),
    ("list<", ", i64>"),
    ("t#1<", ">"),
];
const ARG_IN: [(&str, &str); 6] =
    [("(", ",)"), ("(1, ", ")"), ("(", ", 1)"), ("( 1, 2, ", ", )"), ("f((", ")::i64):i64"), ("(a, ", ")")];

/// Deep but bounded nesting: every recursive construct by itself, or several in random order
/// around a good or a bad center, complete or cut.
fn deep(env: &mut Env, rng: &mut Rng, i: u64) -> Res {
    let head = "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: f\nTypes:\n  #  1 @  1: t\n\n=== Plan\n";
    let (pool, centers): (&[(&str, &str)], &[&str]) = match rng.below(4) {
        0 | 1 => (&EXPR_IN, &["$0", "1", "%", "", "'x'", "'", "i64", "(", "f()", "$0)", "t<", "-> $0", "null:list<"]),
        2 => (&TYPE_IN, &["i64", "t", "5", "%", "", "list", "\"x\"", "i64,", "list<", "precisiontime<6>", "i64?>", "map<i64"]),
        _ => (&ARG_IN, &["1", "$0", "&A", "%", "", "x=1", "'a'", "(", "()", "1,", "1:i64"]),
    };
    let n = *rng.pick(&[5usize, 12, 20, 30, 40]);
    let only = (i % 3 != 0).then(|| *rng.pick(pool));
    let mut t = rng.pick(centers).to_string();
    for _ in 0..n {
        let (a, b) = only.unwrap_or_else(|| *rng.pick(pool));
        t = format!("{a}{t}{b}");
    }
    match rng.below(5) {
        0 => {
            t.pop();
        }
        1 => t = mutate::chars(&t, rng).replace('\n', " "),
        _ => {}
    }
    let line = if pool.len() == TYPE_IN.len() {
        match rng.below(4) {
            0 => format!("Filter[null:{t} => $0]"),
            1 => format!("Project[($0)::{t}]"),
            2 => format!("Read[x => a:{t}]"),
            _ => format!("ExtensionLeaf:ScanX[1 => a:{t}]"),
        }
    } else if pool.len() == ARG_IN.len() {
        match rng.below(4) {
            0 => format!("ExtensionLeaf:ScanX[{t} => a:i64]"),
            1 => format!("ExtensionLeaf:ScanX[1, k={t} => a:i64]"),
            2 => format!("Read[t => a:i64]\n  + Opt:PlanHint[{t}]"),
            _ => format!("Read:Extension[a:i64]\n  + Ext:ScanX[v={t}]"),
        }
    } else {
        match rng.below(11) {
            0 => format!("Filter[{t} => $0]"),
            1 => format!("Project[$0, {t}]"),
            2 => format!("Aggregate[{t} => $0]"),
            3 => format!("Aggregate[({t}, $0), _ => $0]"),
            4 => format!("Aggregate[_ => {t}]"),
            5 => format!("Sort[({t}, &AscNullsFirst) => $0]"),
            6 => format!("Fetch[limit={t} => $0]"),
            7 => format!("Join[&Inner, $0, post_filter={t} => $0]"),
            8 => format!("Read:Virtual[({t}, 1), filter={t} => a:i64]"),
            9 => format!("ExtensionLeaf:ScanX[{t}, k={t} => {t}]"),
            _ => format!("Filter[{t} => $0]"),
        }
    };
    let mut text = format!("{head}{line}\n");
    if !line.contains("\n") && !line.starts_with("Read") && !line.starts_with("ExtensionLeaf") {
        text.push_str("  Read[x => a:i64]\n");
    }
    if i % 10 == 0 {
        // Relations nested as deep.
        let rels: String = (0..n).map(|k| format!("{}Filter[$0 => $0]\n", "  ".repeat(k))).collect();
        text = format!("{head}{rels}");
        if rng.coin() {
            text.push_str(&format!("{}Read[x => a:i64]\n", "  ".repeat(n)));
        }
    }
    env.ev(&format!("nested {n} deep"));
    env.sample(|| text.clone());
    env.eval(text.as_bytes(), true);
    if let Ok(p) = try_parse(&env.reg, &text)? {
        fmt_default(&env.reg, &p)?;
        env.ev("deep accepted");
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Failure tokens outside quotes in the Plan section.
pub fn tokens_outside(text: &str) -> usize {
    let body = if has_plan(text) { plan_part(text) } else { text };
    let mut n = 0;
    for l in body.split('\n') {
        let mut q: Option<char> = None;
        let mut it = l.chars().peekable();
        while let Some(c) = it.next() {
            match q {
                Some(k) => {
                    if c == '\\' {
                        it.next();
                    } else if c == k {
                        q = None;
                    }
                }
                None => match c {
                    '\'' | '"' => q = Some(c),
                    '!' if it.peek() == Some(&'{') => n += 1,
                    _ => {}
                },
            }
        }
    }
    n
}
fn sound(env: &mut Env, plan: &p::Plan) -> Result<(String, Vec<String>), Bad> {
    let (t, e) = fmt_default(&env.reg, plan)?;
    let n = tokens_outside(&t);
    if n > 0 && e.is_empty() {
        return bad("a failure token without a reported error", format!("--- text\n{t}\n--- plan\n{plan:?}"));
    }
    // (The names of function options are written as they are: one may hold a token's opening.)
    if e.len() < n && !plan.encode_to_vec().windows(2).any(|w| w == b"!{") {
        return bad("fewer errors than failure tokens", format!("{e:?}\n--- text\n{t}"));
    }
    if e.iter().any(|x| x.is_empty()) {
        return bad("an empty error message", format!("{e:?}"));
    }
    env.ev(if e.is_empty() { "clean" } else { "reported" });
    Ok((t, e))
}

fn c04(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    // Wild plans.
    for _ in 0..2 {
        let budget = *rng.pick(&[10, 40, 120]);
        let d = dynp::Wild { r: &mut rng, budget, tame: false }.message(&dynp::desc("substrait.Plan"), 0);
        if let Some(plan) = dynp::to_plan(&d) {
            env.ev("wild plan");
            env.eval(&plan.encode_to_vec(), !plan.relations.is_empty());
            sound(env, &plan)?;
            // With the other presets too.
            do_format(&env.reg, &plan, &OutputOptions::verbose())?;
            do_format(&ExtensionRegistry::new(), &plan, &OutputOptions::default())?;
        }
    }
    // Damaged supported plans.
    let c = Cfg { max_rels: if i % 8 == 0 { 15 } else { 5 }, weird: 1, ..Default::default() };
    let (mut g, m) = plan_of(&mut rng, c);
    let mut plan = if i % 2 == 0 { canon_proto(&m) } else { Enc::vary(g.r.fork()).plan(&m) };
    let mark = free_anchor(&m.decls.types);
    let nofn = free_anchor(&m.decls.funcs);
    plan.extensions.push(type_decl(mark, m.decls.urns[0].0));
    let spare = free_anchor2(&m.decls.types, mark);
    let d0 = dynp::to_dyn(&plan);
    let all = dynp::nodes(&d0);
    for _ in 0..4 {
        damage(env, &mut rng, (&d0, &all), mark, nofn, spare, i % 2 == 1)?;
    }
    call_options(env, &mut rng, &d0, &all)?;
    // Several parts damaged at once: still no panic, still reported.
    let mut d = d0;
    for _ in 0..1 + rng.below(4) {
        scramble(&mut d, &mut rng);
    }
    if let Some(b) = dynp::to_plan(&d) {
        env.ev("scrambled plan");
        env.eval(&b.encode_to_vec(), true);
        sound(env, &b)?;
    }
    Ok(())
}
/// Function options are written after the arguments, with all their preferences in order.
fn call_options(env: &mut Env, rng: &mut Rng, d0: &DynamicMessage, all: &[(Path, String)]) -> Res {
    let calls: Vec<&(Path, String)> = all.iter().filter(|n| n.1 == "substrait.Expression.ScalarFunction" || n.1 == "substrait.AggregateFunction").collect();
    if calls.is_empty() {
        return Ok(());
    }
    let (at, own) = rng.pick(&calls);
    let (mut with, mut arg) = (d0.clone(), d0.clone());
    let opts: Vec<p::FunctionOption> = (0..1 + rng.below(3))
        .map(|_| p::FunctionOption {
            name: crate::genr::ident(rng),
            preference: (0..rng.below(4)).map(|_| crate::genr::ident(rng)).collect(),
        })
        .collect();
    let shown: Vec<String> = opts.iter().map(|o| format!("{}⇒[{}]", o.name, o.preference.join(", "))).collect();
    if own == "substrait.AggregateFunction" {
        let mut f: p::AggregateFunction = dynp::get(&mut with, at);
        f.arguments.push(e_arg(MARK));
        dynp::put(&mut arg, at, &f);
        f.arguments.pop();
        f.options = opts;
        dynp::put(&mut with, at, &f);
    } else {
        let mut f: p::expression::ScalarFunction = dynp::get(&mut with, at);
        f.arguments.push(e_arg(MARK));
        dynp::put(&mut arg, at, &f);
        f.arguments.pop();
        f.options = opts;
        dynp::put(&mut with, at, &f);
    }
    let (Some(a), Some(w)) = (dynp::to_plan(&arg), dynp::to_plan(&with)) else { return Ok(()) };
    let (at, ae) = sound(env, &a)?;
    let (wt, we) = sound(env, &w)?;
    env.ev("function options");
    env.eval(&w.encode_to_vec(), true);
    let want = at.replace(&format!("'{MARK}'"), &shown.join(", "));
    if wt != want || ae.len() != we.len() {
        return bad("function options change something else", format!("{}\n{ae:?}\n{we:?}", text_diff(&wt, &want)));
    }
    Ok(())
}
fn e_arg(s: &str) -> p::FunctionArgument {
    use p::expression as e;
    let l = e::Literal { literal_type: Some(e::literal::LiteralType::String(s.into())), nullable: false, type_variation_reference: 0 };
    let x = p::Expression { rex_type: Some(e::RexType::Literal(l)) };
    p::FunctionArgument { arg_type: Some(p::function_argument::ArgType::Value(x)) }
}
fn free_anchor(ds: &[Decl]) -> u32 {
    (5000..).find(|a| ds.iter().all(|d| d.anchor != *a)).unwrap()
}
fn free_anchor2(ds: &[Decl], not: u32) -> u32 {
    (5000..).find(|a| *a != not && ds.iter().all(|d| d.anchor != *a)).unwrap()
}
fn type_decl(a: u32, urn: u32) -> p::extensions::SimpleExtensionDeclaration {
    use p::extensions::simple_extension_declaration as d;
    p::extensions::SimpleExtensionDeclaration {
        mapping_type: Some(d::MappingType::ExtensionType(d::ExtensionType {
            extension_urn_reference: urn,
            type_anchor: a,
            name: "vxmark".into(),
            ..Default::default()
        })),
    }
}

/// Clear or overwrite a random field somewhere.
fn scramble(d: &mut DynamicMessage, rng: &mut Rng) {
    let ns: Vec<(Path, String)> =
        dynp::nodes(d).into_iter().filter(|n| !n.1.starts_with("substrait.extensions.Simple")).collect();
    let n = rng.pick(&ns).0.clone();
    let node = dynp::at_mut(d, &n);
    let fs: Vec<_> = node.fields().map(|(f, _)| f).collect();
    if fs.is_empty() {
        return;
    }
    let f = rng.pick(&fs).clone();
    if rng.coin() {
        node.clear_field(&f);
        return;
    }
    match node.get_field_mut(&f) {
        Value::I32(x) => *x = rng.edgy(i32::MIN as i64, i32::MAX as i64) as i32,
        Value::I64(x) => *x = rng.edgy(i64::MIN, i64::MAX),
        Value::U32(x) => *x = crate::genr::anchor(rng),
        Value::EnumNumber(x) => *x = rng.range(-1, 20) as i32,
        Value::List(l) => {
            if l.is_empty() {
                return;
            }
            let k = rng.below(l.len());
            match rng.below(3) {
                0 => {
                    l.remove(k);
                }
                1 => {
                    let x = l[k].clone();
                    l.push(x);
                }
                _ => l.truncate(k),
            }
        }
        Value::Message(x) => *x = DynamicMessage::new(prost_reflect::ReflectMessage::descriptor(x)),
        _ => {}
    }
}

const MARK: &str = "VXMARK";

/// Break one part. `base` has a neutral part at that place that renders on one line; the broken
/// plan must render the same lines except for those that show the neutral part, which must show
/// a failure token instead.
fn damage(env: &mut Env, rng: &mut Rng, (d0, all): (&DynamicMessage, &[(Path, String)]), mark: u32, nofn: u32, notype: u32, hidden: bool) -> Res {
    use p::expression as e;
    use p::expression::RexType as R;
    // With parts that are not output, only damage that a marker can locate is judged.
    let kinds: &[&str] = &[
        "substrait.Expression",
        "substrait.Expression",
        "substrait.Expression",
        "substrait.Type",
        "substrait.Type",
        "substrait.Rel",
        "substrait.Rel",
        "enum",
        "enum",
        "field",
        "field",
        "any",
        "any",
        "emit",
        "call",
        "measure",
    ];
    let want = *rng.pick(if hidden { &kinds[..7] } else { kinds });
    let pick = |rng: &mut Rng, names: &[&str]| -> Option<(Path, String)> {
        let v: Vec<_> = all.iter().filter(|n| names.contains(&n.1.as_str())).collect();
        if v.is_empty() { None } else { Some((*rng.pick(&v)).clone()) }
    };
    let mut base = d0.clone();
    let mut broken = d0.clone();
    // What the base shows where the broken plan shows a token; None: compare whole lines.
    let mut marker: Option<String> = None;
    let what: String;
    match want {
        "substrait.Expression" => {
            let Some((at, _)) = pick(rng, &["substrait.Expression"]) else { return Ok(()) };
            let lit = |l| p::Expression {
                rex_type: Some(R::Literal(e::Literal { literal_type: l, nullable: false, type_variation_reference: 0 })),
            };
            dynp::put(&mut base, &at, &lit(Some(e::literal::LiteralType::String(MARK.into()))));
            marker = Some(format!("'{MARK}'"));
            use e::literal::LiteralType as L;
            let (name, x): (&str, p::Expression) = match rng.below(30) {
                0 => ("no rex", p::Expression { rex_type: None }),
                1 => ("window", p::Expression { rex_type: Some(R::WindowFunction(Default::default())) }),
                2 => ("switch", p::Expression { rex_type: Some(R::SwitchExpression(Default::default())) }),
                3 => ("or list", p::Expression { rex_type: Some(R::SingularOrList(Default::default())) }),
                4 => ("multi or list", p::Expression { rex_type: Some(R::MultiOrList(Default::default())) }),
                5 => ("nested", p::Expression { rex_type: Some(R::Nested(Default::default())) }),
                6 => ("subquery", p::Expression { rex_type: Some(R::Subquery(Default::default())) }),
                7 => ("parameter", p::Expression { rex_type: Some(R::DynamicParameter(Default::default())) }),
                8 => ("no literal", lit(None)),
                9 => ("decimal", lit(Some(L::Decimal(Default::default())))),
                10 => ("fixed char", lit(Some(L::FixedChar("x".into())))),
                11 => ("var char", lit(Some(L::VarChar(Default::default())))),
                12 => ("fixed binary", lit(Some(L::FixedBinary(vec![1].into())))),
                13 => ("struct", lit(Some(L::Struct(Default::default())))),
                14 => ("map", lit(Some(L::Map(Default::default())))),
                15 => ("list", lit(Some(L::List(Default::default())))),
                16 => ("uuid", lit(Some(L::Uuid(vec![0; 16].into())))),
                17 => ("interval year", lit(Some(L::IntervalYearToMonth(Default::default())))),
                18 => ("interval compound", lit(Some(L::IntervalCompound(Default::default())))),
                19 => ("user defined", lit(Some(L::UserDefined(Default::default())))),
                20 => ("empty list", lit(Some(L::EmptyList(Default::default())))),
                21 => ("empty map", lit(Some(L::EmptyMap(Default::default())))),
                22 => ("date range", lit(Some(L::Date(*rng.pick(&[i32::MIN, i32::MAX]))))),
                23 => {
                    let precision = *rng.pick(&[-1, 1, 2, 4, 5, 7, 8, 10, 13, i32::MAX]);
                    let value = rng.range(0, 1000);
                    let l = match rng.below(3) {
                        0 => L::PrecisionTimestamp(e::literal::PrecisionTimestamp { precision, value }),
                        1 => L::PrecisionTimestampTz(e::literal::PrecisionTimestamp { precision, value }),
                        _ => L::PrecisionTime(e::literal::PrecisionTime { precision, value }),
                    };
                    ("precision", lit(Some(l)))
                }
                24 => ("no reference", p::Expression { rex_type: Some(R::Selection(Default::default())) }),
                25 => {
                    let s = e::FieldReference {
                        reference_type: Some(e::field_reference::ReferenceType::MaskedReference(Default::default())),
                        root_type: Some(e::field_reference::RootType::RootReference(Default::default())),
                    };
                    ("masked", p::Expression { rex_type: Some(R::Selection(Box::new(s))) })
                }
                26 => ("cast of nothing", p::Expression { rex_type: Some(R::Cast(Default::default())) }),
                27 => ("if of nothing", p::Expression { rex_type: Some(R::IfThen(Default::default())) }),
                28 => ("time range", lit(Some(L::PrecisionTime(e::literal::PrecisionTime { precision: 6, value: *rng.pick(&[-1, 86_400_000_000, i64::MAX, i64::MIN]) })))),
                _ => {
                    let f = e::ScalarFunction { function_reference: nofn, output_type: Some(ty_i64()), ..Default::default() };
                    ("unknown function", p::Expression { rex_type: Some(R::ScalarFunction(f)) })
                }
            };
            dynp::put(&mut broken, &at, &x);
            what = format!("expression: {name}");
        }
        "substrait.Type" => {
            let Some((at, _)) = pick(rng, &["substrait.Type"]) else { return Ok(()) };
            use p::r#type as t;
            let user = |a| p::Type {
                kind: Some(t::Kind::UserDefined(t::UserDefined { type_reference: a, nullability: 2, ..Default::default() })),
            };
            dynp::put(&mut base, &at, &user(mark));
            marker = Some("vxmark".into());
            let (name, x) = match rng.below(6) {
                0 => ("no kind", p::Type { kind: None }),
                1 => ("unknown user type", user(notype)),
                2 => {
                    let l = t::List { r#type: None, nullability: 2, type_variation_reference: 0 };
                    ("list of nothing", p::Type { kind: Some(t::Kind::List(Box::new(l))) })
                }
                3 => ("unknown type reference", p::Type { kind: Some(t::Kind::UserDefinedTypeReference(notype)) }),
                4 => {
                    let m = t::Map { key: None, value: Some(Box::new(ty_i64())), nullability: 2, type_variation_reference: 0 };
                    ("map without key", p::Type { kind: Some(t::Kind::Map(Box::new(m))) })
                }
                _ => {
                    let mut u = user(mark);
                    if let Some(t::Kind::UserDefined(x)) = u.kind.as_mut() {
                        x.type_parameters.push(t::Parameter { parameter: None });
                    }
                    ("empty parameter", u)
                }
            };
            dynp::put(&mut broken, &at, &x);
            what = format!("type: {name}");
        }
        "substrait.Rel" => {
            let Some((at, _)) = pick(rng, &["substrait.Rel"]) else { return Ok(()) };
            use p::rel::RelType as T;
            let read = p::Rel {
                rel_type: Some(T::Read(Box::new(p::ReadRel {
                    base_schema: Some(p::NamedStruct { names: vec![], r#struct: Some(Default::default()) }),
                    read_type: Some(p::read_rel::ReadType::NamedTable(p::read_rel::NamedTable {
                        names: vec![MARK.into()],
                        advanced_extension: None,
                    })),
                    ..Default::default()
                }))),
            };
            dynp::put(&mut base, &at, &read);
            let (name, t) = match rng.below(11) {
                0 => ("none", None),
                1 => ("hash join", Some(T::HashJoin(Default::default()))),
                2 => ("merge join", Some(T::MergeJoin(Default::default()))),
                3 => ("nested loop join", Some(T::NestedLoopJoin(Default::default()))),
                4 => ("exchange", Some(T::Exchange(Default::default()))),
                5 => ("window", Some(T::Window(Default::default()))),
                6 => ("expand", Some(T::Expand(Default::default()))),
                7 => ("write", Some(T::Write(Default::default()))),
                8 => ("ddl", Some(T::Ddl(Default::default()))),
                9 => ("update", Some(T::Update(Default::default()))),
                _ => ("reference", Some(T::Reference(Default::default()))),
            };
            dynp::put(&mut broken, &at, &p::Rel { rel_type: t });
            what = format!("relation: {name}");
        }
        "enum" => {
            let Some((at, n)) = pick(rng, &[
                "substrait.JoinRel",
                "substrait.SetRel",
                "substrait.SortField",
                "substrait.Expression.Cast",
            ]) else {
                return Ok(());
            };
            let f = match n.as_str() {
                "substrait.JoinRel" => "type",
                "substrait.SetRel" => "op",
                "substrait.SortField" => "direction",
                _ => "failure_behavior",
            };
            if n == "substrait.JoinRel" {
                dynp::at_mut(&mut base, &at).set_field_by_name(f, Value::EnumNumber(1));
            }
            let v = match n.as_str() {
                "substrait.Expression.Cast" => *rng.pick(&[99, -1]),
                "substrait.SortField" => *rng.pick(&[0, 99, -1]),
                _ => *rng.pick(&[0, 99, -1, i32::MAX]),
            };
            dynp::at_mut(&mut broken, &at).set_field_by_name(f, Value::EnumNumber(v));
            what = format!("enum: {n} {v}");
        }
        "field" => {
            const FIELDS: [(&str, &str); 17] = [
                ("substrait.FilterRel", "condition"),
                ("substrait.JoinRel", "expression"),
                ("substrait.SortField", "expr"),
                ("substrait.Expression.Cast", "input"),
                ("substrait.Expression.Cast", "type"),
                ("substrait.Expression.IfThen", "else"),
                ("substrait.Expression.IfThen.IfClause", "if"),
                ("substrait.Expression.IfThen.IfClause", "then"),
                ("substrait.Expression.ScalarFunction", "output_type"),
                ("substrait.AggregateFunction", "output_type"),
                ("substrait.AggregateRel.Measure", "measure"),
                ("substrait.FunctionArgument", "value"),
                ("substrait.Type.List", "type"),
                ("substrait.Type.Parameter", "data_type"),
                ("substrait.FilterRel", "input"),
                ("substrait.RelRoot", "input"),
                ("substrait.ReadRel", "base_schema"),
            ];
            let (own, f) = *rng.pick(&FIELDS);
            let Some((at, _)) = pick(rng, &[own]) else { return Ok(()) };
            let has = dynp::at_mut(&mut base, &at).has_field_by_name(f);
            if !has {
                return Ok(());
            }
            dynp::at_mut(&mut broken, &at).clear_field_by_name(f);
            let num = dynp::desc(own).get_field_by_name(f).unwrap().number();
            let mut sub = at.clone();
            sub.push((num, None));
            if f == "input" && own != "substrait.Expression.Cast" {
                // No input has no columns.
                let read = p::Rel {
                    rel_type: Some(p::rel::RelType::Read(Box::new(p::ReadRel {
                        base_schema: Some(p::NamedStruct { names: vec![], r#struct: Some(Default::default()) }),
                        read_type: Some(p::read_rel::ReadType::NamedTable(Default::default())),
                        ..Default::default()
                    }))),
                };
                dynp::put(&mut base, &sub, &read);
            }
            if f == "base_schema" {
                let s = p::NamedStruct {
                    names: vec!["x".into()],
                    r#struct: Some(p::r#type::Struct { types: vec![ty_i64()], ..Default::default() }),
                };
                dynp::put(&mut base, &sub, &s);
                let c = dynp::desc("substrait.ReadRel").get_field_by_name("common").unwrap();
                dynp::at_mut(&mut base, &at).clear_field(&c);
                dynp::at_mut(&mut broken, &at).clear_field(&c);
            }
            what = format!("missing: {own}.{f}");
        }
        "any" => {
            let Some((at, _)) = pick(rng, &["google.protobuf.Any"]) else { return Ok(()) };
            let mut a: pbjson_types::Any = dynp::get(&mut base, &at);
            let Ok(mut msg) = ext::GenMsg::decode(&a.value[..]) else { return Ok(()) };
            let rel = msg.tag < 100;
            if rel {
                // A relation that cannot be decoded shows as one column.
                msg.cols = vec![ext::PCol { name: MARK.into(), ty: Some(ty_i64()), ex: None }];
                a.value = msg.encode_to_vec().into();
                dynp::put(&mut base, &at, &a);
            }
            let name = match rng.below(4) {
                0 => {
                    a.type_url = "type.googleapis.com/vx.Unknown".into();
                    "unknown url"
                }
                1 => {
                    msg.poison = 1;
                    a.value = msg.encode_to_vec().into();
                    "handler fails"
                }
                2 => {
                    a.value = vec![0xff, 0xff, 0xff].into();
                    "undecodable"
                }
                _ => {
                    msg.tag += 1;
                    a.value = msg.encode_to_vec().into();
                    "payload of another handler"
                }
            };
            dynp::put(&mut broken, &at, &a);
            what = format!("extension: {name}");
        }
        "emit" => {
            // An output index beyond the columns, not on a Read (which lists its mapping).
            let v: Vec<_> = all
                .iter()
                .filter(|n| n.1 == "substrait.RelCommon.Emit")
                .filter(|n| {
                    let owner = &n.0[..n.0.len() - 2];
                    all.iter().any(|x| {
                        x.0 == owner && x.1 != "substrait.ReadRel" && !x.1.contains("Extension")
                    })
                })
                .collect();
            if v.is_empty() {
                return Ok(());
            }
            let at = (*rng.pick(&v)).0.clone();
            let node = dynp::at_mut(&mut broken, &at);
            let f = prost_reflect::ReflectMessage::descriptor(node).get_field_by_name("output_mapping").unwrap();
            if let Value::List(l) = node.get_field_mut(&f) {
                if l.is_empty() {
                    return Ok(());
                }
                let k = rng.below(l.len());
                l[k] = Value::I32(*rng.pick(&[-1, 1000, i32::MAX, i32::MIN]));
            }
            what = "emit out of range".into();
        }
        "call" => {
            let Some((at, _)) = pick(rng, &["substrait.Expression.ScalarFunction"]) else { return Ok(()) };
            dynp::at_mut(&mut broken, &at).set_field_by_name("function_reference", Value::U32(nofn));
            what = "undeclared function".into();
        }
        _ => {
            let Some((at, _)) = pick(rng, &["substrait.AggregateFunction"]) else { return Ok(()) };
            dynp::at_mut(&mut broken, &at).set_field_by_name("function_reference", Value::U32(nofn));
            what = "undeclared aggregate".into();
        }
    }
    let (Some(bp), Some(xp)) = (dynp::to_plan(&base), dynp::to_plan(&broken)) else { return Ok(()) };
    let (bt, be) = sound(env, &bp)?;
    let (xt, xe) = sound(env, &xp)?;
    env.ev(&what);
    env.eval(&xp.encode_to_vec(), true);
    env.sample(|| format!("{what}\n{xt}"));
    let show = |why: &str| format!("{what}: {why}\n--- errors\n{xe:?}\n--- neutral\n{bt}\n--- broken\n{xt}");
    // Hidden parts (computed columns that are not output) may legitimately not show.
    if let Some(mk) = &marker
        && !plan_part(&bt).contains(mk.as_str())
    {
        env.ev("damage in a part that is not output");
        return Ok(());
    }
    if xe.len() <= be.len() {
        return bad("a part that cannot be rendered is not reported", show("no additional error"));
    }
    if tokens_outside(&xt) <= tokens_outside(&bt) {
        return bad("a part that cannot be rendered leaves no failure token", show("no token"));
    }
    let (bl, xl): (Vec<&str>, Vec<&str>) = (bt.split('\n').collect(), xt.split('\n').collect());
    if bl.len() != xl.len() {
        return bad("damage changes the number of lines", show("line count"));
    }
    for (b, x) in bl.iter().zip(&xl) {
        if b == x {
            continue;
        }
        if !x.contains("!{") {
            return bad("damage changes a line without a failure token", show(&format!("\n  {b:?}\n  {x:?}")));
        }
        if let Some(mk) = &marker {
            // The rest of the line is as before.
            let parts: Vec<&str> = b.split(mk.as_str()).collect();
            let mut rest: &str = x;
            for (k, part) in parts.iter().enumerate() {
                let found = if k == 0 { rest.strip_prefix(part) } else if k + 1 == parts.len() {
                    if rest.ends_with(part) { Some("") } else { None }
                } else {
                    rest.find(part).map(|i| &rest[i + part.len()..])
                };
                match found {
                    Some(r) => rest = r,
                    None => return bad("damage changes the rest of its line", show(&format!("\n  {b:?}\n  {x:?}"))),
                }
            }
        }
    }
    Ok(())
}
fn ty_i64() -> p::Type {
    Enc::canon().ty(&Ty { k: TyK::Simple(4), n: false })
}

/// Single plans with one attribute that the text format has no place for: the formatter must
/// report it. The ones it is known not to report are listed in known-findings.txt.
pub fn probes(env: &mut Env) -> Vec<(&'static str, Res)> {
    use p::rel::RelType as T;
    let lit = |b| Enc::canon().ex(&Ex::Lit(Lit { v: LitV::Bool(b), n: false }));
    let m = {
        let i64t = Ty { k: TyK::Simple(4), n: false };
        let cols = vec![("a".to_string(), i64t.clone()), ("b".to_string(), i64t.clone())];
        let read = MRel::leafish(Op::Read { table: vec!["t".into()], cols: cols.clone(), emit: None });
        let virt = MRel::leafish(Op::Virt { rows: vec![], cols: cols.clone(), filter: None });
        let rext = MRel::leafish(Op::RExt { cols, inv: Inv::default() });
        let call = Ex::Call(1, vec![Ex::Ref(0)], i64t.clone());
        let agg = MRel {
            op: Op::Agg { g: vec![Ex::Ref(0)], sets: vec![vec![0]], outs: vec![AOut::G(0), AOut::M(call)] },
            kids: vec![read.clone()],
            enh: None,
            opts: vec![],
        };
        let inv = Inv { cols: vec![ECol::Named("a".into(), i64t.clone()), ECol::Named("b".into(), i64t)], ..Default::default() };
        let ext = MRel::leafish(Op::Ext { kind: 0, inv });
        MPlan {
            version: None,
            decls: Decls {
                urns: vec![(1, "/u".into())],
                funcs: vec![Decl { anchor: 1, urn: 1, name: "sum".into() }],
                ..Default::default()
            },
            trees: [read, virt, rext, agg, ext].into_iter().map(|rel| MTree { root: None, rel }).collect(),
        }
    };
    let plan = canon_proto(&m);
    let rel = |plan: &mut p::Plan, k: usize, f: &dyn Fn(&mut T)| {
        if let Some(p::plan_rel::RelType::Rel(r)) = plan.relations[k].rel_type.as_mut() {
            f(r.rel_type.as_mut().unwrap());
        }
    };
    let read = |k: usize, f: &dyn Fn(&mut p::ReadRel)| {
        let mut x = plan.clone();
        rel(&mut x, k, &|t| {
            if let T::Read(r) = t {
                f(r)
            }
        });
        x
    };
    let measure = |f: &dyn Fn(&mut p::aggregate_rel::Measure)| {
        let mut x = plan.clone();
        rel(&mut x, 3, &|t| {
            if let T::Aggregate(r) = t {
                f(&mut r.measures[0])
            }
        });
        x
    };
    let swap = || {
        Some(p::RelCommon {
            emit_kind: Some(p::rel_common::EmitKind::Emit(p::rel_common::Emit { output_mapping: vec![1, 0] })),
            ..Default::default()
        })
    };
    let mut ext_emit = plan.clone();
    rel(&mut ext_emit, 4, &|t| {
        if let T::ExtensionLeaf(r) = t {
            r.common = swap();
        }
    });
    let cases: Vec<(&'static str, p::Plan)> = vec![
        ("named-table-filter", read(0, &|r| r.filter = Some(Box::new(lit(true))))),
        ("named-table-best-effort-filter", read(0, &|r| r.best_effort_filter = Some(Box::new(lit(true))))),
        ("named-table-projection", read(0, &|r| r.projection = Some(Default::default()))),
        ("virtual-table-best-effort-filter", read(1, &|r| r.best_effort_filter = Some(Box::new(lit(true))))),
        ("virtual-table-projection", read(1, &|r| r.projection = Some(Default::default()))),
        ("virtual-table-emit", read(1, &|r| r.common = swap())),
        ("extension-table-filter", read(2, &|r| r.filter = Some(Box::new(lit(true))))),
        ("extension-table-emit", read(2, &|r| r.common = swap())),
        ("extension-relation-emit", ext_emit),
        ("measure-filter", measure(&|m| m.filter = Some(lit(true)))),
        ("measure-distinct", measure(&|m| m.measure.as_mut().unwrap().invocation = 2)),
        ("measure-phase", measure(&|m| m.measure.as_mut().unwrap().phase = 1)),
        ("measure-sorts", measure(&|m| m.measure.as_mut().unwrap().sorts = vec![Default::default()])),
    ];
    let (clean, e) = match fmt_default(&env.reg, &plan) {
        Ok(x) => x,
        Err(b) => return vec![("base", Err(b))],
    };
    if !e.is_empty() {
        return vec![("base", bad("the formatter reported errors on a supported plan", format!("{e:?}\n{clean}")))];
    }
    cases
        .into_iter()
        .map(|(k, x)| {
            let r = match fmt_default(&env.reg, &x) {
                Err(b) => Err(b),
                Ok((t, e)) if e.is_empty() => {
                    bad("an attribute the text cannot show is not reported", format!("{k}\n--- text\n{t}"))
                }
                Ok(_) => Ok(()),
            };
            (k, r)
        })
        .collect()
}
