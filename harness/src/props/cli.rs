//! The command line: conversions (C13), outcomes and messages (C17).
use super::*;
use crate::dynp;
use crate::genr;
use clap::Parser as _;
use prost_reflect::{DescriptorPool, DynamicMessage, SerializeOptions};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use substrait_explain::cli::{Cli, Commands, Format, Outcome};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        rule: "random supported plans through random chains of conversions between text, JSON, YAML and protobuf, random plans of the full schema (finite numbers, known enum values) through chains of JSON, YAML and protobuf, and JSON written by an independent protobuf JSON serializer with snake_case or camelCase names, numbers or strings for 64-bit integers, enum names or numbers and inlined extension messages; the plan at the end of each is compared byte by byte. Distinct by plan and chain",
        quick: 3_000,
        thorough: 40_000,
        case_cpu: 20.0,
        assume: &[],
        run: c13,
    },
    Prop {
        id: "C17",
        rule: "random command lines (convert, validate; files and streams; every extension and explicit format; valid, lossy, malformed, mislabelled, missing and unreadable input; writable, absent, pre-existing, full and identical-to-input outputs) run as processes of the real binary and in-process with slow, interrupted and failing streams; exit status, output bytes and messages are compared with an oracle. Distinct by command line and content",
        quick: 10_000,
        thorough: 120_000,
        case_cpu: 30.0,
        assume: &[],
        run: c17,
    },
];

const FMTS: [Format; 4] = [Format::Text, Format::Json, Format::Yaml, Format::Protobuf];

fn convert_cli(input: &str, output: &str, from: Option<Format>, to: Option<Format>) -> Cli {
    Cli {
        command: Commands::Convert { input: input.into(), output: output.into(), from, to, show_literal_types: false, verbose: false },
    }
}
fn exts_of(f: &Format) -> &'static [&'static str] {
    match f {
        Format::Text => &["substrait", "txt"],
        Format::Json => &["json"],
        Format::Yaml => &["yaml", "yml"],
        Format::Protobuf => &["pb", "proto", "protobuf"],
    }
}
/// One conversion through the command line's entry point.
fn convert(reg: &ExtensionRegistry, r: &mut Rng, from: &Format, to: &Format, data: &[u8]) -> Result<Vec<u8>, Bad> {
    let name = |r: &mut Rng, f: &Format| {
        let e = *r.pick(exts_of(f));
        if r.coin() { format!("a.b/c.{e}") } else { format!("x.{}", e.to_uppercase()) }
    };
    let (i, fi) = if r.coin() { (name(r, from), None) } else { ("-".to_string(), Some(from.clone())) };
    let (o, fo) = if r.coin() { (name(r, to), None) } else { ("-".to_string(), Some(to.clone())) };
    let cli = convert_cli(&i, &o, fi, fo);
    let mut out = vec![];
    let res = guard(|| cli.run_with_io(data, &mut out, reg).map_err(|e| format!("{e:?}")));
    let show = || String::from_utf8_lossy(data).to_string();
    match res {
        Ok(Ok(Outcome::Success)) => Ok(out),
        Ok(Ok(Outcome::HadFormattingIssues(e))) => {
            bad("a conversion reported issues", format!("{from:?} to {to:?}: {e:?}\n{}", show()))
        }
        Ok(Err(e)) => bad("a conversion failed", format!("{from:?} to {to:?}: {e}\n{}", show())),
        Err(m) => bad("a conversion panicked", format!("{from:?} to {to:?}: {m}\n{}", show())),
    }
}

/// Descriptors of the recording handlers' messages, as a compiler would produce them.
fn vx_file() -> prost_types::FileDescriptorProto {
    use prost_types::field_descriptor_proto::{Label, Type};
    use prost_types::{DescriptorProto, FieldDescriptorProto, FileDescriptorProto, OneofDescriptorProto};
    let field = |name: &str, n: i32, ty: Type, rep: bool, tn: Option<&str>, oneof: Option<i32>| FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(if rep { Label::Repeated } else { Label::Optional } as i32),
        r#type: Some(ty as i32),
        type_name: tn.map(|s| s.into()),
        oneof_index: oneof,
        json_name: None,
        ..Default::default()
    };
    let mut msgs = vec![
        DescriptorProto {
            name: Some("PArg".into()),
            field: vec![
                field("s_val", 1, Type::String, false, None, Some(0)),
                field("i_val", 2, Type::Int64, false, None, Some(0)),
                field("f_val", 3, Type::Double, false, None, Some(0)),
                field("b_val", 4, Type::Bool, false, None, Some(0)),
                field("n_val", 5, Type::Bool, false, None, Some(0)),
                field("e_val", 6, Type::String, false, None, Some(0)),
                field("t_val", 7, Type::Message, false, Some(".vx.PTuple"), Some(0)),
                field("x_val", 8, Type::Message, false, Some(".substrait.Expression"), Some(0)),
            ],
            oneof_decl: vec![OneofDescriptorProto { name: Some("v".into()), options: None }],
            ..Default::default()
        },
        DescriptorProto {
            name: Some("PTuple".into()),
            field: vec![field("items", 1, Type::Message, true, Some(".vx.PArg"), None)],
            ..Default::default()
        },
        DescriptorProto {
            name: Some("PNamed".into()),
            field: vec![
                field("k", 1, Type::String, false, None, None),
                field("v", 2, Type::Message, false, Some(".vx.PArg"), None),
            ],
            ..Default::default()
        },
        DescriptorProto {
            name: Some("PCol".into()),
            field: vec![
                field("name", 1, Type::String, false, None, None),
                field("ty", 2, Type::Message, false, Some(".substrait.Type"), None),
                field("ex", 3, Type::Message, false, Some(".substrait.Expression"), None),
            ],
            ..Default::default()
        },
    ];
    for n in 0..9 {
        msgs.push(DescriptorProto {
            name: Some(format!("U{n}")),
            field: vec![
                field("pos", 1, Type::Message, true, Some(".vx.PArg"), None),
                field("named_args", 2, Type::Message, true, Some(".vx.PNamed"), None),
                field("cols", 3, Type::Message, true, Some(".vx.PCol"), None),
                field("tag", 4, Type::Uint32, false, None, None),
                field("poison", 5, Type::Uint32, false, None, None),
            ],
            ..Default::default()
        });
    }
    FileDescriptorProto {
        name: Some("vx.proto".into()),
        package: Some("vx".into()),
        dependency: vec!["substrait/algebra.proto".into(), "substrait/type.proto".into()],
        message_type: msgs,
        syntax: Some("proto3".into()),
        ..Default::default()
    }
}
fn vx_blob(with_deps: bool) -> Vec<u8> {
    let mut s = prost_types::FileDescriptorSet::default();
    if with_deps {
        s = prost_types::FileDescriptorSet::decode(p::FILE_DESCRIPTOR_SET).unwrap();
    }
    s.file.push(vx_file());
    s.encode_to_vec()
}
fn other_blob() -> Vec<u8> {
    let f = prost_types::FileDescriptorProto { name: Some("other.proto".into()), package: Some("other".into()), syntax: Some("proto3".into()), ..Default::default() };
    prost_types::FileDescriptorSet { file: vec![f] }.encode_to_vec()
}
fn vx_pool() -> &'static DescriptorPool {
    static P: OnceLock<DescriptorPool> = OnceLock::new();
    P.get_or_init(|| DescriptorPool::decode(&vx_blob(true)[..]).unwrap())
}
/// Registries with the descriptors given in different ways.
fn described(k: usize) -> &'static ExtensionRegistry {
    static R: OnceLock<Vec<ExtensionRegistry>> = OnceLock::new();
    &R.get_or_init(|| {
        let blobs: Vec<Vec<Vec<u8>>> = vec![
            vec![vx_blob(false)],
            vec![vx_blob(true)],
            vec![other_blob(), vx_blob(true), vx_blob(false)],
        ];
        blobs
            .into_iter()
            .map(|bs| {
                let mut r = crate::ext::registry();
                for b in bs {
                    r.add_descriptor(b);
                }
                r
            })
            .collect()
    })[k]
}
/// Protobuf JSON written by prost-reflect rather than by the crate under test.
fn std_json(pool: &DescriptorPool, plan: &p::Plan, o: &SerializeOptions) -> Option<String> {
    let d = DynamicMessage::decode(pool.get_message_by_name("substrait.Plan")?, &plan.encode_to_vec()[..]).ok()?;
    let mut out = vec![];
    let mut s = serde_json::Serializer::new(&mut out);
    d.serialize_with_options(&mut s, o).ok()?;
    String::from_utf8(out).ok()
}
/// The plan with every recorded payload encoded in one way.
fn settled(mut plan: p::Plan) -> p::Plan {
    super::exts::anys(&mut plan, &mut |a| {
        if let Ok(m) = crate::ext::GenMsg::decode(a.value.clone()) {
            a.value = m.encode_to_vec().into();
        }
    });
    plan
}
fn any_count(v: &serde_json::Value) -> usize {
    match v {
        serde_json::Value::Object(m) => m.contains_key("@type") as usize + m.values().map(any_count).sum::<usize>(),
        serde_json::Value::Array(a) => a.iter().map(any_count).sum(),
        _ => 0,
    }
}
fn has_any(plan: &p::Plan) -> bool {
    dynp::nodes(&dynp::to_dyn(plan)).iter().any(|n| n.1 == "google.protobuf.Any")
}

fn read_as(reg: &ExtensionRegistry, f: &Format, data: &[u8]) -> Result<Result<p::Plan, String>, Bad> {
    match guard(|| f.read_plan(data, reg).map_err(|e| format!("{e:?}"))) {
        Ok(r) => Ok(r),
        Err(m) => bad("a reader panicked", format!("{f:?}: {m}\n{}", String::from_utf8_lossy(data))),
    }
}

fn chain(env: &mut Env, rng: &mut Rng, reg: &ExtensionRegistry, plan: &p::Plan, fmts: &[Format], start: usize, data: Vec<u8>) -> Res {
    let n = 2 + rng.below(5);
    let mut cur = fmts[start].clone();
    let mut data = data;
    let mut names = format!("{cur:?}");
    for _ in 0..n {
        let to = rng.pick(fmts).clone();
        data = convert(reg, rng, &cur, &to, &data)?;
        env.ev(&format!("{cur:?} to {to:?}"));
        names.push_str(&format!(" {to:?}"));
        cur = to;
        // The intermediate file holds the plan, too.
        let got = match read_as(reg, &cur, &data)? {
            Ok(p) => p,
            Err(e) => return bad("a converted file is rejected", format!("{names}: {e}\n{}", String::from_utf8_lossy(&data))),
        };
        if !same(&got, plan) {
            return bad("a conversion changed the plan", format!("{names}: {}\n{}", plan_diff(&got, plan), String::from_utf8_lossy(&data)));
        }
    }
    let mut id = plan.encode_to_vec();
    id.extend(names.as_bytes());
    env.eval(&id, true);
    Ok(())
}

fn c13(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    genr::JSON_EXACT.set(true);
    let c = Cfg { max_rels: if i % 8 == 0 { 12 } else { 4 }, ..Default::default() };
    let (mut g, m) = plan_of(&mut rng, c);
    let plan = canon_proto(&m);
    let text = if rng.coin() { canon_text(&m) } else { Pr::styled(&m.decls, g.r.fork()).plan(&m) };
    env.sample(|| text.clone());
    let reg = described((i % 3) as usize);
    chain(env, &mut rng, reg, &plan, &FMTS, 0, text.into_bytes())?;
    let (s, d) = match rng.below(3) {
        0 => (1, serde_json::to_vec(&plan).unwrap()),
        1 => (2, serde_yaml::to_string(&plan).unwrap().into_bytes()),
        _ => (3, plan.encode_to_vec()),
    };
    chain(env, &mut rng, reg, &plan, &FMTS, s, d)?;
    // Any plan at all between the lossless formats.
    let w = {
        let mut r2 = rng.fork();
        let budget = *r2.pick(&[20, 60, 150]);
        dynp::to_plan(&dynp::Wild { r: &mut r2, budget, tame: true }.message(&dynp::desc("substrait.Plan"), 0)).unwrap()
    };
    // prost may normalise what reflection wrote (defaults in oneofs); take its form.
    let d = w.encode_to_vec();
    env.ev("wild plan");
    chain(env, &mut rng, &env.reg.clone(), &w, &FMTS[1..], 2, d)?;
    // JSON of other writers.
    let o = SerializeOptions::new()
        .use_proto_field_name(rng.coin())
        .stringify_64_bit_integers(rng.coin())
        .use_enum_numbers(rng.chance(1, 4))
        .skip_default_fields(rng.chance(2, 3));
    if let Some(j) = std_json(vx_pool(), &plan, &o) {
        let inlined = any_count(&serde_json::from_str(&j).unwrap());
        env.ev(if inlined > 0 { "standard JSON, inlined messages" } else { "standard JSON" });
        env.eval(j.as_bytes(), true);
        match read_as(reg, &Format::Json, j.as_bytes())? {
            // (the order in which an inlined message is encoded is the reader's choice)
            Ok(p) if same(&settled(p.clone()), &settled(plan.clone())) => {}
            Ok(p) => return bad("standard JSON reads as another plan", format!("{}\n{j}", plan_diff(&settled(p), &settled(plan.clone())))),
            Err(e) => return bad("standard JSON is rejected", format!("{e}\n{j}")),
        }
        if inlined > 0 {
            match read_as(&env.reg, &Format::Json, j.as_bytes())? {
                Err(_) => env.ev("inlined message without descriptor rejected"),
                Ok(p) => {
                    return bad("an inlined message of unknown type is accepted", format!("{}\n{j}", plan_diff(&p, &plan)));
                }
            }
        }
    } else {
        return bad("harness: standard JSON not written", "");
    }
    if let Some(j) = std_json(dynp::pool(), &w, &o) {
        // (a plan with Any payloads cannot be written without their descriptors)
        if !has_any(&w) {
            env.ev("standard JSON, wild plan");
            match read_as(&env.reg, &Format::Json, j.as_bytes())? {
                Ok(p) if same(&p, &w) => {}
                Ok(p) => return bad("standard JSON reads as another plan", format!("{}\n{j}", plan_diff(&p, &w))),
                Err(e) => return bad("standard JSON is rejected", format!("{e}\n{j}")),
            }
        }
    }
    Ok(())
}

/// A double that JSON readers without correct rounding misread.
pub fn probes(env: &mut Env) -> Vec<(&'static str, Res)> {
    let lit = Enc::canon().ex(&Ex::Lit(Lit { v: LitV::F64(97.45430973087721), n: false }));
    let rel = p::Rel { rel_type: Some(p::rel::RelType::Project(Box::new(p::ProjectRel { expressions: vec![lit], ..Default::default() }))) };
    let plan = p::Plan {
        relations: vec![p::PlanRel { rel_type: Some(p::plan_rel::RelType::Rel(rel)) }],
        ..Default::default()
    };
    let r = match read_as(&env.reg, &Format::Json, &serde_json::to_vec(&plan).unwrap()) {
        Err(b) => Err(b),
        Ok(Err(e)) => bad("JSON rejected", e),
        Ok(Ok(p)) if same(&p, &plan) => Ok(()),
        Ok(Ok(p)) => bad("JSON reads as another plan", plan_diff(&p, &plan)),
    };
    vec![("json-double", r)]
}

// ---------------------------------------------------------------- C17

fn binary() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("se-main")
}
/// What a command line must do.
enum Expect {
    /// Refused or failed: no plan is written.
    Fail,
    /// Written; the formatting issues.
    Done(p::Plan, Format, bool, Vec<String>),
}
/// Our own table of extensions.
fn detect(path: &str) -> Option<Format> {
    if path == "-" {
        return None;
    }
    let base = path.rsplit('/').next().unwrap();
    let (stem, ext) = base.rsplit_once('.')?;
    if stem.is_empty() {
        return None;
    }
    let e = ext.to_ascii_lowercase();
    FMTS.iter().find(|f| exts_of(f).contains(&e.as_str())).cloned()
}
fn expected_text(plan: &p::Plan, types: bool, reg: &ExtensionRegistry) -> (String, Vec<String>) {
    let mut o = OutputOptions::default();
    if types {
        o.literal_types = substrait_explain::Visibility::Always;
    }
    let (t, e) = substrait_explain::format_with_registry(plan, &o, reg);
    (t, e.iter().map(|x| x.to_string()).collect())
}
fn check_output(got: &[u8], plan: &p::Plan, f: &Format, types: bool, reg: &ExtensionRegistry) -> Result<(), String> {
    match f {
        Format::Text => {
            let (t, _) = expected_text(plan, types, reg);
            if got != t.as_bytes() {
                return Err(format!("text differs: {}", text_diff(&String::from_utf8_lossy(got), &t)));
            }
        }
        Format::Json | Format::Yaml | Format::Protobuf => {
            let p: Result<p::Plan, String> = match f {
                Format::Json => serde_json::from_slice(got).map_err(|e| e.to_string()),
                Format::Yaml => serde_yaml::from_slice(got).map_err(|e| e.to_string()),
                _ => p::Plan::decode(got).map_err(|e| e.to_string()),
            };
            match p {
                Ok(p) if same(&p, plan) => {}
                Ok(p) => return Err(format!("another plan: {}", plan_diff(&p, plan))),
                Err(e) => return Err(format!("unreadable: {e}")),
            }
        }
    }
    Ok(())
}
/// Adds a part that is written in full, but reported: an interval beyond its range.
fn odd(g: &mut Gen, m: &mut MPlan) {
    let (days, secs, sub) = *g.r.pick(&[(4_000_000, 0, 0), (3_650_000, 1, 0), (0, i32::MIN, 0), (0, 0, 1_000_000), (-3_650_001, 0, -5)]);
    let bad = Ex::Lit(Lit { v: LitV::IvDay { p: 6, days, secs, sub }, n: g.r.coin() });
    let rel = atoms::over(Op::Project { outs: vec![POut::Ex(bad)] }, atoms::plain_read(1));
    m.trees.push(MTree { root: None, rel });
}
/// A plan the text format renders with issues.
fn lossy(g: &mut Gen, plan: &mut p::Plan) {
    use p::plan_rel::RelType as T;
    for _ in 0..1 + g.r.below(3) {
        plan.relations.push(p::PlanRel {
            rel_type: Some(T::Rel(match g.r.below(4) {
                0 => p::Rel { rel_type: None },
                1 => p::Rel { rel_type: Some(p::rel::RelType::HashJoin(Default::default())) },
                2 => p::Rel { rel_type: Some(p::rel::RelType::Write(Default::default())) },
                _ => p::Rel {
                    rel_type: Some(p::rel::RelType::ExtensionLeaf(p::ExtensionLeafRel {
                        common: None,
                        detail: Some(pbjson_types::Any { type_url: format!("x/{}", genr::ident(&mut g.r)), value: vec![1].into() }),
                    })),
                },
            })),
        });
    }
}

fn content(g: &mut Gen, plan: &p::Plan, text: &str, f: &Format) -> Vec<u8> {
    match f {
        Format::Text => text.as_bytes().to_vec(),
        Format::Json => {
            if g.r.coin() { serde_json::to_vec(plan).unwrap() } else { serde_json::to_vec_pretty(plan).unwrap() }
        }
        Format::Yaml => serde_yaml::to_string(plan).unwrap().into_bytes(),
        Format::Protobuf => plan.encode_to_vec(),
    }
}
fn garbage(g: &mut Gen, f: &Format, whole: &[u8]) -> Vec<u8> {
    // An otherwise good input with bytes that are not UTF-8, or cut short.
    if *f != Format::Protobuf && g.r.chance(1, 3) {
        let s = std::str::from_utf8(whole).unwrap();
        let mut at = g.r.below(s.len() + 1);
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        let mut d = whole.to_vec();
        let odd: &[u8] = g.r.pick(&[&b"\xe9"[..], b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80"]);
        d.splice(at..at, odd.iter().copied());
        return d;
    }
    if *f == Format::Json && g.r.chance(1, 4) {
        let n = whole.iter().rposition(|b| *b == b'}').unwrap();
        return whole[..g.r.below(n + 1)].to_vec();
    }
    match f {
        Format::Text => match g.r.below(4) {
            0 => b"=== Plan\nNothing[here]\n".to_vec(),
            1 => b"hello\n".to_vec(),
            2 => vec![b'=', b'=', 0xff, 0xfe],
            _ => b"=== Plan\nRead[t => a:i64\n".to_vec(),
        },
        Format::Json => g.r.pick(&[&b"{"[..], b"[1,2]", b"{\"relations\": 3}", b"", b"null", b"{} x", b"{\"relations\":[]}{}", b"\xff"]).to_vec(),
        Format::Yaml => g.r.pick(&[&b"relations: 3"[..], b"- a\n- b", b"{} {}", b"a: [", b"\xff"]).to_vec(),
        Format::Protobuf => g.r.pick(&[&b"\xff\xff"[..], b"\x0a\x05a", b"\x1a\xff\xff\xff\xff\x0f"]).to_vec(),
    }
}

fn c17(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    genr::JSON_EXACT.set(true);
    let c = Cfg { max_rels: 4, ext: false, ..Default::default() };
    let (mut g, mut m) = plan_of(&mut rng, c);
    if g.r.chance(1, 4) {
        odd(&mut g, &mut m);
    }
    let empty = ExtensionRegistry::default();
    let mut plan = canon_proto(&m);
    let text = canon_text(&m);
    if i % 3 == 0 {
        inproc(env, &mut g, &plan, &text)?;
    }
    let validate = g.r.chance(1, 4);
    let flag = |g: &mut Gen, s: &[&str]| g.r.pick(s).to_string();
    let dir = env.dir.join(format!("c{i}"));
    std::fs::create_dir_all(&dir).unwrap();
    let all_exts = ["substrait", "txt", "json", "yaml", "yml", "pb", "proto", "protobuf", "JSON", "Txt", "YML", "bin", "", "text", "jsn"];
    let fname = |g: &mut Gen, base: &str, want: Option<&Format>| {
        let e = match want {
            Some(f) if g.r.chance(3, 4) => g.r.pick(exts_of(f)).to_string(),
            _ => g.r.pick(&all_exts).to_string(),
        };
        if e.is_empty() { base.to_string() } else { format!("{base}.{e}") }
    };
    // Input.
    let in_fmt = if validate { Format::Text } else { g.r.pick(&FMTS).clone() };
    let lossy_in = in_fmt != Format::Text && g.r.chance(1, 3);
    if lossy_in {
        lossy(&mut g, &mut plan);
    }
    let kind = *g.r.pick(&["valid", "valid", "valid", "valid", "garbage", "missing", "mislabelled", "directory"]);
    let stdin_in = g.r.chance(1, 3) && matches!(kind, "valid" | "garbage" | "mislabelled");
    let data = match kind {
        "garbage" => {
            let whole = content(&mut g, &plan, &text, &in_fmt);
            garbage(&mut g, &in_fmt, &whole)
        }
        _ => content(&mut g, &plan, &text, &in_fmt),
    };
    let in_name = fname(&mut g, "in", Some(&in_fmt));
    let in_arg = if stdin_in { "-".to_string() } else { dir.join(&in_name).to_string_lossy().to_string() };
    if !stdin_in {
        match kind {
            "missing" => {}
            "directory" => std::fs::create_dir(dir.join(&in_name)).unwrap(),
            _ => std::fs::write(dir.join(&in_name), &data).unwrap(),
        }
    }
    let mut from: Option<Format> = None;
    let mut cmd: Vec<String> = vec![if validate { "validate" } else { "convert" }.into()];
    if in_arg != "-" || g.r.coin() {
        cmd.extend([flag(&mut g, &["-i", "--input"]), in_arg.clone()]);
    }
    let spell = |g: &mut Gen, f: &Format| {
        let s: &[&str] = match f {
            Format::Text => &["text", "TEXT", "Text"],
            Format::Json => &["json", "Json"],
            Format::Yaml => &["yaml", "YAML"],
            Format::Protobuf => &["protobuf", "proto", "pb", "PB"],
        };
        g.r.pick(s).to_string()
    };
    let mut bogus = false;
    if !validate {
        let explicit = if kind == "mislabelled" {
            Some(FMTS.iter().find(|f| **f != in_fmt && (**f != Format::Text || in_fmt != Format::Text)).unwrap().clone())
        } else if stdin_in || detect(&in_arg) != Some(in_fmt.clone()) {
            if g.r.chance(7, 8) { Some(in_fmt.clone()) } else { None }
        } else if g.r.chance(1, 3) {
            Some(in_fmt.clone())
        } else {
            None
        };
        if let Some(f) = &explicit {
            cmd.extend([flag(&mut g, &["-f", "--from"]), spell(&mut g, f)]);
        } else if g.r.chance(1, 20) {
            cmd.extend(["-f".into(), g.r.pick(&["txt", "yml", "xml", "", "binary"]).to_string()]);
            bogus = true;
        }
        from = explicit.or_else(|| detect(&in_arg));
    }
    // Output.
    let out_fmt = if validate { Format::Text } else { g.r.pick(&FMTS).clone() };
    let sink = *g.r.pick(&["file", "file", "file", "stdout", "stdout", "full", "stdout full", "no dir", "existing", "existing", "in place"]);
    let sink = if sink == "in place" && (stdin_in || kind == "directory") { "existing" } else { sink };
    let out_name = fname(&mut g, "out", Some(&out_fmt));
    let out_arg = match sink {
        "file" | "existing" => dir.join(&out_name).to_string_lossy().to_string(),
        "full" => "/dev/full".to_string(),
        "in place" => in_arg.clone(),
        "no dir" => dir.join("absent").join(&out_name).to_string_lossy().to_string(),
        _ => "-".to_string(),
    };
    if sink == "existing" {
        std::fs::write(&out_arg, vec![b'x'; 1 + g.r.below(9000)]).unwrap();
    }
    // What the output file holds beforehand.
    let before = if matches!(sink, "existing" | "in place") { std::fs::read(&out_arg).ok() } else { None };
    if out_arg != "-" || g.r.coin() {
        cmd.extend([flag(&mut g, &["-o", "--output"]), out_arg.clone()]);
    }
    let mut to = Some(Format::Text);
    let mut types = false;
    if !validate {
        let explicit = if out_arg == "-" || detect(&out_arg) != Some(out_fmt.clone()) {
            if g.r.chance(7, 8) { Some(out_fmt.clone()) } else { None }
        } else if g.r.chance(1, 3) {
            Some(out_fmt.clone())
        } else {
            None
        };
        if let Some(f) = &explicit {
            cmd.extend([flag(&mut g, &["-t", "--to"]), spell(&mut g, f)]);
        }
        to = explicit.or_else(|| detect(&out_arg));
        if g.r.chance(1, 3) {
            types = true;
            cmd.push("--show-literal-types".into());
        }
    } else {
        from = Some(Format::Text);
    }
    let verbose = g.r.chance(1, 3);
    if verbose {
        cmd.push(flag(&mut g, &["-v", "--verbose"]));
    }
    // The oracle. (An input in another format than labelled is judged by the library's reader.)
    let exp = match (&from, &to) {
        (Some(f), Some(t)) if !bogus && !matches!(kind, "missing" | "directory") && sink != "no dir" => {
            let read = if *f == in_fmt && kind == "valid" { Ok(plan.clone()) } else { read_as(&empty, f, &data)? };
            match read {
                Err(_) => Expect::Fail,
                Ok(_) if sink.contains("full") => Expect::Fail,
                Ok(p) => {
                    if kind == "garbage" && *f == in_fmt {
                        return bad("the reader accepts garbage", format!("{f:?}: {:?}", String::from_utf8_lossy(&data)));
                    }
                    let issues = if *t == Format::Text { expected_text(&p, types, &empty).1 } else { vec![] };
                    Expect::Done(p, t.clone(), types, issues)
                }
            }
        }
        _ => Expect::Fail,
    };
    // Run it.
    let mut c = Command::new(binary());
    c.args(&cmd).env("RUST_BACKTRACE", "0").current_dir(&dir).stderr(Stdio::piped());
    c.stdin(if stdin_in { Stdio::piped() } else { Stdio::null() });
    c.stdout(if sink == "stdout full" {
        Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())
    } else {
        Stdio::piped()
    });
    let mut child = c.spawn().map_err(|e| Bad { what: "harness: cannot run the binary".into(), detail: e.to_string() })?;
    if let Some(mut si) = child.stdin.take() {
        let d = data.clone();
        std::thread::spawn(move || {
            let _ = si.write_all(&d);
        });
    }
    let out = child.wait_with_output().unwrap();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let file = if matches!(sink, "file" | "existing" | "in place") { std::fs::read(&out_arg).ok() } else { None };
    let _ = std::fs::remove_dir_all(&dir);
    let written: &[u8] = if matches!(sink, "file" | "existing" | "in place") { file.as_deref().unwrap_or(b"") } else { &out.stdout };
    env.eval(format!("{cmd:?}{kind}{sink}{:?}", crate::rng::hash_bytes(&data)).as_bytes(), true);
    env.sample(|| format!("{cmd:?} input {kind} output {sink}"));
    env.ev(&format!("input {kind}"));
    env.ev(&format!("output {sink}"));
    let ctx = |w: &str| {
        format!(
            "{w}\ncommand {cmd:?}\ninput {kind}, output {sink}\nstatus {:?}\nstderr {err}\nwritten {}\n--- input\n{}",
            out.status,
            String::from_utf8_lossy(&written[..written.len().min(3000)]),
            String::from_utf8_lossy(&data[..data.len().min(3000)])
        )
    };
    if matches!(sink, "file" | "existing" | "in place") && !out.stdout.is_empty() {
        return bad("output on the standard stream although a file was given", ctx(""));
    }
    let code = match out.status.code() {
        Some(c) => c,
        None => return bad("the command line crashed", ctx("")),
    };
    if err.contains("panicked") {
        return bad("the command line panicked", ctx(""));
    }
    match exp {
        Expect::Fail => {
            env.ev("must fail");
            if code == 0 {
                return bad("a failed run exits with success", ctx(""));
            }
            if err.trim().is_empty() {
                return bad("a failed run says nothing", ctx(""));
            }
            if err.contains("Successfully") {
                return bad("a failed run claims success", ctx(""));
            }
            if let Some(b) = &before {
                if file.as_ref() != Some(b) {
                    return bad("a failed run changes the output file that was there", ctx(""));
                }
            } else if !written.is_empty() {
                return bad("a failed run writes output", ctx(""));
            }
        }
        Expect::Done(plan, f, types, issues) => {
            env.ev(if issues.is_empty() { "must succeed" } else { "must report issues" });
            if let Err(e) = check_output(written, &plan, &f, types, &empty) {
                return bad("the output is wrong", ctx(&e));
            }
            if (code == 0) != issues.is_empty() {
                return bad("the exit status is wrong", ctx(&format!("issues {issues:?}")));
            }
            let mut rest = err.as_str();
            for x in &issues {
                match rest.find(x.as_str()) {
                    Some(at) => rest = &rest[at + x.len()..],
                    None => return bad("an issue is not listed", ctx(x)),
                }
            }
            if issues.is_empty() && (err.contains("issue") || err.to_lowercase().contains("error")) {
                return bad("a successful run reports an error", ctx(""));
            }
            if err.contains("Successfully") != (verbose && issues.is_empty()) {
                return bad("the success message does not match the outcome", ctx(""));
            }
        }
    }
    // Argument parsing agrees with the in-process type.
    if !bogus {
        let parsed = Cli::try_parse_from(std::iter::once("x".to_string()).chain(cmd.iter().cloned()));
        if parsed.is_err() {
            return bad("the command line is not understood", format!("{cmd:?}"));
        }
    }
    Ok(())
}

/// A reader that returns little at a time, is interrupted, and may fail.
struct Slow<'a> {
    d: &'a [u8],
    r: Rng,
    fail_at: Option<usize>,
    pos: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.r.chance(1, 5) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.fail_at.is_some_and(|f| self.pos >= f) {
            return Err(std::io::Error::other("read failed"));
        }
        let n = (1 + self.r.below(7)).min(b.len()).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A writer that takes little at a time and may fail, on writing or only on flushing.
struct Fussy<'a> {
    out: &'a mut Vec<u8>,
    r: Rng,
    fail_at: Option<usize>,
    fail_flush: bool,
    held: Vec<u8>,
    hold: bool,
}
impl Write for Fussy<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.r.chance(1, 5) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.fail_at.is_some_and(|f| self.out.len() + self.held.len() >= f) {
            return Err(std::io::Error::other("write failed"));
        }
        let n = (1 + self.r.below(40)).min(b.len());
        if self.hold {
            self.held.extend_from_slice(&b[..n]);
        } else {
            self.out.extend_from_slice(&b[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.fail_flush {
            return Err(std::io::Error::other("flush failed"));
        }
        self.out.append(&mut self.held);
        Ok(())
    }
}

fn inproc(env: &mut Env, g: &mut Gen, plan: &p::Plan, text: &str) -> Res {
    let mut plan = plan.clone();
    let from = g.r.pick(&FMTS).clone();
    let to = g.r.pick(&FMTS).clone();
    let lossy_in = from != Format::Text && g.r.chance(1, 3);
    if lossy_in {
        lossy(g, &mut plan);
    }
    let data = content(g, &plan, text, &from);
    let fail_read = if g.r.chance(1, 5) { Some(g.r.below(data.len() + 1)) } else { None };
    let fail_write = if g.r.chance(1, 5) { Some(g.r.below(30)) } else { None };
    let fail_flush = g.r.chance(1, 8);
    let types = g.r.coin();
    let validate = from == Format::Text && to == Format::Text && g.r.coin();
    let cli = if validate {
        Cli { command: Commands::Validate { input: "-".into(), output: "-".into(), verbose: false } }
    } else {
        Cli {
            command: Commands::Convert {
                input: "in.json".into(),
                output: "out.yaml".into(),
                from: Some(from.clone()),
                to: Some(to.clone()),
                show_literal_types: types,
                verbose: false,
            },
        }
    };
    let types = types && !validate;
    let mut out = vec![];
    let hold = g.r.chance(1, 3);
    let r = Slow { d: &data, r: g.r.fork(), fail_at: fail_read, pos: 0 };
    let w = Fussy { out: &mut out, r: g.r.fork(), fail_at: fail_write, fail_flush, held: vec![], hold };
    let reg = ExtensionRegistry::default();
    let res = guard(|| cli.run_with_io(r, w, &reg).map_err(|e| format!("{e:?}")));
    let ctx = |w: &str| {
        format!("{w}: {from:?} to {to:?}, read fails {fail_read:?}, write fails {fail_write:?}, flush fails {fail_flush}, result {res:?}\n{}", String::from_utf8_lossy(&data))
    };
    let total = match to {
        Format::Text => expected_text(&plan, types, &reg).0.len(),
        Format::Protobuf => plan.encoded_len(),
        _ => usize::MAX,
    };
    let write_fails = fail_write.is_some_and(|f| total > f) || fail_flush;
    env.ev(match (fail_read.is_some(), write_fails) {
        (true, _) => "in-process, failing reader",
        (_, true) => "in-process, failing writer",
        _ => "in-process",
    });
    env.evals += 1;
    match &res {
        Err(m) => return bad("the command line panicked", ctx(m)),
        Ok(Err(_)) => {
            if fail_read.is_none() && !write_fails {
                return bad("a run failed without a reason", ctx(""));
            }
            if fail_read.is_some() && !out.is_empty() {
                return bad("a failed read writes output", ctx(""));
            }
        }
        Ok(Ok(o)) => {
            if fail_read.is_some() || write_fails {
                return bad("a failed run reports success", ctx(""));
            }
            let issues = if to == Format::Text { expected_text(&plan, types, &reg).1 } else { vec![] };
            let got: Vec<String> = match o {
                Outcome::Success => vec![],
                Outcome::HadFormattingIssues(e) => {
                    if e.is_empty() {
                        return bad("issues without content", ctx(""));
                    }
                    e.iter().map(|x| x.to_string()).collect()
                }
            };
            if got != issues {
                return bad("the outcome does not list the issues", ctx(&format!("want {issues:?}")));
            }
            if let Err(e) = check_output(&out, &plan, &to, types, &reg) {
                return bad("the output is wrong", ctx(&e));
            }
        }
    }
    Ok(())
}
