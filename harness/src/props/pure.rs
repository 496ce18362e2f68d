//! Purity under histories and schedules (C16) and output options (C20).
use super::*;
use crate::dynp;
use crate::genr;
use crate::mutate;
use crate::rng::hash_bytes;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use substrait_explain::Visibility;
use substrait_explain::cli::Format;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C16",
        rule: "sets of parse, format and convert jobs (valid, broken and unsupported inputs, random options); each job's first result, computed alone with a fresh registry on a fresh thread (and, for part of the cases, in a fresh process), is compared byte by byte (plan, text, errors and messages) with its result after random histories of the other jobs on one shared registry and on up to eight threads that share the registry and plans, with pauses injected inside the extension handlers. The entry points without registry or options must give what the full ones give with the defaults. A call log with a global clock shows which calls overlapped. Distinct by the order of starts and ends of the calls",
        quick: 2_500,
        thorough: 60_000,
        case_cpu: 60.0,
        assume: &[],
        run: c16,
    },
    Prop {
        id: "C20",
        rule: "random supported plans crossed with random combinations of all output options, compared with an independent renderer that knows the options; options documented to keep the text complete are parsed back and compared; binary literals in random positions; and malformed plans whose rendering under another indent must differ by the indent only. Distinct by plan and options",
        quick: 25_000,
        thorough: 800_000,
        case_cpu: 20.0,
        assume: &["the switches show_extension_urns, show_simple_extensions, read_types and nullability have no effect at present: what they announce is always shown"],
        run: c20,
    },
];

enum Job {
    Parse(String),
    Format(p::Plan, OutputOptions),
    Read(Format, Vec<u8>),
    Write(Format, p::Plan),
}
impl Job {
    fn kind(&self) -> &'static str {
        match self {
            Job::Parse(_) => "parse",
            Job::Format(..) => "format",
            Job::Read(..) => "read",
            Job::Write(..) => "write",
        }
    }
    /// Everything the caller can see of the call, and whether it failed.
    fn run(&self, reg: &ExtensionRegistry) -> (Vec<u8>, bool) {
        let r = guard(|| match self {
            Job::Parse(t) => match substrait_explain::parse_with_registry(t, reg) {
                Ok(p) => (p.encode_to_vec(), false),
                Err(e) => (format!("{e}\n{e:?}").into_bytes(), true),
            },
            Job::Format(p, o) => {
                let before = p.encode_to_vec();
                let (t, e) = substrait_explain::format_with_registry(p, o, reg);
                let failed = !e.is_empty();
                let shown: Vec<String> = e.iter().map(|e| format!("{e}\n{e:?}")).collect();
                let same = before == p.encode_to_vec();
                (format!("{t}\n----\n{}\n{same}", shown.join("\n")).into_bytes(), failed)
            }
            Job::Read(f, d) => match f.read_plan(&d[..], reg) {
                Ok(p) => (p.encode_to_vec(), false),
                Err(e) => (format!("{e:#}").into_bytes(), true),
            },
            Job::Write(f, p) => {
                let mut out = vec![];
                let d = p.encode_to_vec();
                let from = Format::Protobuf;
                let cli = substrait_explain::cli::Cli {
                    command: substrait_explain::cli::Commands::Convert {
                        input: "-".into(),
                        output: "-".into(),
                        from: Some(from),
                        to: Some(f.clone()),
                        show_literal_types: false,
                        verbose: false,
                    },
                };
                let r = cli.run_with_io(&d[..], &mut out, reg);
                let failed = r.is_err();
                out.extend(match r {
                    Ok(o) => format!("{o:?}"),
                    Err(e) => format!("{e:#}"),
                }
                .into_bytes());
                (out, failed)
            }
        });
        match r {
            Ok(x) => x,
            Err(m) => (format!("panic {m}").into_bytes(), true),
        }
    }
    fn show(&self) -> String {
        match self {
            Job::Parse(t) => format!("parse\n{t}"),
            Job::Format(p, o) => format!("format with {o:?}\n{p:?}"),
            Job::Read(f, d) => format!("read as {f:?}\n{}", String::from_utf8_lossy(d)),
            Job::Write(f, p) => format!("write as {f:?}\n{p:?}"),
        }
    }
}

fn vis(r: &mut Rng) -> (Vis, Visibility) {
    *r.pick(&[(Vis::Never, Visibility::Never), (Vis::Required, Visibility::Required), (Vis::Always, Visibility::Always)])
}
fn options(r: &mut Rng) -> (Opts, OutputOptions) {
    let (a, av) = vis(r);
    let (l, lv) = vis(r);
    let m = Opts {
        anchors: a,
        lits: l,
        show_emit: r.chance(1, 3),
        indent: (*r.pick(&["  ", "  ", "  ", "", " ", "\t", "    ", "· "])).into(),
        threshold: *r.pick(&[0, 1, 2, 3, 3, 4, 5, 1000, usize::MAX]),
    };
    let o = OutputOptions {
        show_extension_urns: r.coin(),
        show_simple_extensions: r.coin(),
        show_simple_extension_anchors: av,
        show_emit: m.show_emit,
        read_types: r.coin(),
        literal_types: lv,
        nullability: r.coin(),
        indent: m.indent.clone(),
        show_literal_binaries: r.coin(),
        virtual_table_multiline_threshold: m.threshold,
    };
    (m, o)
}

fn jobs(rng: &mut Rng) -> Vec<Job> {
    let n = 3 + rng.below(10);
    let mut v = vec![];
    let mut plans: Vec<p::Plan> = vec![];
    // Plans that share names and anchors in different roles make leftovers visible.
    let (mut g, m) = plan_of(rng, Cfg { max_rels: 4, ..Default::default() });
    for k in 0..n {
        let m2 = if k % 3 == 0 { m.clone() } else { plan_of(&mut g.r, Cfg { max_rels: 4, ..Default::default() }).1 };
        let text = Pr::styled(&m2.decls, g.r.fork()).plan(&m2);
        let plan = canon_proto(&m2);
        plans.push(plan.clone());
        v.push(match g.r.below(9) {
            0 | 1 => Job::Parse(text),
            2 => {
                let t = mutate::tokens(&text, &mut g.r);
                if super::fuzz::depth(&t) > 40 {
                    continue;
                }
                Job::Parse(t)
            }
            3 => Job::Parse(mutate::lines(&text, &mut g.r)),
            4 | 5 => Job::Format(plan, options(&mut g.r).1),
            6 => {
                let budget = *g.r.pick(&[20, 60]);
                let w = dynp::to_plan(&dynp::Wild { r: &mut g.r, budget, tame: false }.message(&dynp::desc("substrait.Plan"), 0)).unwrap();
                Job::Format(w, options(&mut g.r).1)
            }
            7 => {
                let f = g.r.pick(&[Format::Text, Format::Json, Format::Yaml, Format::Protobuf]).clone();
                let mut d = match f {
                    Format::Text => text.into_bytes(),
                    Format::Json => serde_json::to_vec(&plan).unwrap(),
                    Format::Yaml => serde_yaml::to_string(&plan).unwrap().into_bytes(),
                    Format::Protobuf => plan.encode_to_vec(),
                };
                if g.r.coin() {
                    let at = g.r.below(d.len() + 1);
                    d.truncate(at);
                }
                Job::Read(f, d)
            }
            _ => Job::Write(g.r.pick(&[Format::Text, Format::Json, Format::Yaml, Format::Protobuf]).clone(), plan),
        });
    }
    if v.is_empty() {
        v.push(Job::Parse(String::new()));
    }
    v
}

/// The first result of each job, each on a thread and with a registry of its own.
fn firsts(js: &[Job]) -> Vec<(Vec<u8>, bool)> {
    js.iter()
        .map(|j| {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || j.run(&crate::ext::registry()))
                    .unwrap()
                    .join()
                    .unwrap()
            })
        })
        .collect()
}
/// In a fresh process: digests of the results, computed in reverse order.
pub fn digests(seed: u64, i: u64) -> i32 {
    let mut rng = Rng::for_case(seed, "C16", i);
    let js = jobs(&mut rng);
    let reg = crate::ext::registry();
    let mut v: Vec<u64> = js.iter().rev().map(|j| hash_bytes(&j.run(&reg).0)).collect();
    v.reverse();
    for x in v {
        println!("{x}");
    }
    0
}

fn c16(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let js = jobs(&mut rng);
    let first = firsts(&js);
    for (j, f) in js.iter().zip(&first) {
        env.ev(&format!("{} {}", j.kind(), if f.1 { "failing" } else { "succeeding" }));
        if f.0.starts_with(b"panic") {
            return bad("a call panicked", format!("{}\n{}", String::from_utf8_lossy(&f.0), j.show()));
        }
        if matches!(j, Job::Format(..)) && f.0.ends_with(b"false") {
            return bad("formatting modified the plan", j.show());
        }
    }
    let differs = |k: usize, got: &[u8], when: &str| -> Res {
        if got == &first[k].0[..] {
            return Ok(());
        }
        bad(
            "a repeated call gives another result",
            format!(
                "{when}\n--- first\n{}\n--- now\n{}\n--- job\n{}",
                String::from_utf8_lossy(&first[k].0),
                String::from_utf8_lossy(got),
                js[k].show()
            ),
        )
    };
    // The short entry points are the full one with the defaults.
    let none = ExtensionRegistry::default();
    for j in js.iter().filter(|j| matches!(j, Job::Parse(_) | Job::Format(..))) {
        let want = j.run(&none);
        env.ev("short entry points");
        for how in 0..3 {
            let same = match j {
                Job::Parse(t) => {
                    let r = guard(|| match how {
                        0 => substrait_explain::parse(t),
                        1 => substrait_explain::Parser::parse(t),
                        _ => substrait_explain::Parser::default().parse_plan(t),
                    });
                    match r {
                        Ok(Ok(p)) => (p.encode_to_vec(), false) == want,
                        Ok(Err(e)) => (format!("{e}\n{e:?}").into_bytes(), true) == want,
                        Err(m) => format!("panic {m}").into_bytes() == want.0,
                    }
                }
                Job::Format(p, o) => {
                    let d = OutputOptions::default();
                    let o = if how == 0 { o } else { &d };
                    let full = guard(|| substrait_explain::format_with_registry(p, o, &none));
                    let short = guard(|| if how == 1 { substrait_explain::format(p) } else { substrait_explain::format_with_options(p, o) });
                    format!("{full:?}") == format!("{short:?}")
                }
                _ => true,
            };
            if !same {
                return bad("a short entry point gives another result", format!("{how}\n{}", j.show()));
            }
        }
    }
    // Histories on one thread and one registry, which has also refused registrations.
    let mut reg = crate::ext::registry();
    for _ in 0..2 {
        let mut order: Vec<usize> = (0..js.len()).chain(0..js.len()).collect();
        rng.shuffle(&mut order);
        for k in order {
            if rng.chance(1, 6) {
                if reg.register_relation::<crate::ext::H<0, 0>>().is_ok() {
                    return bad("a duplicate registration is accepted", "");
                }
                env.ev("refused registration");
            }
            let (got, failed) = js[k].run(&reg);
            env.ev(if failed { "history: failing call" } else { "history: succeeding call" });
            differs(k, &got, "after other calls on the same registry")?;
            env.evals += 1;
        }
    }
    // Schedules.
    let n = *rng.pick(&[2, 3, 4, 8]);
    let clock = AtomicUsize::new(0);
    let log: Mutex<Vec<(usize, usize, usize, usize)>> = Mutex::new(vec![]);
    let wrong: Mutex<Option<Bad>> = Mutex::new(None);
    let start = std::sync::Barrier::new(n);
    crate::ext::JITTER.store(rng.below(3) as u32, Ordering::Relaxed);
    std::thread::scope(|s| {
        for t in 0..n {
            let mut order: Vec<usize> = (0..js.len()).chain(0..js.len()).collect();
            rng.shuffle(&mut order);
            let mut r = rng.fork();
            let (js, reg, clock, log, wrong, start, differs) = (&js, &reg, &clock, &log, &wrong, &start, &differs);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    start.wait();
                    for k in order {
                        if r.chance(1, 4) {
                            std::thread::yield_now();
                        }
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let (got, _) = js[k].run(reg);
                        let b = clock.fetch_add(1, Ordering::SeqCst);
                        log.lock().unwrap().push((a, b, t, k));
                        if let Err(e) = differs(k, &got, &format!("while {n} threads ran")) {
                            *wrong.lock().unwrap() = Some(e);
                        }
                    }
                })
                .unwrap();
        }
    });
    crate::ext::JITTER.store(0, Ordering::Relaxed);
    if let Some(e) = wrong.into_inner().unwrap() {
        return Err(e);
    }
    // What the schedule looked like.
    let mut log = log.into_inner().unwrap();
    log.sort();
    let mut order = vec![];
    let mut overlaps = 0u64;
    for (x, e) in log.iter().enumerate() {
        order.extend([e.2 as u8, (e.1 - e.0) as u8, e.3 as u8]);
        for f in &log[x + 1..] {
            if f.0 > e.1 {
                break;
            }
            overlaps += 1;
            let (a, b) = (js[e.3].kind().min(js[f.3].kind()), js[e.3].kind().max(js[f.3].kind()));
            env.ev(&format!("overlap {a}/{b}"));
        }
    }
    env.ev(if overlaps > 0 { "schedule with overlapping calls" } else { "schedule without overlap" });
    order.extend(i.to_le_bytes());
    env.evals += log.len() as u64 - 1;
    env.eval(&order, overlaps > 0);
    env.sample(|| format!("{n} threads, {} jobs, {overlaps} overlapping pairs; (start, end, thread, job): {:?}", js.len(), &log[..log.len().min(12)]));
    // A fresh process.
    if i % 64 == 1 {
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["digests", &env.seed.to_string(), &i.to_string()])
            .output()
            .map_err(|e| Bad { what: "harness: no fresh process".into(), detail: e.to_string() })?;
        let got: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.parse().ok()).collect();
        let want: Vec<u64> = first.iter().map(|f| hash_bytes(&f.0)).collect();
        if got.len() != want.len() {
            return bad("a fresh process gives no results", format!("{out:?}"));
        }
        env.ev("fresh process");
        if let Some(k) = (0..want.len()).find(|k| got[*k] != want[*k]) {
            return bad("another process gives another result", format!("{}\n--- job\n{}", String::from_utf8_lossy(&first[k].0), js[k].show()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

const MARK: &str = "\u{1}binary here\u{1}";

fn c20(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, mut m) = plan_of(&mut rng, Cfg { max_rels: if i % 8 == 0 { 12 } else { 5 }, ..Default::default() });
    let (mo, o) = match i % 8 {
        0 => {
            let o = OutputOptions::verbose();
            (Opts { anchors: Vis::Always, lits: Vis::Always, ..Default::default() }, o)
        }
        1 => (Opts::default(), OutputOptions::default()),
        _ => options(&mut g.r),
    };
    // A binary literal somewhere, spelled as a string until the end.
    let binary: Option<(Vec<u8>, bool)> = if i % 3 == 0 && !m.trees.is_empty() {
        let nullable = g.r.coin();
        let k = g.r.below(m.trees.len());
        let lit = Ex::Lit(Lit { v: LitV::Str(MARK.into()), n: nullable });
        let t = &mut m.trees[k];
        let w = t.rel.width();
        let old = t.rel.clone();
        let cond = match (g.r.below(3), m.decls.funcs.first()) {
            (0, Some(f)) => Ex::Call(f.anchor, vec![Ex::Ref(0), lit, Ex::Ref(1)], Ty { k: TyK::Simple(4), n: false }),
            _ => lit,
        };
        t.rel = MRel { op: Op::Filter { cond, emit: (0..w).collect() }, kids: vec![old], enh: None, opts: vec![] };
        let len = g.r.below(12);
        Some(((0..len).map(|_| g.r.u64() as u8).collect(), nullable))
    } else {
        None
    };
    let mut plan = canon_proto(&m);
    let mut want = {
        let mut pr = Pr::canon(&m.decls);
        pr.o = mo.clone();
        pr.plan(&m)
    };
    if let Some((b, nullable)) = &binary {
        put_binary(&mut plan, b);
        let q = format!("'{}'", MARK.escape_debug());
        // The verbose preset shows everything, the default one does not.
        let hex = match i % 8 {
            0 => true,
            1 => false,
            _ => o.show_literal_binaries,
        };
        let shown = if hex {
            format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
        } else {
            "{binary}".to_string()
        };
        let suffix = if mo.lits == Vis::Always || (mo.lits == Vis::Required && *nullable) {
            format!(":binary{}", if *nullable { "?" } else { "" })
        } else {
            String::new()
        };
        for old in [format!("{q}:string?"), format!("{q}:string"), q] {
            want = want.replace(&old, &format!("{shown}{suffix}"));
        }
        env.ev("binary literal");
    }
    env.sample(|| format!("{o:?}\n{want}"));
    env.eval(format!("{o:?}{want}").as_bytes(), true);
    let (got, errs) = do_format(&env.reg, &plan, &o)?;
    if !errs.is_empty() {
        return bad("an option makes a supported plan fail", format!("{o:?}\n{errs:?}\n{got}"));
    }
    if got != want {
        return bad("an option changed something else", format!("{o:?}\n{}\n--- got\n{got}", text_diff(&got, &want)));
    }
    for (k, on) in [
        ("anchors never", mo.anchors == Vis::Never),
        ("anchors always", mo.anchors == Vis::Always),
        ("literal types never", mo.lits == Vis::Never),
        ("literal types always", mo.lits == Vis::Always),
        ("direct columns", mo.show_emit),
        ("other indent", mo.indent != "  "),
        ("other threshold", mo.threshold != 3),
    ] {
        if on {
            env.ev(k);
        }
    }
    // Complete texts read back.
    if mo.anchors != Vis::Never && mo.lits != Vis::Never && !mo.show_emit && mo.indent == "  " && binary.is_none() {
        env.ev("read back");
        match try_parse(&env.reg, &got)? {
            Ok(p) if same(&p, &plan) => {}
            Ok(p) => return bad("complete text reads as another plan", format!("{o:?}\n{}\n{got}", plan_diff(&p, &plan))),
            Err(e) => return bad("complete text is rejected", format!("{o:?}\n{e}\n{got}")),
        }
    }
    // Malformed plans: one option at a time, each with its own effect only.
    let budget = *g.r.pick(&[20, 60, 120]);
    let mut w = dynp::to_plan(&dynp::Wild { r: &mut g.r, budget, tame: false }.message(&dynp::desc("substrait.Plan"), 0)).unwrap();
    w.version = None;
    w.extensions.clear();
    w.extension_urns.clear();
    let (t0, e0) = do_format(&env.reg, &w, &OutputOptions { indent: "\u{1}".into(), ..o.clone() })?;
    let (t1, e1) = do_format(&env.reg, &w, &OutputOptions { indent: "  ".into(), ..o.clone() })?;
    env.ev(if e0.is_empty() { "malformed plan without errors" } else { "malformed plan" });
    env.evals += 2;
    if t0.lines().map(reindent).collect::<Vec<_>>() != t1.lines().collect::<Vec<_>>() || e0 != e1 {
        return bad("the indent changed something else", format!("{}\n{e0:?}\n{e1:?}", text_diff(&t0, &t1)));
    }
    let o2 = OutputOptions {
        show_extension_urns: !o.show_extension_urns,
        show_simple_extensions: !o.show_simple_extensions,
        read_types: !o.read_types,
        nullability: !o.nullability,
        indent: "  ".into(),
        ..o.clone()
    };
    let (t2, e2) = do_format(&env.reg, &w, &o2)?;
    if t2 != t1 || e2 != e1 {
        return bad("a switch without documented effect on this text changed it", text_diff(&t2, &t1));
    }
    let _ = genr::ident(&mut g.r);
    Ok(())
}
fn reindent(l: &str) -> String {
    let n = l.chars().take_while(|c| *c == '\u{1}').count();
    format!("{}{}", "  ".repeat(n), &l[n..])
}
fn put_binary(plan: &mut p::Plan, b: &[u8]) {
    use p::expression::literal::LiteralType as L;
    let mut d = dynp::to_dyn(plan);
    for (path, ty) in dynp::nodes(&d) {
        if ty == "substrait.Expression.Literal" {
            let mut l: p::expression::Literal = dynp::get(&mut d, &path);
            if matches!(&l.literal_type, Some(L::String(s)) if s == MARK) {
                l.literal_type = Some(L::Binary(b.to_vec()));
                dynp::put(&mut d, &path, &l);
            }
        }
    }
    *plan = dynp::to_plan(&d).unwrap();
}
