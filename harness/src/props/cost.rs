//! Cost (C22): time and memory grow in proportion to the input.
use super::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

/// Counts while a measurement runs.
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            BYTES.fetch_add(l.size() as u64, Relaxed);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            BYTES.fetch_add(n.saturating_sub(l.size()) as u64, Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
#[repr(C)]
struct Timespec(i64, i64);
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu() -> f64 {
    let mut t = Timespec(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
fn measure<T>(f: impl FnOnce() -> T) -> (T, f64, f64) {
    let b = BYTES.load(Relaxed);
    ON.store(true, Relaxed);
    let t = cpu();
    let r = f();
    let d = cpu() - t;
    ON.store(false, Relaxed);
    (r, d, (BYTES.load(Relaxed) - b) as f64)
}


pub static PROPS: &[Prop] = &[Prop {
    id: "C22",
    rule: "texts and plans in which one part (trees, inputs, columns, expressions, arguments, rows, names, strings, addenda, blank space, declarations, ...; items drawn at random) is repeated n and 16 n times, valid, broken at the very end, or with their declarations taken away, go through parsing, formatting and the JSON, YAML and protobuf readers; a counting allocator and the thread's CPU clock watch each call, and the cost per byte must not grow (up to a factor of 3 for memory and 5 for time, re-measured up to six times). Nested forms are compared at 10 and 40 levels. Distinct by text",
    quick: 800,
    thorough: 6_000,
    case_cpu: 120.0,
    assume: &["looking up a reference may take time in proportion to the number of declarations, so these do not grow together with the references", "stated for inputs up to about two megabytes, the largest that are run"],
    run: c22,
}];

struct Pool {
    d: Decls,
    head: String,
    ex: Vec<String>,
    call: Vec<String>,
    lit: Vec<String>,
    ty: Vec<String>,
    arg: Vec<String>,
    name: Vec<String>,
    tree: Vec<String>,
}
fn pool(rng: &mut Rng) -> Pool {
    let mut g = Gen::new(rng.fork(), Cfg { max_rels: 3, ..Default::default() });
    let m = g.plan();
    let d = g.d.clone();
    let n = 1 + g.r.below(6);
    let mut pr = Pr::canon(&d);
    let mut v = |f: &mut dyn FnMut(&mut Gen) -> String| (0..n).map(|_| f(&mut g)).collect::<Vec<_>>();
    let ex = v(&mut |g| { let e = g.ex(3, 1); pr.ex(&e) });
    let call = if d.funcs.is_empty() { vec![] } else { v(&mut |g| { let e = g.call(3, 1); pr.ex(&e) }) };
    let lit = v(&mut |g| { let e = g.lit(); pr.ex(&Ex::Lit(e)) });
    let ty = v(&mut |g| { let t = g.ty(1); pr.ty(&t) });
    let arg = v(&mut |g| { let a = g.arg(3, 1); pr.arg(&a) });
    let name = v(&mut |g| g.name());
    let mut tree = vec![];
    for t in &m.trees {
        tree.push(canon_text(&MPlan { version: None, decls: d.clone(), trees: vec![t.clone()] }));
    }
    let tree = tree.iter().map(|t| plan_part(t).to_string()).collect();
    let mut head = Pr::canon(&d).plan(&MPlan { version: None, decls: d.clone(), trees: vec![] });
    if has_plan(&head) {
        head.truncate(head.len() - plan_part(&head).len());
    } else {
        head.push_str("\n=== Plan\n");
    }
    Pool { d, head, ex, call, lit, ty, arg, name, tree }
}
fn cyc(v: &[String], k: usize) -> &str {
    &v[k % v.len()]
}
fn quoted(s: &str) -> String {
    Pr::canon(&Decls::default()).name(s)
}

pub const SHAPES: &[&str] = &[
    "trees", "roots", "set inputs", "multi inputs", "columns", "expressions", "references", "arguments", "clauses", "rows", "rows on a line",
    "wide rows", "string", "escapes", "long names", "table name", "root names", "sort fields", "groupings", "grouping sets", "measures",
    "different groupings", "different sets", "different measures",
    "output columns", "emit", "emit over columns", "extension arguments", "named arguments", "extension columns", "tuple", "addenda",
    "addendum arguments", "type parameters", "blank lines", "blank lines first", "white space", "comment", "version", "URNs", "functions",
    "same functions", "types", "type variations", "long function name", "signature", "digits", "literals", "anonymous trees",
];
/// `n` items of the shape; `broken` spoils the last one.
fn text(p: &Pool, shape: &str, n: usize, broken: bool) -> String {
    let n = n.max(2);
    let end = if broken { "§" } else { "" };
    let list = |f: &dyn Fn(usize) -> String, sep: &str| -> String {
        let mut v: Vec<String> = (0..n).map(f).collect();
        if broken {
            v[n - 1] = "§".into();
        }
        v.join(sep)
    };
    let lines = |f: &dyn Fn(usize) -> String, bad: &str| -> String {
        let mut v: Vec<String> = (0..n).map(f).collect();
        if broken {
            v[n - 1] = bad.into();
        }
        v.concat()
    };
    let ext = |h: &str, kind: &str, f: &dyn Fn(usize) -> String| {
        format!("=== Extensions\n{}{kind}:\n{}\n=== Plan\n", if h.is_empty() { "" } else { "URNs:\n  @ 1: /u\n" }, lines(f, "  § oh\n"))
    };
    let h = &p.head;
    let read = "  Read[t => a:i64, b:string, c:i64?]\n";
    let over = |rel: String| format!("{h}{rel}\n{read}");
    let t2 = "  Read[t => a:i64]\n";
    match shape {
        "trees" => format!("{h}{}", lines(&|k| format!("{}\n", cyc(&p.tree, k).trim_end_matches('\n')), "§[]\n")),
        "roots" => format!("{h}{}", lines(&|k| format!("Root[a]\n  Filter[{} => $0]\n    Read[t => a{k}:{}]\n", cyc(&p.ex, k), cyc(&p.ty, k)), "§[]\n")),
        "anonymous trees" => format!("{h}{}", lines(&|k| format!("Filter[true => $0]\n{}{}", t2, if k % 2 == 0 { "\n" } else { "" }), "§[]\n")),
        "set inputs" => format!("{h}Set[&UnionAll => $0]\n{}", lines(&|_| t2.into(), "  §[]\n")),
        "multi inputs" => format!("{h}ExtensionMulti:ScanX[_ => $0]\n{}", lines(&|_| t2.into(), "  §[]\n")),
        "columns" => format!("{h}Read[t => {}]\n", list(&|k| format!("a{k}:{}", cyc(&p.ty, k)), ", ")),
        "expressions" => over(format!("Project[{}]", list(&|k| cyc(&p.ex, k).into(), ", "))),
        "literals" => over(format!("Project[{}]", list(&|k| cyc(&p.lit, k).into(), ", "))),
        "references" => over(format!("Project[{}]", list(&|k| format!("${}", k % 3), ", "))),
        "arguments" => match p.call.first() {
            // The first call of the pool with its arguments replaced.
            Some(c) => over(format!("Project[{}({}):i64]", c.split('(').next().unwrap(), list(&|k| cyc(&p.ex, k).into(), ", "))),
            None => over(format!("Project[{}]", list(&|k| format!("({})::i64", cyc(&p.ex, k)), ", "))),
        },
        "clauses" => over(format!("Project[if_then({}, _ -> 1)]", list(&|k| format!("true -> {}", cyc(&p.ex, k)), ", "))),
        "rows" => format!("{h}Read:Virtual[\n{}\n  - => a:i64, b:i64]\n", list(&|k| format!("  - ({k}, {})", cyc(&p.ex, k)), ",\n")),
        "rows on a line" => format!("{h}Read:Virtual[{} => a:i64, b:i64]\n", list(&|k| format!("({}, {k})", cyc(&p.lit, k)), ", ")),
        "wide rows" => {
            let row = list(&|k| cyc(&p.lit, k).into(), ", ");
            format!("{h}Read:Virtual[({row}) => a:i64]\n")
        }
        "string" => over(format!("Project['{}{end}]", "x é".repeat(n * 8) + if broken { "" } else { "'" })),
        "escapes" => over(format!("Project['{}{end}]", "\\n\\'\\\\\\u{1b}é".repeat(n * 3) + if broken { "" } else { "'" })),
        "long names" => format!("{h}Read[{} => {}:i64{end}]\n", quoted(&cyc(&p.name, 0).repeat(n)), quoted(&format!("{}\"y", cyc(&p.name, 1)).repeat(n))),
        "table name" => format!("{h}Read[{} => a:i64]\n", list(&|k| quoted(&format!("{}{k}", cyc(&p.name, k))), ".")),
        "root names" => format!("{h}Root[{}]\n{read}", list(&|k| quoted(&format!("{}{k}", cyc(&p.name, k))), ", ")),
        "sort fields" => over(format!("Sort[{} => $0]", list(&|k| format!("({}, &AscNullsFirst)", cyc(&p.ex, k)), ", "))),
        "groupings" => over(format!("Aggregate[{} => $0]", list(&|k| format!("${}", k % 3), ", "))),
        "grouping sets" => over(format!("Aggregate[{} => $0]", list(&|k| format!("(${}, $2)", k % 2), ", "))),
        "different groupings" => over(format!("Aggregate[{} => 7, 1]", list(&|k| format!("{}", k + 1), ", ").replace("1, 2, ", "1, 7, "))),
        "different sets" => over(format!("Aggregate[{} => 'a1', $1]", list(&|k| format!("('a{k}', ${}, 'a1', $1)", k % 3), ", "))),
        "different measures" => over(format!("Aggregate[{0} => {0}]", list(&|k| format!("({k})::string"), ", "))),
        "measures" => over(format!("Aggregate[$0 => $0, {}]", list(&|k| if p.call.is_empty() { "$0".into() } else { cyc(&p.call, k).into() }, ", "))),
        "output columns" => over(format!("Filter[true => {}]", list(&|k| format!("${}", k % 3), ", "))),
        "emit" => format!("{h}Read[t +> a:i64, b:i64 |> {}]\n", list(&|k| format!("${}", k % 2), ", ")),
        "emit over columns" => {
            let cols: Vec<String> = (0..n).map(|k| format!("a{k}:i64")).collect();
            format!("{h}Read[t +> {} |> {}]\n", cols.join(", "), list(&|k| format!("${}", n - 1 - k), ", "))
        }
        "extension arguments" => format!("{h}ExtensionLeaf:ScanX[{} => a:i64]\n", list(&|k| cyc(&p.arg, k).into(), ", ")),
        "named arguments" => format!("{h}ExtensionLeaf:ScanX[{} => a:i64]\n", list(&|k| format!("n{k}={}", cyc(&p.arg, k)), ", ")),
        "extension columns" => format!("{h}ExtensionLeaf:ScanX[_ => {}]\n", list(&|k| format!("c{k}:{}", cyc(&p.ty, k)), ", ")),
        "tuple" => format!("{h}ExtensionLeaf:ScanX[({}) => a:i64]\n", list(&|k| cyc(&p.arg, k).into(), ", ")),
        "addenda" => format!("{h}Read[t => a:i64]\n{}", lines(&|k| format!("  + Opt:ScanX[{}]\n", cyc(&p.arg, k)), "  + §[]\n")),
        "addendum arguments" => format!("{h}Read[t => a:i64]\n  + Enh:ScanX[{}]\n", list(&|k| cyc(&p.arg, k).into(), ", ")),
        "type parameters" => match p.d.types.first() {
            Some(t) => format!("{h}Read[t => a:u!{}#{}<{}>]\n", t.name, t.anchor, list(&|k| cyc(&p.ty, k).into(), ", ")),
            None => format!("{h}Read[t => {}]\n", list(&|k| format!("a{k}:list<{}>", cyc(&p.ty, k)), ", ")),
        },
        "blank lines" => format!("{h}Filter[true => $0]\n{}{read}{end}", "   \n".repeat(n * 4)),
        "blank lines first" => format!("{}{h}{read}{end}", "\n".repeat(n * 8)).replace("\n  Read", "\nRead"),
        "white space" => over(format!("Project[$0,{}{end}]", " ".repeat(n * 20) + "$0")),
        "comment" => format!("{h}Filter[true => $0] // {}\n{read}{end}", "x [ ' ".repeat(n * 4)),
        "version" => format!("=== Version 1.2.3\n  producer: {0}\n  git_hash: {0}\n=== Plan\n{end}", "x y".repeat(n * 8)),
        "URNs" => ext("", "URNs", &|k| format!("  @ {k}: /u{k}\n")),
        "functions" => ext("u", "Functions", &|k| format!("  # {k} @ 1: f{k}:i64\n")),
        "same functions" => ext("u", "Functions", &|k| format!("  # {} @ 1: f:i64\n", n - k)),
        "types" => ext("u", "Types", &|k| format!("  # {k} @ 1: t{k}\n")),
        "type variations" => ext("u", "Type Variations", &|k| format!("  # {k} @ 1: t{k}\n")),
        "long function name" => {
            let f = "f".repeat(n * 10);
            format!("=== Extensions\nURNs:\n  @ 1: /u\nFunctions:\n  # 1 @ 1: {f}\n=== Plan\nProject[{f}($0):i64{end}]\n{read}")
        }
        "signature" => {
            let f = format!("f:{}", vec!["i64"; n].join("_"));
            format!("=== Extensions\nURNs:\n  @ 1: /u\nFunctions:\n  # 1 @ 1: {f}\n=== Plan\nProject[{f}($0):i64{end}]\n{read}")
        }
        _ => over(format!("Project[0.{}{end}]", "1".repeat(n * 20))),
    }
}

/// What was done, the bytes it worked on, CPU seconds, bytes allocated.
type Cost = (&'static str, f64, f64, f64);
/// Everything that is done with one text. `mode`: what the plan goes through after parsing.
fn run(reg: &ExtensionRegistry, t: &str, mode: usize) -> Result<(bool, Vec<Cost>), Bad> {
    use substrait_explain::cli::Format;
    let len = t.len() as f64;
    let (r, s, b) = measure(|| guard(|| substrait_explain::parse_with_registry(t, reg)));
    let mut out = vec![("parse", len, s, b)];
    let plan = match r {
        Err(m) => return bad("panic", format!("{m}\n{t}")),
        Ok(Err(_)) => return Ok((false, out)),
        Ok(Ok(p)) => p,
    };
    let fmt = |what: &'static str, p: &p::Plan| -> Result<(Cost, String), Bad> {
        let size = p.encoded_len() as f64;
        let (r, s, b) = measure(|| guard(|| substrait_explain::format_with_registry(p, &OutputOptions::default(), reg)));
        match r {
            Err(m) => bad("panic", m),
            Ok((x, _)) => Ok(((what, size, s, b), x)),
        }
    };
    let read = |what: &'static str, f: Format, d: Vec<u8>| -> Result<Cost, Bad> {
        let (r, s, b) = measure(|| guard(|| f.read_plan(&d[..], reg)));
        match r {
            Err(m) => bad("panic", m),
            Ok(Err(e)) => bad("a plan is not read back", format!("{what}: {e:#}")),
            Ok(Ok(_)) => Ok((what, d.len() as f64, s, b)),
        }
    };
    match mode {
        0 | 2 => out.push(fmt("format", &plan)?.0),
        1 => {
            // The older encoding of groupings, and no output mappings.
            let mut p = plan.clone();
            for r in &mut p.relations {
                if let Some(p::plan_rel::RelType::Rel(r)) = &mut r.rel_type {
                    older(r);
                }
            }
            out.push(fmt("format", &p)?.0);
        }
        3 => {
            let mut p = plan.clone();
            p.extensions.clear();
            p.extension_urns.clear();
            out.push(fmt("format without declarations", &p)?.0);
        }
        4 => out.push(read("read JSON", Format::Json, serde_json::to_vec(&plan).unwrap())?),
        5 => out.push(read("read protobuf", Format::Protobuf, plan.encode_to_vec())?),
        6 => out.push(read("read YAML", Format::Yaml, serde_yaml::to_string(&plan).unwrap().into_bytes())?),
        _ => {
            let (c, x) = fmt("format", &plan)?;
            out.push(c);
            out.push(read("read text", Format::Text, x.into_bytes())?);
        }
    }
    Ok((true, out))
}

#[allow(deprecated)]
fn older(r: &mut p::Rel) {
    if let Some(p::rel::RelType::Aggregate(a)) = &mut r.rel_type {
        for g in &mut a.groupings {
            g.grouping_expressions = std::mem::take(&mut g.expression_references).into_iter().map(|k| a.grouping_expressions[k as usize].clone()).collect();
        }
        a.grouping_expressions.clear();
        a.common = None;
    }
}
fn c22(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let p = pool(&mut rng);
    if i % 8 == 7 {
        return nested(env, &mut rng, &p);
    }
    let shape = SHAPES[(i as usize / 8 * 7 + i as usize % 8) % SHAPES.len()];
    let broken = rng.chance(1, 4);
    let mode = rng.below(8);
    // Sizes by text length.
    let max = if env.thorough { 2_000_000 } else { 700_000 };
    let unit = (text(&p, shape, 64, false).len() - text(&p, shape, 32, false).len()) / 32;
    let n = (max / unit.max(1) / 16).clamp(50, 40_000);
    let at: Vec<String> = [1, 4, 16].iter().map(|k| text(&p, shape, k * n, broken)).collect();
    env.ev(&format!("{shape}{}", if broken { " broken" } else { "" }));
    env.eval(at[2].as_bytes(), true);
    env.sample(|| format!("{shape} {} bytes against {}\n{}", at[2].len(), at[0].len(), at[0].chars().take(300).collect::<String>()));
    judge(env, shape, &at, mode, broken, 3.0, |k| if k == 1 { 3.0 } else { 5.0 })
}
/// Compares each larger text with the first; smaller ones first, so that a runaway is caught while it
/// is still cheap. `mem` and `time`: how much the cost per byte may grow (`time` at step k).
fn judge(env: &mut Env, shape: &str, at: &[String], mode: usize, broken: bool, mem: f64, time: fn(usize) -> f64) -> Res {
    let reg = crate::ext::registry();
    let a = &at[0];
    for (k, b) in at.iter().enumerate().skip(1) {
        let mut worst = vec![];
        for round in 0..6 {
            let (x, y) = (run(&reg, a, mode)?, run(&reg, b, mode)?);
            if x.0 != y.0 || (broken && x.0) {
                return bad("whether a text is accepted depends on its length", format!("{shape} broken {broken}: {} at {} bytes, {} at {}\n{a}", x.0, a.len(), y.0, b.len()));
            }
            if round == 0 && k == 1 {
                env.ev(if x.0 { "accepted" } else { "refused" });
                if !broken && !x.0 {
                    env.ev(&format!("{shape}: refused though whole"));
                }
            }
            worst.clear();
            let mut far = false;
            for (c, d) in x.1.iter().zip(&y.1) {
                // Per byte, with a floor for what does not depend on the size.
                let grow = d.1 / c.1.max(1.0);
                let (m, t) = (d.3 / (c.3 * grow), d.2 / (c.2 * grow));
                if round == 0 {
                    env.evals += 2;
                    env.ev(c.0);
                }
                if round == 0 && d.2 > 0.02 && k + 1 == at.len() {
                    let per = |x: f64| ["up to 1.5", "up to 2", "up to 3", "up to 4", "more"][[1.5, 2.0, 3.0, 4.0].iter().filter(|b| x > **b).count()];
                    env.ev(&format!("time per byte, large against small: {}", per(t)));
                    env.ev(&format!("memory per byte, large against small: {}", per(m)));
                }
                if d.3 > c.3 * grow * mem + 2e5 {
                    worst.push(format!("{}: memory {:.0} at {:.0} bytes, {:.0} at {:.0}", c.0, c.3, c.1, d.3, d.1));
                    // Counted, not timed: no need to look again.
                    far = true;
                } else if d.2 > c.2 * grow * time(k) + 0.02 {
                    worst.push(format!("{}: {:.2} ms at {:.0} bytes, {:.2} ms at {:.0}", c.0, c.2 * 1e3, c.1, d.2 * 1e3, d.1));
                    far |= round > 0 && d.2 > 10.0;
                }
            }
            if worst.is_empty() || far {
                break;
            }
            env.ev("measured again");
        }
        if !worst.is_empty() {
            return bad("the cost grows faster than the input", format!("{shape}\n{}\n--- the smaller text\n{}", worst.join("\n"), a.chars().take(20_000).collect::<String>()));
        }
    }
    Ok(())
}
/// Nested forms, alone and mixed: the cost may grow with the square of the depth, not explode.
fn nested(env: &mut Env, rng: &mut Rng, p: &Pool) -> Res {
    const EX: &[(&str, &str)] = &[
        ("(", ")::i64"), ("(", ")::?list<i64>"), ("if_then(true -> 1, _ -> ", ")"), ("if_then(", " -> 1, _ -> 2)"), ("if_then(true -> ", ", _ -> 2)"), ("F(", "):i64"), ("F($0, ", ", 'x'):i64"),
    ];
    const TY: &[(&str, &str)] = &[("list<", ">"), ("list?<", ">"), ("T<", ">"), ("T<i64, ", ">")];
    const TU: &[(&str, &str)] = &[("(", ",)"), ("(1, ", ")"), ("(", ", 'x', &A)")];
    let f = p.call.first().map(|c| c.split('(').next().unwrap().to_string());
    let t = p.d.types.first().map(|t| format!("u!{}#{}", t.name, t.anchor));
    let which = rng.below(4);
    let forms: Vec<&(&str, &str)> = [EX, TY, TU, EX][which].iter().filter(|x| (f.is_some() || !x.0.starts_with('F')) && (t.is_some() || !x.0.starts_with('T'))).collect();
    let period: Vec<(&str, &str)> = (0..1 + rng.below(3)).map(|_| **rng.pick(&forms)).collect();
    let inner = [cyc(&p.ex, 0), cyc(&p.ty, 0), cyc(&p.arg, 0), cyc(&p.lit, 0)][which].to_string();
    let at = |depth: usize| {
        let mut s = inner.clone();
        for k in 0..depth {
            let (a, b) = period[k % period.len()];
            let fill = |x: &str| x.replacen('F', f.as_deref().unwrap_or("F"), x.starts_with('F') as usize).replacen('T', t.as_deref().unwrap_or("T"), x.starts_with('T') as usize);
            s = format!("{}{s}{b}", fill(a));
        }
        match which {
            1 => format!("{}Read[t => a:{s}]\n", p.head),
            2 => format!("{}ExtensionLeaf:ScanX[{s} => a:i64]\n", p.head),
            _ => format!("{}Project[{s}]\n  Read[t => a:i64, b:i64, c:i64]\n", p.head),
        }
    };
    let at: Vec<String> = [10, 16, 22, 28, 34, 40].iter().map(|d| at(*d)).collect();
    env.ev(["nested expressions", "nested types", "nested tuples", "nested expressions"][which]);
    env.eval(at[5].as_bytes(), true);
    // The other readers limit the depth themselves.
    let mode = *rng.pick(&[0, 3, 7]);
    judge(env, "nested", &at, mode, false, 8.0, |_| 16.0)
}
