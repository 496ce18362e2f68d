//! Extension relations and addenda (C11), the extension registry and argument access (C12).
use super::*;
use crate::ext;
use crate::genr;
use std::cell::RefCell;
use std::collections::BTreeMap;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn,
    ExtensionContext, ExtensionError, ExtensionProtoConvert, ExtensionType, ExtensionValue, ExtensionValueKind as K,
    RegistrationError, TupleValue,
};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        rule: "random plans full of extension relations, extension tables, enhancements and optimizations with recording handlers in all four namespaces (each stores what it was handed and renders what it stored), compared in both directions with an independent model; plus one payload broken at a time (unknown URL, undecodable, foreign payload, failing handler, failing argument, missing detail), random partial registries, and written extensions that must be rejected. Distinct by text",
        quick: 30_000,
        thorough: 800_000,
        case_cpu: 20.0,
        assume: &["relations above a broken extension relation are compared by kind only: their column count is unknown then"],
        run: c11,
    },
    Prop {
        id: "C12",
        rule: "random histories of registrations over 5 names x 5 type URLs x 4 kinds, lookups, decodings, clones and listings, each answer compared with a reference map and the whole registry compared after every step; random argument values against every conversion and random access scripts against a reference interpreter; schema and Any conversions. Distinct by history or script",
        quick: 60_000,
        thorough: 1_500_000,
        case_cpu: 20.0,
        assume: &[],
        run: c12,
    },
];

// ---------------------------------------------------------------- C11

/// Every extension payload of a plan, in the order in which the text shows them.
pub fn anys(plan: &mut p::Plan, f: &mut dyn FnMut(&mut pbjson_types::Any)) {
    use p::plan_rel::RelType as T;
    for r in &mut plan.relations {
        match r.rel_type.as_mut() {
            Some(T::Rel(r)) => rel_anys(r, f),
            Some(T::Root(r)) => {
                if let Some(i) = r.input.as_mut() {
                    rel_anys(i, f)
                }
            }
            _ => {}
        }
    }
}
fn rel_anys(r: &mut p::Rel, f: &mut dyn FnMut(&mut pbjson_types::Any)) {
    use p::rel::RelType as R;
    type Adv = Option<p::extensions::AdvancedExtension>;
    fn adv(a: &mut Adv, f: &mut dyn FnMut(&mut pbjson_types::Any)) {
        if let Some(a) = a {
            if let Some(e) = a.enhancement.as_mut() {
                f(e);
            }
            for o in &mut a.optimization {
                f(o);
            }
        }
    }
    macro_rules! one {
        ($x:expr) => {{
            adv(&mut $x.advanced_extension, f);
            if let Some(k) = $x.input.as_mut() {
                rel_anys(k, f);
            }
        }};
    }
    macro_rules! two {
        ($x:expr) => {{
            adv(&mut $x.advanced_extension, f);
            for k in [&mut $x.left, &mut $x.right] {
                if let Some(k) = k.as_mut() {
                    rel_anys(k, f);
                }
            }
        }};
    }
    match r.rel_type.as_mut().unwrap() {
        R::Read(x) => {
            if let Some(p::read_rel::ReadType::ExtensionTable(t)) = x.read_type.as_mut()
                && let Some(d) = t.detail.as_mut()
            {
                f(d);
            }
            adv(&mut x.advanced_extension, f);
        }
        R::Filter(x) => one!(x),
        R::Project(x) => one!(x),
        R::Aggregate(x) => one!(x),
        R::Sort(x) => one!(x),
        R::Fetch(x) => one!(x),
        R::Join(x) => two!(x),
        R::Cross(x) => two!(x),
        R::Set(x) => {
            adv(&mut x.advanced_extension, f);
            for k in &mut x.inputs {
                rel_anys(k, f);
            }
        }
        R::ExtensionLeaf(x) => x.detail.iter_mut().for_each(f),
        R::ExtensionSingle(x) => {
            x.detail.iter_mut().for_each(&mut *f);
            if let Some(k) = x.input.as_mut() {
                rel_anys(k, f);
            }
        }
        R::ExtensionMulti(x) => {
            x.detail.iter_mut().for_each(&mut *f);
            for k in &mut x.inputs {
                rel_anys(k, f);
            }
        }
        _ => {}
    }
}
/// Extension occurrences of a model plan in text order: (namespace, invocation).
fn invs(m: &MPlan) -> Vec<(usize, &Inv)> {
    let mut v = vec![];
    m.walk(&mut |r| {
        match &r.op {
            Op::RExt { inv, .. } => v.push((1, inv)),
            Op::Ext { inv, .. } => v.push((0, inv)),
            _ => {}
        }
        v.extend(r.enh.iter().map(|i| (2, i)));
        v.extend(r.opts.iter().map(|i| (3, i)));
    });
    v
}
fn is_ext_line(t: &str) -> bool {
    t.starts_with("+ ") || EXT_KINDS.iter().any(|k| t.starts_with(&format!("{k}:")))
}

fn decorate(g: &mut Gen, m: &mut MRel, odds: usize) {
    if !matches!(m.op, Op::Ext { .. }) && g.r.chance(odds, 6) {
        let w = m.direct();
        if m.enh.is_none() && g.r.chance(2, 3) {
            m.enh = Some(g.inv(w));
        }
        for _ in 0..g.r.upto(3) {
            let i = g.inv(w);
            m.opts.push(i);
        }
    }
    for k in &mut m.kids {
        decorate(g, k, odds);
    }
}
fn ext_plan(rng: &mut Rng, i: u64) -> (Gen, MPlan) {
    let c = Cfg { max_rels: [2, 4, 8, 16][(i % 4) as usize], expr_depth: 1, version: false, weird: 2, ..Default::default() };
    let mut g = Gen::new(rng.fork(), c);
    g.decls();
    let n = 1 + g.r.below(2);
    let mut trees = vec![];
    for _ in 0..n {
        let mut rel = match g.r.below(4) {
            0 => g.rel_of(18),
            1 => g.rel_of(20),
            2 => g.leaf(),
            _ => g.rel(),
        };
        let odds = g.r.upto(6);
        decorate(&mut g, &mut rel, odds);
        let root = if g.r.coin() { Some((0..rel.width()).map(|_| genr::ident(&mut g.r)).collect()) } else { None };
        trees.push(MTree { root, rel });
    }
    let m = MPlan { version: None, decls: g.d.clone(), trees };
    (g, m)
}

fn c11(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, m) = ext_plan(&mut rng, i);
    let want = canon_proto(&m);
    let text = canon_text(&m);
    let occ = invs(&m);
    for (ns, inv) in &occ {
        env.ev(&format!("{} written", ext::NS[*ns]));
        if !inv.named.is_empty() {
            env.ev("named arguments");
        }
        if inv.pos.iter().any(|a| matches!(a, Arg::Tuple(_))) {
            env.ev("tuple argument");
        }
    }
    env.eval(text.as_bytes(), !occ.is_empty());
    env.sample(|| text.clone());
    // What the handlers are given, store and give back.
    expect_parse(env, &text, &want)?;
    expect_text(env, &want, &text)?;
    let styled = Pr::styled(&m.decls, g.r.fork()).plan(&m);
    expect_parse(env, &styled, &want)?;
    expect_text(env, &Enc::vary(g.r.fork()).plan(&m), &text)?;
    if occ.is_empty() {
        return Ok(());
    }
    break_one(env, &mut g, &m, &want)?;
    partial(env, &mut g, &m, &want, &text)?;
    reject(env, &mut g, &m)?;
    if i % 4 == 0 {
        examples(env, &mut g)?;
    }
    Ok(())
}

/// One payload broken: its own line reports it, every other line stays as it was.
fn break_one(env: &mut Env, g: &mut Gen, m: &MPlan, want: &p::Plan) -> Res {
    let lines = Pr::canon(&m.decls).plan_lines(m);
    let ext_lines: Vec<usize> = (0..lines.len()).filter(|&j| is_ext_line(&lines[j].text)).collect();
    let occ = invs(m);
    if ext_lines.len() != occ.len() {
        return bad("harness: extension lines and payloads differ in number", canon_text(m));
    }
    let k = g.r.below(occ.len());
    let ns = occ[k].0;
    let how = g.r.below(7);
    let names = ["unknown URL", "undecodable payload", "foreign payload", "failing handler", "failing argument", "URL of another kind", "addendum with columns"];
    if (how == 6) && ns == 0 {
        return Ok(());
    }
    let mut plan = want.clone();
    let mut j = 0;
    let mut in_line = false;
    anys(&mut plan, &mut |a| {
        if j == k {
            let mut gm = ext::GenMsg::decode(&a.value[..]).unwrap();
            match how {
                0 => a.type_url = format!("{}x", a.type_url),
                1 => a.value = vec![0x0a, 0xff].into(),
                2 => gm.tag += 1,
                3 => gm.poison = 1,
                4 => {
                    gm.pos.insert(0, ext::PArg { v: None });
                    in_line = true;
                }
                5 => a.type_url = String::new(),
                _ => gm.cols.push(ext::PCol { name: "c".into(), ty: Some(Enc::canon().ty(&Ty { k: TyK::Simple(4), n: false })), ex: None }),
            }
            if matches!(how, 2 | 3 | 4 | 6) {
                a.value = gm.encode_to_vec().into();
            }
        }
        j += 1;
    });
    env.ev(&format!("broken: {} ({})", names[how], ext::NS[ns]));
    env.eval(&plan.encode_to_vec(), true);
    let (t, e) = fmt_default(&env.reg, &plan)?;
    let ctx = |w: &str| format!("{w}: {} on {}\nerrors {e:?}\n--- text\n{t}\n--- unbroken\n{}", names[how], ext::NS[ns], canon_text(m));
    if e.is_empty() {
        return bad("a broken extension is not reported", ctx("no error"));
    }
    let got: Vec<&str> = t.split('\n').collect();
    let own = ext_lines[k];
    // Relations above a broken extension relation do not know its column count any more.
    let mut above = vec![];
    if ns == 0 && !in_line {
        let mut d = lines[own].depth;
        for j in (0..own).rev() {
            if lines[j].depth < d && !lines[j].text.starts_with("+ ") && !lines[j].cont && !lines[j].text.is_empty() {
                above.push(j);
                d = lines[j].depth;
            }
        }
    }
    for (j, l) in lines.iter().enumerate() {
        let full = if l.text.is_empty() { String::new() } else { format!("{}{}", "  ".repeat(l.depth), l.text) };
        let Some(&g) = got.get(j) else {
            return bad("a broken extension changes the line structure", ctx("missing lines"));
        };
        if j == own {
            let head = full.split([':', '[']).next().unwrap().to_string();
            if !g.starts_with(&head) || !g.contains("!{") {
                return bad("a broken extension is not marked on its line", ctx(g));
            }
            if in_line {
                // Only the argument itself is affected.
                let name = Pr::canon(&m.decls).name(ext::NAMES[occ[k].1.which]);
                let front = format!("{head}:{name}[");
                let Some(rest) = full.strip_prefix(&front) else {
                    return bad("harness: unexpected extension line", full);
                };
                let want = match rest.strip_prefix('_') {
                    Some(r) if r == "]" || r.starts_with(" =>") => format!("{front}!{{extension}}{r}"),
                    _ => format!("{front}!{{extension}}, {rest}"),
                };
                if tail(&want) != tail(g) || !g.starts_with(&front) {
                    return bad("a failing argument disturbs the others", ctx(&want));
                }
            }
        } else if above.contains(&j) {
            let head = full.split(['[', ':']).next().unwrap().to_string();
            if !g.starts_with(&head) {
                return bad("a broken extension changes another relation", ctx(g));
            }
        } else if g != full {
            return bad("a broken extension changes another line", ctx(&format!("line {}: {g:?} instead of {full:?}", j + 1)));
        }
    }
    Ok(())
}
/// What follows the failure token.
fn tail(s: &str) -> &str {
    s.find("!{").and_then(|i| s[i..].find('}').map(|k| &s[i + k..])).unwrap_or(s)
}

/// A registry that lacks some handlers: exactly their lines fail, and text using them is rejected.
fn partial(env: &mut Env, g: &mut Gen, m: &MPlan, want: &p::Plan, text: &str) -> Res {
    let occ = invs(m);
    let mut lacks: Vec<(usize, usize)> = vec![];
    for _ in 0..1 + g.r.below(3) {
        let (ns, inv) = occ[g.r.below(occ.len())];
        // the handler itself, or the same name in another namespace
        lacks.push((inv.which, if g.r.chance(2, 3) { ns } else { g.r.below(4) }));
    }
    let reg = ext::registry_of(|n, s| !lacks.contains(&(n, s)));
    let missing = occ.iter().filter(|(ns, inv)| lacks.contains(&(inv.which, *ns))).count();
    env.ev(if missing > 0 { "partial registry: some missing" } else { "partial registry: none missing" });
    let (t, e) = fmt_default(&reg, want)?;
    // an ancestor of an undecodable extension relation may report as well
    let rel_missing = occ.iter().any(|(ns, inv)| *ns == 0 && lacks.contains(&(inv.which, 0)));
    if missing == 0 && (!e.is_empty() || t != text) {
        return bad("an unused handler's absence changes the rendering", format!("lacks {lacks:?}: {e:?}\n{t}"));
    }
    let failed = t.lines().filter(|l| {
        let l = l.trim_start();
        ["+ Ext", "+ Enh", "+ Opt"].iter().chain(&EXT_KINDS).any(|k| l.starts_with(&format!("{k}[!{{")))
    }).count();
    if missing > 0 && (e.len() < missing || (!rel_missing && e.len() != missing)) {
        return bad("the number of errors is not the number of undecodable extensions", format!("lacks {lacks:?}: {missing} missing, {e:?}\n{t}"));
    }
    if failed != missing {
        return bad("the number of failed lines is not the number of undecodable extensions", format!("lacks {lacks:?}: {missing} missing, {failed} failed\n{t}"));
    }
    match try_parse(&reg, text)? {
        Ok(p) => {
            if missing > 0 {
                return bad("an unregistered extension is accepted", format!("lacks {lacks:?}\n{text}"));
            }
            if !same(&p, want) {
                return bad("an unused handler's absence changes the plan", format!("lacks {lacks:?}\n{text}"));
            }
        }
        Err(e) => {
            if missing == 0 {
                return bad("a registered extension is rejected", format!("lacks {lacks:?}: {e}\n{text}"));
            }
        }
    }
    Ok(())
}

/// Written extensions that must be rejected, on one line of the plan.
fn reject(env: &mut Env, g: &mut Gen, m: &MPlan) -> Res {
    let lines = Pr::canon(&m.decls).plan_lines(m);
    let ext_lines: Vec<usize> = (0..lines.len()).filter(|&j| is_ext_line(&lines[j].text)).collect();
    let k = g.r.below(ext_lines.len());
    let inv = invs(m)[k].1.clone();
    let j = ext_lines[k];
    let head_end = lines[j].text.find(':').unwrap();
    let head = lines[j].text[..head_end].to_string();
    let mut inv = inv;
    let how = g.r.below(5);
    let mut name = Pr::canon(&m.decls).name(ext::NAMES[inv.which]);
    match how {
        0 => name = (*g.r.pick(&["Nope", "scanx", "SCANX", "MyExt", "my_ext2", "'Weird  Name'", "NULL"])).replace('\'', "\""),
        1 => inv.named.push(((*g.r.pick(&["nope", "Count", "COUNT", "counts"])).into(), Arg::Int(1))),
        2 => {
            // the same named argument twice
            let key = ext::KEYS[g.r.below(ext::KEYS.len())].to_string();
            inv.named.retain(|x| x.0 != key);
            inv.named.push((key.clone(), Arg::Int(1)));
            inv.named.push((key, Arg::Int(if g.r.coin() { 1 } else { 2 })));
        }
        4 => inv.pos.clear(),
        _ => {
            // positional after named
            if inv.named.is_empty() {
                inv.named.push(("count".into(), Arg::Int(3)));
            }
        }
    }
    let mut pr = Pr::canon(&m.decls);
    let args = if how == 3 {
        let named: Vec<String> = inv.named.iter().map(|(k, a)| format!("{}={}", pr.name(k), pr.arg(a))).collect();
        let mut s = format!("{}, 7", named.join(", "));
        if !inv.cols.is_empty() {
            let c: Vec<String> = inv.cols.iter().map(|c| pr.ecol(c)).collect();
            s = format!("{s} => {}", c.join(", "));
        }
        s
    } else if how == 4 {
        // numbers no argument can hold, possibly within a tuple
        let n = match g.r.below(4) {
            0 => "9223372036854775808".to_string(),
            1 => "-9223372036854775809".into(),
            2 => format!("{}.5", "7".repeat(309 + g.r.below(40))),
            _ => format!("-{}.0", "9".repeat(310)),
        };
        let n = match g.r.below(3) {
            0 => n,
            1 => format!("(1, {n})"),
            _ => format!("((&A, ({n},)), 2)"),
        };
        inv.named.clear();
        let c: Vec<String> = inv.cols.iter().map(|c| pr.ecol(c)).collect();
        if c.is_empty() { n } else { format!("{n} => {}", c.join(", ")) }
    } else {
        pr.inv_args(&inv)
    };
    let mut l2 = lines.clone();
    l2[j].text = format!("{head}:{name}[{args}]");
    let t = lines_text(&l2, "  ", "\n");
    let what = ["unknown name", "unknown named argument", "duplicate named argument", "positional after named", "number out of range"][how];
    env.ev(&format!("rejected: {what}"));
    env.eval(t.as_bytes(), true);
    match try_parse(&env.reg, &t)? {
        Ok(_) => bad("an invalid extension is accepted", format!("{what}: {}\n{t}", l2[j].text)),
        Err(_) => Ok(()),
    }
}

/// The crate's own example handlers.
fn examples(env: &mut Env, g: &mut Gen) -> Res {
    use substrait_explain::extensions::examples as x;
    let reg = x::registry();
    let strat = ["UNSPECIFIED", "HASH", "RANGE", "BROADCAST"];
    let ss: Vec<i32> = (0..g.r.upto(4)).map(|_| g.r.below(4) as i32).collect();
    let count = if g.r.coin() { 0 } else { g.r.edgy(i64::MIN, i64::MAX) };
    let hint = genr::any_string(&mut g.r);
    let path = genr::any_string(&mut g.r);
    let limit = if g.r.coin() { 0 } else { g.r.edgy(i64::MIN, i64::MAX) };
    let arch = g.r.coin();
    let mut pos: Vec<String> = ss.iter().map(|s| format!("&{}", strat[*s as usize])).collect();
    if count != 0 {
        pos.push(format!("count={count}"));
    }
    if pos.is_empty() {
        pos.push("_".into());
    }
    let q = |s: &str| format!("'{}'", s.escape_debug());
    let mut blob = vec![q(&path)];
    if limit != 0 {
        blob.push(format!("limit={limit}"));
    }
    if arch {
        blob.push("include_archived=true".into());
    }
    let t = format!(
        "=== Plan\nRead:Extension[a:i64]\n  + Ext:BlobStoreRead[{}]\n  + Enh:PartitionHint[{}]\n  + Opt:PlanHint[hint={}]\n",
        blob.join(", "),
        pos.join(", "),
        q(&hint)
    );
    let mut plan = must_parse(&reg, &t)?;
    let mut msgs = vec![];
    anys(&mut plan, &mut |a| msgs.push((a.type_url.clone(), a.value.to_vec())));
    let want = [
        ("type.googleapis.com/example.BlobStoreRead", x::BlobStoreRead { path, limit, include_archived: arch }.encode_to_vec()),
        ("type.googleapis.com/example.PartitionHint", x::PartitionHint { strategies: ss, count }.encode_to_vec()),
        ("type.googleapis.com/example.PlanHint", x::PlanHint { hint }.encode_to_vec()),
    ];
    if msgs.len() != 3 || (0..3).any(|k| msgs[k].0 != want[k].0 || msgs[k].1 != want[k].1) {
        return bad("an example handler stored another message", format!("{msgs:?}\nwant {want:?}\n{t}"));
    }
    let (t2, e) = fmt_default(&reg, &plan)?;
    if t2 != t || !e.is_empty() {
        return bad("an example handler renders differently", format!("{e:?}\n{}\n{t}", text_diff(&t2, &t)));
    }
    env.ev("example handlers");
    // What they refuse.
    let line = |ext: &str, enh: &str, opt: &str| {
        format!("=== Plan\nRead:Extension[a:i64]\n  + Ext:BlobStoreRead[{ext}]\n  + Enh:PartitionHint[{enh}]\n  + Opt:PlanHint[{opt}]\n")
    };
    let h = q(&genr::any_string(&mut g.r));
    must_parse(&reg, &line(&h, "&HASH", &format!("hint={h}")))?;
    let id = genr::ident(&mut g.r);
    if strat.contains(&id.as_str()) {
        return Ok(());
    }
    let t = match g.r.below(10) {
        0 => line(&h, &format!("&HASH, &{id}"), &format!("hint={h}")),
        1 => line(&h, "'HASH'", &format!("hint={h}")),
        2 => line(&h, "&HASH, count='x'", &format!("hint={h}")),
        3 => line(&h, "&HASH", &format!("{h}")),
        4 => line(&h, "&HASH", &format!("{h}, hint={h}")),
        5 => line(&h, "&HASH", "hint=7"),
        6 => line(&format!("{h}, {h}"), "&HASH", &format!("hint={h}")),
        7 => line("_", "&HASH", &format!("hint={h}")),
        8 => line(&format!("{h}, nosuch=1"), "&HASH", &format!("hint={h}")),
        _ => line(&format!("{h}, limit=1.5"), "&HASH", &format!("hint={h}")),
    };
    env.ev("example handlers refuse");
    if try_parse(&reg, &t)?.is_ok() {
        return bad("an example handler accepts wrong arguments", t);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: histories

const RN: [&str; 5] = ["alpha", "beta", "Alpha", "a", ""];
fn rurl(u: usize) -> String {
    ["type.googleapis.com/v.A", "type.googleapis.com/v.B", "v.A", "type.googleapis.com/V.A", ""][u].to_string()
}
/// Handler with name N and type URL U.
struct R<const N: usize, const U: usize>(Vec<u8>);
impl<const N: usize, const U: usize> AnyConvertible for R<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(rurl(U), self.0.clone()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if any.type_url != rurl(U) {
            return Err(ExtensionError::TypeUrlMismatch { expected: rurl(U), actual: any.type_url.into() });
        }
        Ok(R(any.value.to_vec()))
    }
    fn type_url() -> String {
        rurl(U)
    }
}
impl<const N: usize, const U: usize> Explainable for R<N, U> {
    fn name() -> &'static str {
        RN[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let mut v = vec![N as u8, U as u8];
        for a in args.positional() {
            v.push(i64::try_from(a)? as u8);
        }
        Ok(R(v))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        a.push(N as i64);
        a.push(U as i64);
        a.push(self.0.iter().map(|b| *b as i64).collect::<Vec<_>>());
        Ok(a)
    }
}
const TYPES: [ExtensionType; 4] =
    [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];
fn reg_one<const N: usize, const U: usize>(r: &mut ExtensionRegistry, k: usize) -> Result<(), RegistrationError> {
    match k {
        0 => r.register_relation::<R<N, U>>(),
        1 => r.register_extension_table::<R<N, U>>(),
        2 => r.register_enhancement::<R<N, U>>(),
        _ => r.register_optimization::<R<N, U>>(),
    }
}
fn reg_any(r: &mut ExtensionRegistry, k: usize, n: usize, u: usize) -> Result<(), RegistrationError> {
    macro_rules! go {
        ($($n:literal)*) => { match n { $( $n => go!(@ $n), )* _ => unreachable!() } };
        (@ $n:literal) => { match u {
            0 => reg_one::<$n, 0>(r, k), 1 => reg_one::<$n, 1>(r, k), 2 => reg_one::<$n, 2>(r, k),
            3 => reg_one::<$n, 3>(r, k), _ => reg_one::<$n, 4>(r, k),
        } };
    }
    go!(0 1 2 3 4)
}
fn parse_as(r: &ExtensionRegistry, k: usize, name: &str, a: &ExtensionArgs) -> Result<Any, ExtensionError> {
    match k {
        0 => r.parse_extension(name, a),
        1 => r.parse_extension_table(name, a),
        2 => r.parse_enhancement(name, a),
        _ => r.parse_optimization(name, a),
    }
}
fn decode_as(r: &ExtensionRegistry, k: usize, a: AnyRef<'_>) -> Result<(String, ExtensionArgs), ExtensionError> {
    match k {
        0 => r.decode(a),
        1 => r.decode_extension_table(a),
        2 => r.decode_enhancement(a),
        _ => r.decode_optimization(a),
    }
}
/// Reference registry: per kind, name -> URL.
type Ref = [BTreeMap<usize, usize>; 4];

fn agree(reg: &ExtensionRegistry, m: &Ref, hist: &str) -> Res {
    for k in 0..4 {
        let mut want: Vec<&str> = m[k].keys().map(|n| RN[*n]).collect();
        want.sort();
        let mut got = reg.extension_names(TYPES[k]);
        got.sort();
        if got != want {
            return bad("the listed names differ from what was registered", format!("{:?}: {got:?}, want {want:?}\n{hist}", TYPES[k]));
        }
        for n in 0..RN.len() {
            if reg.has_extension(TYPES[k], RN[n]) != m[k].contains_key(&n) {
                return bad("has_extension is wrong", format!("{:?} {:?}\n{hist}", TYPES[k], RN[n]));
            }
            let mut a = ExtensionArgs::default();
            a.push(9i64);
            let got = parse_as(reg, k, RN[n], &a);
            match (m[k].get(&n), got) {
                (Some(u), Ok(any)) if any.type_url == rurl(*u) && any.value == vec![n as u8, *u as u8, 9] => {}
                (None, Err(ExtensionError::NotFound { name })) if name == RN[n] => {}
                (w, g) => {
                    return bad("parsing by name reached the wrong handler", format!("{:?} {:?}: want URL {w:?}, got {g:?}\n{hist}", TYPES[k], RN[n]));
                }
            }
        }
        for u in 0..5 {
            let url = rurl(u);
            let got = decode_as(reg, k, AnyRef::new(&url, &[1, 2]));
            let want = m[k].iter().find(|x| *x.1 == u).map(|x| *x.0);
            match (want, got) {
                (Some(n), Ok((name, a)))
                    if name == RN[n]
                        && a.positional.len() == 3
                        && i64::try_from(&a.positional[0]).ok() == Some(n as i64)
                        && i64::try_from(&a.positional[1]).ok() == Some(u as i64)
                        && format!("{:?}", a.positional[2]) == format!("{:?}", ExtensionValue::from(vec![1i64, 2])) => {}
                (None, Err(ExtensionError::NotFound { .. })) => {}
                (w, g) => {
                    return bad("decoding by type URL reached the wrong handler", format!("{:?} {url:?}: want {w:?}, got {g:?}\n{hist}", TYPES[k]));
                }
            }
        }
    }
    Ok(())
}

fn history(env: &mut Env, rng: &mut Rng) -> Res {
    let mut regs: Vec<(ExtensionRegistry, Ref, usize)> = vec![(ExtensionRegistry::new(), Ref::default(), 0)];
    let mut hist = String::new();
    let n = 3 + rng.below(18);
    let spread = rng.coin();
    for _ in 0..n {
        let j = rng.below(regs.len());
        match rng.below(12) {
            0 if regs.len() < 3 => {
                let c = (regs[j].0.clone(), regs[j].1.clone(), regs[j].2);
                regs.push(c);
                hist.push_str(&format!("clone {j}\n"));
                env.ev("clone");
            }
            1 => {
                let d = regs[j].2 as u8;
                regs[j].0.add_descriptor(vec![d]);
                regs[j].2 += 1;
                hist.push_str(&format!("descriptor {j}\n"));
            }
            _ => {
                let k = if spread { rng.below(4) } else { rng.below(2) };
                let (nm, u) = (rng.below(5), rng.below(5));
                hist.push_str(&format!("{j}: register {:?} {:?} {:?}\n", TYPES[k], RN[nm], rurl(u)));
                let got = reg_any(&mut regs[j].0, k, nm, u);
                let m = &mut regs[j].1[k];
                let dup = m.contains_key(&nm);
                let conf = m.iter().find(|x| *x.1 == u).map(|x| *x.0);
                let ok = match &got {
                    Ok(()) => !dup && conf.is_none(),
                    Err(RegistrationError::DuplicateName { ext_type, name }) => dup && *ext_type == TYPES[k] && name == RN[nm],
                    Err(RegistrationError::ConflictingTypeUrl { type_url, ext_type, existing_name }) => {
                        *ext_type == TYPES[k] && *type_url == rurl(u) && conf.is_some_and(|c| RN[c] == existing_name)
                    }
                };
                if !ok {
                    return bad("a registration was answered wrongly", format!("{got:?}\n{hist}"));
                }
                env.ev(match (&got, dup, conf.is_some()) {
                    (Ok(()), ..) => "registered",
                    (_, true, true) => "name and URL taken",
                    (_, true, false) => "name taken",
                    _ => "URL taken",
                });
                if got.is_ok() {
                    m.insert(nm, u);
                }
            }
        }
        for (r, m, d) in &regs {
            agree(r, m, &hist)?;
            let ds = r.descriptors();
            if ds.len() != *d || ds.iter().enumerate().any(|(i, b)| *b != [i as u8]) {
                return bad("the registered descriptors differ", hist.clone());
            }
        }
    }
    env.eval(hist.as_bytes(), true);
    env.sample(|| hist.clone());
    // And through the text: a kind sees only its own names.
    for (r, m, _) in &regs {
        let nm = rng.below(5);
        let q = Pr::canon(&Decls::default()).name(RN[nm]);
        let texts = [
            format!("=== Plan\nExtensionLeaf:{q}[4]\n"),
            format!("=== Plan\nRead:Extension[a:i64]\n  + Ext:{q}[4]\n"),
            format!("=== Plan\nRead[t => a:i64]\n  + Enh:{q}[4]\n"),
            format!("=== Plan\nRead[t => a:i64]\n  + Opt:{q}[4]\n"),
        ];
        for k in 0..4 {
            let got = try_parse(r, &texts[k])?;
            if got.is_ok() != m[k].contains_key(&nm) {
                return bad("the parser sees another registry", format!("{:?}\n{hist}", texts[k]));
            }
            if let Ok(plan) = got {
                let (t, e) = fmt_default(r, &plan)?;
                let u = m[k][&nm];
                let arrow = if k == 0 { " => " } else { "" };
                let want = texts[k].replace("[4]", &format!("[{nm}, {u}, ({nm}, {u}, 4){arrow}]"));
                if t != want || !e.is_empty() {
                    return bad("the formatter sees another registry", format!("{t}want\n{want}{hist}"));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: argument access

fn value(r: &mut Rng, d: usize) -> ExtensionValue {
    use ExtensionValue as V;
    let lit = |r: &mut Rng| {
        use p::expression::literal::LiteralType as L;
        p::expression::Literal {
            literal_type: Some(match r.below(4) {
                0 => L::I64(3),
                1 => L::Boolean(true),
                2 => L::String("x".into()),
                _ => L::Fp64(0.5),
            }),
            nullable: r.coin(),
            type_variation_reference: 0,
        }
    };
    match r.below(if d == 0 { 9 } else { 11 }) {
        0 => V::String(genr::any_string(r)),
        1 => V::Integer(r.edgy(i64::MIN, i64::MAX)),
        2 => V::Float(genr::any_f64(r)),
        3 => V::Boolean(r.coin()),
        4 => V::Null,
        5 => V::Error(ExtensionError::Custom("inner".into())),
        6 => V::Expr(Expr::field(r.range(0, 9) as i32)),
        7 => V::Expr(match r.below(3) {
            0 => Expr::from(lit(r)),
            1 => {
                // a nested reference is not a plain one
                let mut e = Enc::fref(1);
                if let Some(p::expression::RexType::Selection(s)) = e.rex_type.as_mut() {
                    use p::expression::{field_reference as f, reference_segment as g};
                    if r.coin() {
                        if let Some(f::ReferenceType::DirectReference(seg)) = s.reference_type.as_mut()
                            && let Some(g::ReferenceType::StructField(sf)) = seg.reference_type.as_mut()
                        {
                            sf.child = Some(Box::new(p::expression::ReferenceSegment {
                                reference_type: Some(g::ReferenceType::StructField(Box::new(g::StructField { field: 0, child: None }))),
                            }));
                        }
                    } else {
                        s.reference_type = None;
                    }
                }
                Expr::from(e)
            }
            _ => Expr::from(p::Expression::default()),
        }),
        8 => V::Enum(genr::ident(r)),
        _ => {
            let n = r.upto(3);
            let t: Vec<ExtensionValue> = if r.coin() {
                let v = value(r, d - 1);
                (0..n).map(|_| v.clone()).collect()
            } else {
                (0..n).map(|_| value(r, d - 1)).collect()
            };
            V::Tuple(t.into_iter().collect::<TupleValue>())
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Str,
    String,
    I64,
    F64,
    Bool,
    Enum,
    Tuple,
    Ref,
    Expr,
}
const WANTS: [Want; 9] =
    [Want::Str, Want::String, Want::I64, Want::F64, Want::Bool, Want::Enum, Want::Tuple, Want::Ref, Want::Expr];
fn kind_of(w: Want) -> K {
    match w {
        Want::Str | Want::String => K::String,
        Want::I64 => K::Integer,
        Want::F64 => K::Float,
        Want::Bool => K::Boolean,
        Want::Enum => K::Enum,
        Want::Tuple => K::Tuple,
        Want::Ref => K::Reference,
        Want::Expr => K::Expression,
    }
}
/// A result as text: the value, or the shape of the error.
fn show(r: Result<String, ExtensionError>) -> String {
    match r {
        Ok(s) => format!("ok {s}"),
        Err(e) => show_err(&e),
    }
}
fn show_err(e: &ExtensionError) -> String {
    use ExtensionError as E;
    match e {
        E::InvalidArgumentType { expected, actual } => format!("type {expected:?} {actual:?}"),
        E::ArgumentConversion { expected, source } => format!("conv {expected:?} <{}>", show_err(source)),
        E::NamedArgumentConversion { name, source } => format!("named {name:?} <{}>", show_err(source)),
        E::MissingArgument { name } => format!("missing {name:?}"),
        E::Custom(s) => format!("custom {s}"),
        E::InvalidArgument(_) => "unhandled".into(),
        o => format!("{o:?}"),
    }
}
fn got_conv(v: &ExtensionValue, w: Want) -> Result<String, ExtensionError> {
    Ok(match w {
        Want::Str => format!("{:?}", <&str>::try_from(v)?),
        Want::String => format!("{:?}", String::try_from(v)?),
        Want::I64 => format!("{:?}", i64::try_from(v)?),
        Want::F64 => format!("{:?}", f64::try_from(v)?.to_bits()),
        Want::Bool => format!("{:?}", bool::try_from(v)?),
        Want::Enum => format!("{:?}", EnumValue::try_from(v)?.0),
        Want::Tuple => format!("{:?}", <&TupleValue>::try_from(v)?.iter().collect::<Vec<_>>()),
        Want::Ref => format!("{}", {
            // Reference is not exported; the trait method is reachable through Expr.
            Expr::try_from(v)?.as_direct_reference().ok_or_else(|| ExtensionError::InvalidArgumentType { expected: K::Reference, actual: v.kind() })?
        }),
        Want::Expr => format!("{:?}", Expr::try_from(v)?.to_proto()),
    })
}
fn want_conv(v: &ExtensionValue, w: Want) -> Result<String, ExtensionError> {
    use ExtensionValue as V;
    use p::expression::literal::LiteralType as L;
    let lit = |l: L| {
        format!("{:?}", p::Expression {
            rex_type: Some(p::expression::RexType::Literal(p::expression::Literal { literal_type: Some(l), nullable: false, type_variation_reference: 0 })),
        })
    };
    let actual = match v {
        V::String(_) => K::String,
        V::Integer(_) => K::Integer,
        V::Float(_) => K::Float,
        V::Boolean(_) => K::Boolean,
        V::Null => K::Null,
        V::Error(_) => K::Error,
        V::Expr(_) => K::Expression,
        V::Enum(_) => K::Enum,
        V::Tuple(_) => K::Tuple,
    };
    let no = || match v {
        V::Error(e) => Err(ExtensionError::ArgumentConversion { expected: if w == Want::Ref { K::Expression } else { kind_of(w) }, source: Box::new(e.clone()) }),
        _ => Err(ExtensionError::InvalidArgumentType { expected: if w == Want::Ref && !matches!(v, V::Expr(_)) { K::Expression } else { kind_of(w) }, actual }),
    };
    match (w, v) {
        (Want::Str | Want::String, V::String(s)) => Ok(format!("{s:?}")),
        (Want::I64, V::Integer(i)) => Ok(format!("{i:?}")),
        (Want::F64, V::Float(f)) => Ok(format!("{:?}", f.to_bits())),
        (Want::Bool, V::Boolean(b)) => Ok(format!("{b:?}")),
        (Want::Enum, V::Enum(s)) => Ok(format!("{s:?}")),
        (Want::Tuple, V::Tuple(t)) => Ok(format!("{:?}", t.iter().collect::<Vec<_>>())),
        (Want::Expr, V::Expr(e)) => Ok(format!("{:?}", e.as_proto())),
        (Want::Expr, V::Integer(i)) => Ok(lit(L::I64(*i))),
        (Want::Expr, V::Float(f)) => Ok(lit(L::Fp64(*f))),
        (Want::Expr, V::String(s)) => Ok(lit(L::String(s.clone()))),
        (Want::Expr, V::Boolean(b)) => Ok(lit(L::Boolean(*b))),
        (Want::Ref, V::Expr(e)) => {
            let p = e.as_proto();
            for n in 0..10 {
                if *p == Enc::fref(n) {
                    return Ok(format!("{n}"));
                }
            }
            no()
        }
        // Scalars widen to an expression, which is no reference.
        (Want::Ref, V::Integer(_) | V::Float(_) | V::String(_) | V::Boolean(_)) => {
            Err(ExtensionError::InvalidArgumentType { expected: K::Reference, actual })
        }
        _ => no(),
    }
}

#[derive(Clone, Debug)]
enum Step {
    Positional,
    Columns,
    Raw(String),
    Get(String, Want),
    Expect(String, Want),
    Tup(String, Want),
}
thread_local! {
    static SCRIPT: RefCell<(Vec<Step>, Vec<String>)> = const { RefCell::new((vec![], vec![])) };
}
/// A handler that performs the current script and stops at the first error.
struct Scripted;
fn unit_named<'a, T>(r: Result<Option<T>, ExtensionError>, f: impl Fn(T) -> String) -> Result<String, ExtensionError> {
    r.map(|o| o.map_or("none".into(), f))
}
impl Explainable for Scripted {
    fn name() -> &'static str {
        "Scripted"
    }
    fn from_args(a: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let script = SCRIPT.with(|s| s.borrow().0.clone());
        for st in script {
            let r: Result<String, ExtensionError> = match &st {
                Step::Positional => Ok(format!("{:?}", a.positional())),
                Step::Columns => Ok(format!("{:?}", a.output_columns())),
                Step::Raw(k) => Ok(a.get_named_arg(k).map_or("none".into(), |v| format!("{v:?}"))),
                Step::Get(k, w) => match w {
                    Want::Str => unit_named(a.get_named::<&str>(k), |v| format!("{v:?}")),
                    Want::String => unit_named(a.get_named::<String>(k), |v| format!("{v:?}")),
                    Want::I64 => unit_named(a.get_named::<i64>(k), |v| format!("{v:?}")),
                    Want::F64 => unit_named(a.get_named::<f64>(k), |v| format!("{:?}", v.to_bits())),
                    Want::Bool => unit_named(a.get_named::<bool>(k), |v| format!("{v:?}")),
                    Want::Enum => unit_named(a.get_named::<EnumValue>(k), |v| format!("{:?}", v.0)),
                    Want::Tuple => unit_named(a.get_named::<&TupleValue>(k), |v| format!("{:?}", v.iter().collect::<Vec<_>>())),
                    _ => unit_named(a.get_named::<Expr>(k), |v| format!("{:?}", v.to_proto())),
                },
                Step::Expect(k, w) => match w {
                    Want::Str => a.expect_named::<&str>(k).map(|v| format!("{v:?}")),
                    Want::String => a.expect_named::<String>(k).map(|v| format!("{v:?}")),
                    Want::I64 => a.expect_named::<i64>(k).map(|v| format!("{v:?}")),
                    Want::F64 => a.expect_named::<f64>(k).map(|v| format!("{:?}", v.to_bits())),
                    Want::Bool => a.expect_named::<bool>(k).map(|v| format!("{v:?}")),
                    Want::Enum => a.expect_named::<EnumValue>(k).map(|v| format!("{:?}", v.0)),
                    Want::Tuple => a.expect_named::<&TupleValue>(k).map(|v| format!("{:?}", v.iter().collect::<Vec<_>>())),
                    _ => a.expect_named::<Expr>(k).map(|v| format!("{:?}", v.to_proto())),
                },
                Step::Tup(k, w) => match w {
                    Want::I64 => unit_named(a.get_named_tuple::<i64>(k), |v| format!("{v:?}")),
                    Want::Bool => unit_named(a.get_named_tuple::<bool>(k), |v| format!("{v:?}")),
                    Want::Enum => unit_named(a.get_named_tuple::<EnumValue>(k), |v| format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>())),
                    Want::Str | Want::String => unit_named(a.get_named_tuple::<&str>(k), |v| format!("{v:?}")),
                    _ => unit_named(a.get_named_tuple::<Expr>(k), |v| format!("{:?}", v.iter().map(|x| x.to_proto()).collect::<Vec<_>>())),
                },
            };
            SCRIPT.with(|s| s.borrow_mut().1.push(r.as_ref().map_or_else(show_err, |x| x.clone())));
            r?;
        }
        Ok(Scripted)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Ok(ExtensionArgs::default())
    }
}

fn script(env: &mut Env, rng: &mut Rng) -> Res {
    let keys = ["a", "b", "c", "A", "", "ключ"];
    let mut args = ExtensionArgs::default();
    for _ in 0..rng.upto(2) {
        args.positional.push(value(rng, 1));
    }
    let mut order: Vec<&str> = keys.to_vec();
    rng.shuffle(&mut order);
    for k in &order[..rng.upto(4)] {
        let v = value(rng, 2);
        if args.insert(*k, v.clone()).is_some() {
            return bad("insert reports an earlier value", "");
        }
        if rng.chance(1, 6) {
            let w = value(rng, 1);
            let old = args.insert(*k, w);
            if old.map(|o| format!("{o:?}")) != Some(format!("{v:?}")) {
                return bad("insert does not return the earlier value", "");
            }
        }
    }
    if rng.chance(1, 4) {
        args.output_columns.push(ExtensionColumn::field(1));
    }
    let mut steps = vec![];
    if rng.chance(3, 4) {
        steps.push(Step::Positional);
    }
    let reads = rng.upto(8);
    for _ in 0..reads {
        let k = rng.pick(&keys).to_string();
        // Mostly ask for what is there, so that scripts get to the end.
        let fit = match args.named.get(&k) {
            Some(ExtensionValue::String(_)) => *rng.pick(&[Want::Str, Want::String]),
            Some(ExtensionValue::Integer(_)) => Want::I64,
            Some(ExtensionValue::Float(_)) => Want::F64,
            Some(ExtensionValue::Boolean(_)) => Want::Bool,
            Some(ExtensionValue::Enum(_)) => Want::Enum,
            Some(ExtensionValue::Tuple(_)) => Want::Tuple,
            _ => Want::Expr,
        };
        let w = if rng.chance(4, 5) { fit } else { *rng.pick(&WANTS) };
        steps.push(match rng.below(8) {
            0 => Step::Columns,
            1 | 2 => Step::Raw(k),
            3 | 4 => Step::Get(k, w),
            5 if args.named.contains_key(&k) || rng.chance(1, 4) => Step::Expect(k, w),
            6 if w == Want::Tuple || rng.chance(1, 4) => Step::Tup(k, *rng.pick(&WANTS)),
            _ => Step::Raw(k),
        });
    }
    // Reference interpreter.
    let mut log: Vec<String> = vec![];
    let mut handled: Vec<String> = vec![];
    let mut pos = false;
    let mut fail = None;
    for s in &steps {
        let conv = |v: &ExtensionValue, w: Want| want_conv(v, if w == Want::Ref { Want::Expr } else { w });
        let named = |k: &String, r: Result<String, ExtensionError>| r.map_err(|e| ExtensionError::NamedArgumentConversion { name: k.clone(), source: Box::new(e) });
        let r: Result<String, ExtensionError> = match s {
            Step::Positional => {
                pos = true;
                Ok(format!("{:?}", args.positional))
            }
            Step::Columns => Ok(format!("{:?}", args.output_columns)),
            Step::Raw(k) => Ok(args.named.get(k).map_or("none".into(), |v| format!("{v:?}"))),
            Step::Get(k, w) => args.named.get(k).map_or(Ok("none".into()), |v| named(k, conv(v, *w))),
            Step::Expect(k, w) => match args.named.get(k) {
                Some(v) => named(k, conv(v, *w)),
                None => Err(ExtensionError::MissingArgument { name: k.clone() }),
            },
            Step::Tup(k, w) => match args.named.get(k) {
                None => Ok("none".into()),
                Some(ExtensionValue::Tuple(t)) => {
                    let w = match w {
                        Want::I64 | Want::Bool | Want::Enum => *w,
                        Want::Str | Want::String => Want::Str,
                        _ => Want::Expr,
                    };
                    let mut out = vec![];
                    let mut err = None;
                    for x in t {
                        match conv(x, w) {
                            Ok(s) => out.push(s),
                            Err(e) => {
                                err = Some(e);
                                break;
                            }
                        }
                    }
                    match err {
                        None => Ok(format!("[{}]", out.join(", "))),
                        Some(e) => named(k, Err(e)),
                    }
                }
                Some(v) => named(k, want_conv(v, Want::Tuple)),
            },
        };
        if let Step::Raw(k) | Step::Get(k, _) | Step::Expect(k, _) | Step::Tup(k, _) = s {
            handled.push(k.clone());
        }
        log.push(r.as_ref().map_or_else(show_err, |x| x.clone()));
        if let Err(e) = r {
            fail = Some(show_err(&e));
            break;
        }
    }
    if fail.is_none() && ((!pos && !args.positional.is_empty()) || args.named.keys().any(|k| !handled.contains(k))) {
        fail = Some("unhandled".into());
    }
    SCRIPT.with(|s| *s.borrow_mut() = (steps.clone(), vec![]));
    let got = match args.parse::<Scripted>() {
        Ok(_) => None,
        Err(e) => Some(show_err(&e)),
    };
    let glog = SCRIPT.with(|s| std::mem::take(&mut s.borrow_mut().1));
    env.eval(format!("{args:?}{steps:?}").as_bytes(), !steps.is_empty());
    env.ev(match &fail {
        None => "script: accepted",
        Some(f) if f == "unhandled" => "script: unread arguments",
        _ => "script: conversion failed",
    });
    if got != fail || glog != log {
        return bad("argument access went wrong", format!("{args:#?}\n{steps:?}\ngot {got:?} {glog:#?}\nwant {fail:?} {log:#?}"));
    }
    Ok(())
}

fn canon_ex(rng: &mut Rng) -> p::Expression {
    let mut g = Gen::new(rng.fork(), Cfg::default());
    g.decls();
    let x = g.ex(2, 3);
    Enc::canon().ex(&x)
}
fn conversions(env: &mut Env, rng: &mut Rng) -> Res {
    let v = value(rng, 2);
    for w in WANTS {
        let (g, x) = (show(got_conv(&v, w)), show(want_conv(&v, w)));
        env.evals += 1;
        env.ev(if x.starts_with("ok") { "conversion succeeds" } else { "conversion refused" });
        if g != x {
            return bad("an argument conversion went wrong", format!("{v:?} as {w:?}: got {g}, want {x}"));
        }
    }
    // Into arguments.
    let i = rng.edgy(i64::MIN, i64::MAX);
    let s = genr::any_string(rng);
    let f = genr::any_f64(rng);
    let b = rng.coin();
    let dbg = |v: ExtensionValue| format!("{v:?}");
    let pairs = [
        (dbg(i.into()), dbg(ExtensionValue::Integer(i))),
        (dbg(s.clone().into()), dbg(ExtensionValue::String(s.clone()))),
        (dbg(s.as_str().into()), dbg(ExtensionValue::String(s.clone()))),
        (dbg(f.into()), dbg(ExtensionValue::Float(f))),
        (dbg(b.into()), dbg(ExtensionValue::Boolean(b))),
        (dbg(vec![i, i].into()), dbg(ExtensionValue::Tuple(vec![ExtensionValue::Integer(i); 2].into()))),
    ];
    for (g, w) in pairs {
        if g != w {
            return bad("a value became another argument", format!("{g} {w}"));
        }
    }
    // Tuples and expressions keep what they were made of.
    let vs: Vec<ExtensionValue> = (0..rng.upto(4)).map(|_| value(rng, 1)).collect();
    let t: TupleValue = vs.iter().cloned().collect();
    let (n, e) = (t.len(), t.is_empty());
    let by_ref: Vec<String> = (&t).into_iter().map(|v| format!("{v:?}")).collect();
    let by_val: Vec<String> = t.into_iter().map(|v| format!("{v:?}")).collect();
    let want: Vec<String> = vs.iter().map(|v| format!("{v:?}")).collect();
    if n != vs.len() || e != vs.is_empty() || by_ref != want || by_val != want {
        return bad("a tuple holds other values", format!("{vs:?}: {n} {e} {by_ref:?} {by_val:?}"));
    }
    let owned = String::try_from(v.clone()).map(|s| format!("{s:?}"));
    if show(owned) != show(got_conv(&v, Want::String)) {
        return bad("an owned conversion differs from the borrowed one", format!("{v:?}"));
    }
    let x = canon_ex(rng);
    let e = Expr::from(x.clone());
    if *e.as_proto() != x || e.to_proto() != x || p::Expression::from(e) != x {
        return bad("an expression changed as an argument", format!("{x:?}"));
    }
    if let Some(p::expression::RexType::Literal(l)) = &x.rex_type {
        let v = ExtensionValue::from(l.clone());
        if v.kind() != K::Expression || !matches!(&v, ExtensionValue::Expr(e) if *e.as_proto() == x) {
            return bad("a literal changed as an argument", format!("{x:?}: {v:?}"));
        }
    }
    let kinds = [K::String, K::Integer, K::Float, K::Boolean, K::Null, K::Error, K::Reference, K::Enum, K::Tuple, K::Expression];
    let names: std::collections::BTreeSet<String> = kinds.iter().map(|k| k.to_string()).collect();
    if names.len() != kinds.len() {
        return bad("two kinds of argument have one name", format!("{names:?}"));
    }
    // Schemas to columns and back.
    let mut g = Gen::new(rng.fork(), Cfg::default());
    g.decls();
    let cols = g.cols();
    let mut e = Enc::canon();
    let ec: Vec<ExtensionColumn> =
        cols.iter().map(|(n, t)| ExtensionColumn::Named { name: n.clone(), r#type: e.ty(t) }).collect();
    let ns: p::NamedStruct = match ec[..].convert() {
        Ok(x) => x,
        Err(e) => return bad("a schema conversion failed", format!("{e}")),
    };
    let want = p::NamedStruct {
        names: cols.iter().map(|c| c.0.clone()).collect(),
        r#struct: Some(p::r#type::Struct { types: cols.iter().map(|c| e.ty(&c.1)).collect(), type_variation_reference: 0, nullability: 2 }),
    };
    if ns != want {
        return bad("columns became another schema", format!("{ns:?}\n{want:?}"));
    }
    let back: Result<Vec<ExtensionColumn>, _> = ns.convert();
    if back.as_ref().map(|b| format!("{b:?}")).ok() != Some(format!("{ec:?}")) {
        return bad("a schema became other columns", format!("{back:?}\n{ec:?}"));
    }
    if !cols.is_empty() {
        let mut short = ns.clone();
        if rng.coin() {
            short.names.pop();
        } else if rng.coin() {
            short.r#struct.as_mut().unwrap().types.pop();
        } else {
            short.r#struct = None;
        }
        let r: Result<Vec<ExtensionColumn>, _> = short.convert();
        if r.is_ok() {
            return bad("a schema with unequal names and types is accepted", format!("{short:?}"));
        }
        let mut ex = ec.clone();
        let k = rng.below(ex.len());
        ex[k] = ExtensionColumn::field(0);
        let r: Result<p::NamedStruct, _> = ex[..].convert();
        if r.is_ok() {
            return bad("an expression column became a schema", format!("{ex:?}"));
        }
    }
    // Any: every wrapper carries URL and bytes.
    let bytes: Vec<u8> = (0..rng.upto(9)).map(|_| rng.u64() as u8).collect();
    let a = Any::new(s.clone(), bytes.clone());
    let pt: prost_types::Any = a.clone().into();
    let pj: pbjson_types::Any = a.clone().into();
    let ok = pt.type_url == s && pt.value == bytes && pj.type_url == s && pj.value == bytes
        && Any::from(pt.clone()) == a && Any::from(pj.clone()) == a
        && AnyRef::from(&pt) == a.as_ref() && AnyRef::from(&pj) == a.as_ref()
        && a.as_ref().type_url == s && a.as_ref().value == &bytes[..];
    if !ok {
        return bad("an Any conversion changed its content", format!("{a:?}"));
    }
    let hint = substrait_explain::extensions::examples::PlanHint { hint: s.clone() };
    let enc = Any::encode(&hint).map_err(|e| Bad { what: "Any::encode failed".into(), detail: e.to_string() })?;
    let back = enc.decode::<substrait_explain::extensions::examples::PlanHint>();
    if enc.value != hint.encode_to_vec() || back.as_ref().ok() != Some(&hint) {
        return bad("Any does not carry the message", format!("{enc:?} {back:?}"));
    }
    if enc.decode::<substrait_explain::extensions::examples::BlobStoreRead>().is_ok() {
        return bad("Any decodes as another message type", format!("{enc:?}"));
    }
    Ok(())
}

fn c12(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    if i % 4 == 0 {
        history(env, &mut rng)?;
    }
    for _ in 0..3 {
        script(env, &mut rng)?;
    }
    conversions(env, &mut rng)
}
