//! Round trips, relation mapping, canonical rendering, spellings, names, declarations.
use super::*;
use crate::genr;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "random model plans written with random optional spellings, plus token-level mutations of them that the parser happens to accept; each is parsed, formatted, parsed and formatted again. Non-trivial: at least one relation; distinct by text",
        quick: 40_000,
        thorough: 900_000,
        case_cpu: 20.0,
        assume: &["mutated texts whose output references lie beyond the input are skipped; intervals beyond the specified range and unspecified nullability are reported by design, and must still survive"],
        run: c01,
    },
    Prop {
        id: "C02",
        rule: "random model plans in random equivalent protobuf encodings (absent/direct/identity emit, hidden, shared or permuted computed columns and measures, deprecated fetch, grouping and interval fields, declaration order); formatted, parsed and compared with the model's canonical protobuf. Distinct by encoded bytes",
        quick: 50_000,
        thorough: 1_200_000,
        case_cpu: 20.0,
        assume: &[],
        run: c02,
    },
    Prop {
        id: "C05",
        rule: "random relation trees (all kinds, widths 0 to 6, random output lists) written as text, parsed and compared field by field with the protobuf an independent model assigns to them. Distinct by text",
        quick: 50_000,
        thorough: 1_200_000,
        case_cpu: 20.0,
        assume: &[],
        run: c05,
    },
    Prop {
        id: "C06",
        rule: "random protobuf plans in the supported subset, in canonical and variant encodings, compared character by character with an independent renderer. Distinct by rendered text",
        quick: 50_000,
        thorough: 1_200_000,
        case_cpu: 20.0,
        assume: &[],
        run: c06,
    },
    Prop {
        id: "C10",
        rule: "random Version records and declaration sets (sparse, equal and extreme anchors, several URNs) printed in random order and grouping, parsed and compared; and the protobuf in random order rendered and compared; random histories of insertions into the public declaration table against a reference map. Distinct by text",
        quick: 60_000,
        thorough: 1_500_000,
        case_cpu: 20.0,
        assume: &[],
        run: c10,
    },
    Prop {
        id: "C18",
        rule: "strings (a sweep over all Unicode scalar values and random compositions of quoting-relevant fragments) placed in every name position; rendered, checked for exact quoting and unchanged line structure, parsed back. Distinct by string set",
        quick: 30_000,
        thorough: 300_000,
        case_cpu: 20.0,
        assume: &[],
        run: c18,
    },
    Prop {
        id: "C19",
        rule: "each random plan is written in three independent random spellings (spaces, blank lines, CRLF, multi-line tables, letter case, redundant anchors, signatures, ascriptions, order of arguments and declarations) that must all parse to the model's protobuf. Distinct by text",
        quick: 25_000,
        thorough: 600_000,
        case_cpu: 20.0,
        assume: &[],
        run: c19,
    },
];

fn c01(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, m) = plan_of(&mut rng, Cfg { max_rels: if i % 16 == 0 { 25 } else { 6 }, ..Default::default() });
    let text = Pr::styled(&m.decls, g.r.fork()).plan(&m);
    fixpoint(env, &text, true)?;
    note_plan(env, &m);
    env.sample(|| text.clone());
    for k in 0..4 {
        let t = if k == 0 { crate::mutate::tokens(&text, &mut rng) } else { crate::mutate::classy(&text, &mut rng) };
        fixpoint(env, &t, false)?;
    }
    for _ in 0..2 {
        let l = crate::mutate::odd_lit(&mut rng);
        let t = super::atoms::lit_slot(rng.below(super::atoms::LIT_SLOTS.len()), &l);
        fixpoint(env, &t, false)?;
    }
    Ok(())
}
fn fixpoint(env: &mut Env, text: &str, must: bool) -> Res {
    let plan = match try_parse(&env.reg, text)? {
        Ok(p) => p,
        Err(e) if must => return bad("valid text rejected", format!("{e}\n--- input\n{text}")),
        Err(_) => {
            env.ev("mutant rejected");
            return Ok(());
        }
    };
    let (t1, e) = fmt_default(&env.reg, &plan)?;
    if !must && self_referring(&plan) {
        env.ev("mutant refers beyond its input");
        return Ok(());
    }
    if !e.is_empty() {
        // (inside extension payloads, only the messages tell)
        let told = |x: &String| x.contains("IntervalDay") || x.contains("Nullability");
        if must || !(reported(&plan) || e.iter().all(told)) {
            return bad("accepted text does not format cleanly", format!("{e:?}\n--- input\n{text}\n--- formatted\n{t1}"));
        }
        env.ev("mutant with an interval out of range or unspecified nullability");
    }
    env.ev(if must { "valid text accepted" } else { "mutant accepted" });
    env.eval(text.as_bytes(), true);
    let p2 = match try_parse(&env.reg, &t1)? {
        Ok(p) => p,
        Err(e) => {
            return bad("formatted text is rejected", format!("{e}\n--- input\n{text}\n--- formatted\n{t1}"));
        }
    };
    if !same(&p2, &plan) {
        return bad(
            "formatting and parsing again changed the plan",
            format!("{}\n--- input\n{text}\n--- formatted\n{t1}", plan_diff(&p2, &plan)),
        );
    }
    let (t2, e2) = fmt_default(&env.reg, &p2)?;
    if t2 != t1 || e2 != e {
        return bad("canonical text is not a fixed point", format!("{}\n{e2:?}\n--- input\n{text}", text_diff(&t2, &t1)));
    }
    Ok(())
}

fn c02(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, m) = plan_of(&mut rng, Cfg { max_rels: if i % 16 == 0 { 25 } else { 7 }, ..Default::default() });
    let want = canon_proto(&m);
    for k in 0..3 {
        let plan = if k == 0 { want.clone() } else { Enc::vary(g.r.fork()).plan(&m) };
        let (t, e) = fmt_default(&env.reg, &plan)?;
        if !e.is_empty() {
            return bad("the formatter reported errors on a representable plan", format!("{e:?}\n--- text\n{t}"));
        }
        let got = match try_parse(&env.reg, &t)? {
            Ok(p) => p,
            Err(e) => return bad("formatted text is rejected", format!("{e}\n--- text\n{t}")),
        };
        env.eval(&plan.encode_to_vec(), m.rels() > 0);
        env.ev(if k == 0 { "canonical encoding" } else { "variant encoding" });
        if !same(&got, &want) {
            return bad("the round trip changed the plan", format!("{}\n--- text\n{t}", plan_diff(&got, &want)));
        }
    }
    note_plan(env, &m);
    env.sample(|| canon_text(&m));
    Ok(())
}

fn c05(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let c = Cfg {
        max_rels: [3, 6, 12, 30][(i % 4) as usize],
        expr_depth: 2,
        weird: 1,
        max_trees: 2,
        collide: false,
        ..Default::default()
    };
    let (mut g, m) = plan_of(&mut rng, c);
    let want = canon_proto(&m);
    let text = if i % 2 == 0 { canon_text(&m) } else { Pr::styled(&m.decls, g.r.fork()).plan(&m) };
    env.eval(text.as_bytes(), true);
    note_plan(env, &m);
    env.sample(|| text.clone());
    expect_parse(env, &text, &want)?;
    // One relation of each kind over a fixed input, by rotation, so that every kind meets every
    // small width and output list.
    let pick = (i % 22) as usize;
    let r = g.rel_of(pick);
    let m1 = MPlan { version: None, decls: m.decls.clone(), trees: vec![MTree { root: None, rel: r }] };
    let t1 = Pr::styled(&m1.decls, g.r.fork()).plan(&m1);
    env.eval(t1.as_bytes(), true);
    note_plan(env, &m1);
    expect_parse(env, &t1, &canon_proto(&m1))
}

fn c06(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let c = Cfg { max_rels: [2, 6, 10, 30][(i % 4) as usize], ..Default::default() };
    let (mut g, m) = plan_of(&mut rng, c);
    let want = canon_text(&m);
    env.eval(want.as_bytes(), true);
    note_plan(env, &m);
    env.sample(|| want.clone());
    expect_text(env, &canon_proto(&m), &want)?;
    for _ in 0..2 {
        env.ev("variant encoding");
        expect_text(env, &Enc::vary(g.r.fork()).plan(&m), &want)?;
    }
    Ok(())
}

fn c10(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let mut g = Gen::new(rng.fork(), Cfg { collide: i % 2 == 0, ..Default::default() });
    g.decls();
    if i % 5 == 0 {
        // more URNs and declarations than usual
        let more = g.d.clone();
        g.decls();
        for u in more.urns {
            if g.d.urns.iter().all(|x| x.0 != u.0) {
                g.d.urns.push(u);
            }
        }
        g.d.sort();
    }
    if i % 7 == 0 {
        g.d = Decls::default();
    } else if i % 7 == 1 {
        g.d.funcs.clear();
        g.d.types.clear();
    } else if i % 7 == 2 {
        g.d.funcs.clear();
        g.d.tvars.clear();
    }
    let rel = MRel::leafish(Op::Read { table: vec!["t".into()], cols: vec![("a".into(), Ty { k: TyK::Simple(4), n: false })], emit: None });
    let version = g.version();
    let m = MPlan { version, decls: g.d.clone(), trees: vec![MTree { root: None, rel }] };
    let want = canon_proto(&m);
    let ct = canon_text(&m);
    env.ev(&format!("urns {}", m.decls.urns.len().min(6)));
    env.ev(if m.version.is_some() { "version" } else { "no version" });
    expect_text(env, &want, &ct)?;
    expect_parse(env, &ct, &want)?;
    for _ in 0..2 {
        let t = Pr::styled(&m.decls, g.r.fork()).plan(&m);
        env.eval(t.as_bytes(), !m.decls.is_empty() || m.version.is_some());
        env.sample(|| t.clone());
        expect_parse(env, &t, &want)?;
        expect_text(env, &Enc::vary(g.r.fork()).plan(&m), &ct)?;
    }
    // The declaration tables are also public: same content through that door.
    let exts = guard(|| {
        substrait_explain::extensions::SimpleExtensions::from_extensions(&want.extension_urns, &want.extensions)
    });
    match exts {
        Ok((x, errs)) => {
            if !errs.is_empty() {
                return bad("valid declarations reported", format!("{errs:?}"));
            }
            if x.to_extension_urns() != want.extension_urns || x.to_extension_declarations() != want.extensions {
                return bad("declaration tables differ from what was declared", format!("{x:?}"));
            }
        }
        Err(m) => return bad("panic", m),
    }
    table(env, &mut rng)
}

/// A random history of insertions into the public declaration table against a reference map.
fn table(env: &mut Env, rng: &mut Rng) -> Res {
    use std::collections::BTreeMap;
    use substrait_explain::extensions::simple::ExtensionKind as K;
    use substrait_explain::extensions::{InsertError as E, SimpleExtensions};
    let mut x = SimpleExtensions::new();
    let mut urns: BTreeMap<u32, String> = BTreeMap::new();
    // By anchor, then function, type, type variation.
    let mut decls: BTreeMap<(u32, u8), (u32, String)> = BTreeMap::new();
    let mut hist = String::new();
    let anchor = |r: &mut Rng| if r.chance(1, 8) { crate::genr::anchor(r) } else { r.below(5) as u32 };
    for _ in 0..rng.below(14) {
        let a = anchor(rng);
        if rng.chance(1, 3) {
            let u = format!("urn:{}", rng.below(3));
            let want = match urns.get(&a) {
                Some(prev) => format!("{:?}", Err::<(), _>(E::DuplicateUrnAnchor { anchor: a, prev: prev.clone(), name: u.clone() })),
                None => {
                    urns.insert(a, u.clone());
                    "Ok(())".into()
                }
            };
            let got = format!("{:?}", x.add_extension_urn(u.clone(), a));
            hist.push_str(&format!("urn {a} {u}: {got}\n"));
            if got != want {
                return bad("an URN insertion has another outcome", format!("want {want}\n{hist}"));
            }
            env.ev(if want == "Ok(())" { "table: URN" } else { "table: URN refused" });
        } else {
            let k = rng.below(3);
            let kind = [K::Function, K::Type, K::TypeVariation][k];
            let urn = anchor(rng);
            let name = rng.pick(&["f", "g", "f:i64", "u!f", "u!u!f", "U!f", ""]).to_string();
            let stored = if k == 1 { name.strip_prefix("u!").unwrap_or(&name).to_string() } else { name.clone() };
            let got = x.add_extension(kind, urn, a, name.clone());
            hist.push_str(&format!("{kind} {a}@{urn} {name:?}: {got:?}\n"));
            let prev = decls.get(&(a, k as u8)).map(|p| p.1.clone());
            let ok = match (&got, &prev, urns.contains_key(&urn)) {
                (Err(E::InvalidName { name: n, .. }), ..) => k != 1 && name.starts_with("u!") && *n == name,
                _ if k != 1 && name.starts_with("u!") => false,
                (Ok(()), None, true) => true,
                (Err(E::MissingUrn { anchor, name: n, urn: u, .. }), None, false) => (*anchor, n, *u) == (a, &stored, urn),
                (Err(E::DuplicateAnchor { anchor, prev: p, name: n, .. }), Some(q), true) => (*anchor, n, p) == (a, &stored, q),
                (Err(E::DuplicateAndMissingUrn { anchor, prev: p, name: n, urn: u, .. }), Some(q), false) => (*anchor, n, p, *u) == (a, &stored, q, urn),
                _ => false,
            };
            if !ok {
                return bad("an insertion has another outcome", hist);
            }
            if prev.is_none() && !matches!(got, Err(E::InvalidName { .. })) {
                decls.insert((a, k as u8), (urn, stored));
            }
            env.ev(if got.is_ok() { "table: declaration" } else { "table: declaration refused" });
        }
    }
    env.evals += 1;
    // What it holds, through every door.
    use p::extensions as pe;
    use pe::simple_extension_declaration as d;
    let wu: Vec<pe::SimpleExtensionUrn> = urns.iter().map(|(a, u)| pe::SimpleExtensionUrn { extension_urn_anchor: *a, urn: u.clone() }).collect();
    let by_kind = |k: u8| decls.iter().filter(move |x| x.0.1 == k);
    let one = |(a, k): (u32, u8), (u, n): &(u32, String)| pe::SimpleExtensionDeclaration {
        mapping_type: Some(match k {
            0 => d::MappingType::ExtensionFunction(d::ExtensionFunction { extension_urn_reference: *u, function_anchor: a, name: n.clone() }),
            1 => d::MappingType::ExtensionType(d::ExtensionType { extension_urn_reference: *u, type_anchor: a, name: n.clone() }),
            _ => d::MappingType::ExtensionTypeVariation(d::ExtensionTypeVariation { extension_urn_reference: *u, type_variation_anchor: a, name: n.clone() }),
        }),
    };
    let sort = |mut v: Vec<pe::SimpleExtensionDeclaration>| {
        v.sort_by_key(|x| format!("{x:?}"));
        v
    };
    let wd: Vec<_> = decls.iter().map(|(k, v)| one(*k, v)).collect();
    if x.to_extension_urns() != wu || sort(x.to_extension_declarations()) != sort(wd) || x.is_empty() != (urns.is_empty() && decls.is_empty()) {
        return bad("the declaration table holds something else", format!("{hist}{x:?}"));
    }
    for a in 0..6 {
        if x.find_urn(a).ok() != urns.get(&a).map(String::as_str) {
            return bad("an URN lookup reaches another URN", format!("{a}\n{hist}{x:?}"));
        }
        for (k, kind) in [K::Function, K::Type, K::TypeVariation].into_iter().enumerate() {
            let want = decls.get(&(a, k as u8));
            if x.find_by_anchor(kind, a).ok().map(|(u, n)| (u, n.full().to_string())) != want.cloned() {
                return bad("a lookup reaches another declaration", format!("{kind} {a}\n{hist}{x:?}"));
            }
            for name in ["f", "g", "f:i64", "u!f"] {
                let others = by_kind(k as u8).filter(|x| x.0.0 != a && x.1.1 == name).count();
                let want = want.filter(|w| w.1 == name).map(|_| others == 0);
                if x.is_name_unique(kind, a, name).ok() != want {
                    return bad("the uniqueness of a name is wrong", format!("{kind} {a} {name}: want {want:?}\n{hist}{x:?}"));
                }
            }
        }
    }
    let indent = *rng.pick(&["", "  ", "\t"]);
    let mut t = String::new();
    if !(urns.is_empty() && decls.is_empty()) {
        t.push_str("=== Extensions\n");
    }
    if !urns.is_empty() {
        t.push_str("URNs:\n");
    }
    for (a, u) in &urns {
        t.push_str(&format!("{indent}@{a:>3}: {u}\n"));
    }
    for (k, h) in ["Functions:", "Types:", "Type Variations:"].iter().enumerate() {
        for (j, ((a, _), (u, n))) in by_kind(k as u8).enumerate() {
            if j == 0 {
                t.push_str(&format!("{h}\n"));
            }
            t.push_str(&format!("{indent}#{a:>3} @{u:>3}: {n}\n"));
        }
    }
    if x.to_string(indent) != t {
        return bad("the declaration table is written differently", format!("{}\n{hist}", text_diff(&x.to_string(indent), &t)));
    }
    Ok(())
}

fn c18(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    // Names: a slice of the Unicode sweep, or random compositions.
    let sweep = if env.thorough { 280_000 } else { 24_000 };
    let step = 0x110000 / sweep + 1;
    let mut names: Vec<String> = vec![];
    if i < sweep {
        let lo = if env.thorough { i * step } else if i < 0x3000 { i } else { 0x3000 + (i - 0x3000) * 92 + rng.below(92) as u64 };
        let hi = if env.thorough { lo + step } else { lo + 1 };
        for c in (lo..hi).filter_map(|c| char::from_u32(c as u32)) {
            let s = match i % 3 {
                0 => format!("{c}"),
                1 => format!("a{c}"),
                _ => format!("{c}b"),
            };
            names.push(s);
        }
        env.ev("unicode sweep");
    }
    while names.len() < 4 {
        names.push(genr::any_string(&mut rng));
        env.ev("composed");
    }
    let i64t = Ty { k: TyK::Simple(4), n: false };
    let k = names.len();
    let nm = |j: usize| names[j % k].clone();
    let cols: Cols = names.iter().map(|n| (n.clone(), i64t.clone())).collect();
    let enh = |w: usize| Inv {
        which: w,
        pos: vec![Arg::Str(nm(w))],
        named: vec![(crate::ext::KEYS[w].to_string(), Arg::Str(nm(w + 1)))],
        cols: vec![],
    };
    let which = rng.below(crate::ext::NAMES.len());
    let key = rng.below(crate::ext::NAMES.len());
    let mut rext = MRel::leafish(Op::RExt { cols: cols.clone(), inv: enh(key) });
    rext.enh = Some(enh(which));
    rext.opts = vec![enh((which + 3) % 9)];
    let read = MRel::leafish(Op::Read { table: names.clone(), cols: cols.clone(), emit: None });
    let virt = MRel::leafish(Op::Virt {
        rows: vec![names.iter().map(|n| Ex::Lit(Lit { v: LitV::Str(n.clone()), n: false })).collect()],
        cols: cols.clone(),
        filter: None,
    });
    let mut inv = enh(which);
    if which == crate::ext::CTX {
        inv.which = 0;
    }
    inv.cols = names.iter().map(|n| ECol::Named(n.clone(), i64t.clone())).collect();
    let ext = MRel { op: Op::Ext { kind: 2, inv }, kids: vec![rext, read, virt], enh: None, opts: vec![] };
    let m = MPlan {
        version: None,
        decls: Decls::default(),
        trees: vec![MTree { root: Some(names.clone()), rel: ext }],
    };
    let want = canon_proto(&m);
    let text = canon_text(&m);
    env.eval(names.join("\u{1}").as_bytes(), true);
    env.sample(|| text.clone());
    expect_text(env, &want, &text)?;
    // Line structure must not depend on the names.
    let (t, _) = fmt_default(&env.reg, &want)?;
    let n_lines = t.split(['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']).count();
    if n_lines != 10 {
        return bad("a name changed the line structure", format!("{n_lines} lines\n{t}"));
    }
    expect_parse(env, &text, &want)?;
    let styled = Pr::styled(&m.decls, rng.fork()).plan(&m);
    expect_parse(env, &styled, &want)
}

fn c19(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, m) = plan_of(&mut rng, Cfg { max_rels: if i % 8 == 0 { 20 } else { 5 }, ..Default::default() });
    let want = canon_proto(&m);
    note_plan(env, &m);
    for _ in 0..3 {
        let t = Pr::styled(&m.decls, g.r.fork()).plan(&m);
        env.eval(t.as_bytes(), true);
        env.ev(if t.contains('\r') { "CRLF text" } else { "LF text" });
        env.sample(|| t.clone());
        expect_parse(env, &t, &want)?;
    }
    Ok(())
}
