//! Literals, types and references: exact in both directions, and what must be refused.
use super::*;
use crate::genr;
use substrait_explain::extensions::SimpleExtensions;
use substrait_explain::extensions::simple::ExtensionKind;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C07",
        rule: "random, boundary and swept literals of every supported kind placed in nine contexts of a plan: exact canonical text, exact protobuf from the canonical and from random alternative spellings; and literal texts that no type can hold exactly, which must be rejected in each context. Distinct by literal text",
        quick: 80_000,
        thorough: 500_000,
        case_cpu: 20.0,
        assume: &["leap seconds, more than nine fraction digits and blanks inside dates are not explored"],
        run: c07,
    },
    Prop {
        id: "C08",
        rule: "random nested types in every type position: exact canonical text, exact protobuf from canonical and alternative spellings; type texts that must be rejected in each position; and unsupported protobuf types, rendered in their documented form or reported. Distinct by type text",
        quick: 80_000,
        thorough: 500_000,
        case_cpu: 20.0,
        assume: &[],
        run: c08,
    },
    Prop {
        id: "C09",
        rule: "declaration sets with colliding names, signatures, anchors and URNs; random written references judged by an independent resolution rule (one declaration or rejection), every declaration's canonical reference checked for being minimal and for resolving back, undeclared anchors checked for being reported. Distinct by declaration set and reference",
        quick: 110_000,
        thorough: 700_000,
        case_cpu: 20.0,
        assume: &["the optional URN part of a reference is written only where it agrees with the declaration"],
        run: c09,
    },
];

pub fn i64t() -> Ty {
    Ty { k: TyK::Simple(4), n: false }
}
fn lit_i(i: i64) -> Ex {
    Ex::Lit(Lit { v: LitV::I64(i), n: false })
}
pub fn plain_read(w: usize) -> MRel {
    MRel::leafish(Op::Read {
        table: vec!["t".into()],
        cols: (0..w).map(|i| (format!("c{i}"), i64t())).collect(),
        emit: None,
    })
}
pub fn over(op: Op, kid: MRel) -> MRel {
    MRel { op, kids: vec![kid], enh: None, opts: vec![] }
}
fn fixed_decls() -> Decls {
    Decls {
        urns: vec![(1, "urn:a".into())],
        funcs: vec![Decl { anchor: 1, urn: 1, name: "add".into() }],
        types: vec![Decl { anchor: 1, urn: 1, name: "point".into() }],
        tvars: vec![],
    }
}

// ---------------------------------------------------------------- literals

/// The literals of case i that sweep a range instead of sampling it.
fn swept(i: u64, r: &mut Rng) -> Vec<Lit> {
    let n = r.chance(1, 3);
    let l = |v| Lit { v, n };
    let p = [0, 3, 6, 9][(i % 4) as usize];
    let c = char::from_u32((i as u32 * 7) % 0x11_0000).unwrap_or('x');
    let edges: [i64; 12] = [-128, 127, -32768, 32767, 65535, -2147483648, 2147483647, 4294967295, 0, -1, i64::MIN, i64::MAX];
    vec![
        l(LitV::I8((i % 256) as i32 - 128)),
        l(LitV::I64(edges[(i % 12) as usize].saturating_add(r.range(-1, 1)))),
        l(LitV::Str(match i % 3 {
            0 => c.to_string(),
            1 => format!("{c}0"),
            _ => format!("\\{c}"),
        })),
        // every day of about 66 years, and every second of a day, over a quick run
        l(LitV::Date((i as i32 % 24_000) - 3_000)),
        l(LitV::PTime(p, (i as i64 * 43 % 86_400) * 10i64.pow(p as u32) + genr::any_tod(r, p) % 10i64.pow(p as u32))),
    ]
}
/// Literal whose value and type a plain ext argument would not keep apart from a scalar.
fn scalar_like(l: &Lit) -> bool {
    !l.n && matches!(l.v, LitV::Bool(_) | LitV::I64(_) | LitV::F64(_) | LitV::Str(_))
}

fn lit_plan(d: &Decls, ls: &[Lit], r: &mut Rng) -> MPlan {
    let ex = |k: usize| Ex::Lit(ls[k % ls.len()].clone());
    let cols: Cols = (0..ls.len()).map(|i| (format!("c{i}"), i64t())).collect();
    let rows: Vec<Vec<Ex>> = (0..1 + r.below(3)).map(|k| (0..ls.len()).map(|j| ex(j + k)).collect()).collect();
    let w = ls.len();
    let virt = MRel::leafish(Op::Virt { rows, cols, filter: if r.coin() { Some(ex(1)) } else { None } });
    let f = d.funcs[0].anchor;
    let filter = over(Op::Filter { cond: ex(0), emit: (0..w).collect() }, virt);
    let sort = over(Op::Sort { fields: vec![(ex(2), 0), (ex(3), 3)], emit: (0..w).collect() }, filter);
    let outs = vec![
        POut::Ex(ex(0)),
        POut::Ex(Ex::Call(f, (0..w).map(ex).collect(), i64t())),
        POut::Ex(Ex::Cast(Box::new(ex(1)), i64t(), 0)),
        POut::Ex(Ex::If(vec![(ex(2), ex(3)), (ex(4), ex(0))], Box::new(ex(1)))),
        POut::Ref(0),
    ];
    let mut project = over(Op::Project { outs }, sort);
    let pos: Vec<Arg> = ls.iter().filter(|l| !scalar_like(l)).map(|l| Arg::Ex(Ex::Lit(l.clone()))).collect();
    project.enh = Some(Inv { which: 0, pos, named: vec![], cols: vec![] });
    let agg = over(
        Op::Agg {
            g: vec![ex(0)],
            sets: vec![vec![0]],
            outs: vec![AOut::G(0), AOut::M(Ex::Call(f, vec![ex(1)], i64t()))],
        },
        project,
    );
    MPlan { version: None, decls: d.clone(), trees: vec![MTree { root: None, rel: agg }] }
}

fn c07(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let mut g = Gen::new(rng.fork(), Cfg::default());
    g.decls();
    let mut ls = swept(i, &mut rng);
    for _ in 0..3 {
        let l = g.lit();
        ls.push(l);
    }
    rng.shuffle(&mut ls);
    for l in &ls {
        let t = Pr::canon(&g.d).lit(l);
        env.eval(t.as_bytes(), true);
        let k = format!("{:?}", l.v);
        env.ev(&format!("literal {}", k.split(['(', ' ']).next().unwrap()));
    }
    let m = lit_plan(&g.d, &ls, &mut rng);
    let want = canon_proto(&m);
    let text = canon_text(&m);
    env.sample(|| text.clone());
    expect_text(env, &want, &text)?;
    expect_parse(env, &text, &want)?;
    expect_text(env, &Enc::vary(rng.fork()).plan(&m), &text)?;
    let styled = Pr::styled(&m.decls, rng.fork()).plan(&m);
    expect_parse(env, &styled, &want)?;
    must_parse(&env.reg, &lit_slot(i as usize % LIT_SLOTS.len(), "add($0):i64"))?;
    for _ in 0..4 {
        let b = bad_lit(&mut rng);
        let slot = rng.below(LIT_SLOTS.len());
        let t = lit_slot(slot, &b);
        env.eval(t.as_bytes(), true);
        env.ev("literal that must be rejected");
        if let Ok(p) = try_parse(&env.reg, &t)? {
            return bad("a literal its type cannot hold was accepted", format!("{b}\n--- text\n{t}\n--- plan\n{p:?}"));
        }
    }
    // Near misses that are fine, so that rejection is not for another reason.
    let (t, want) = edge_lit(&mut rng);
    let t = lit_slot(0, &t);
    let got = must_parse(&env.reg, &t)?;
    let want = Enc::canon().lit(&want);
    match first_filter(&got) {
        Some(p::expression::RexType::Literal(l)) if *l == want => {}
        x => return bad("a boundary literal reads differently", format!("{t}\ngot {x:?}\nwant {want:?}")),
    }
    // And it is written so that it reads back.
    let (t2, _) = fmt_default(&env.reg, &got)?;
    expect_parse(env, &t2, &got)?;
    picos(env, &mut rng)
}
/// Times in picoseconds, finer than the text can hold: shown to the nanosecond and reported.
fn picos(env: &mut Env, rng: &mut Rng) -> Res {
    use p::expression::literal::{LiteralType as L, PrecisionTime, PrecisionTimestamp};
    let k = rng.below(3);
    let nanos = if k == 2 { rng.range(0, 86_399_999_999_999) } else { rng.edgy(-9_223_372_036_854_000, 9_223_372_036_854_000) };
    let value = nanos * 1000 + if rng.chance(1, 4) { 0 } else { rng.range(0, 999) };
    let precision = 12;
    let n = rng.coin();
    let l = match k {
        0 => L::PrecisionTimestamp(PrecisionTimestamp { precision, value }),
        1 => L::PrecisionTimestampTz(PrecisionTimestamp { precision, value }),
        _ => L::PrecisionTime(PrecisionTime { precision, value }),
    };
    let d = fixed_decls();
    let of = |v: LitV| {
        let outs = vec![POut::Ex(Ex::Lit(Lit { v, n }))];
        MPlan { version: None, decls: d.clone(), trees: vec![MTree { root: None, rel: over(Op::Project { outs }, plain_read(1)) }] }
    };
    let mut plan = canon_proto(&of(LitV::Bool(true)));
    let Some(p::plan_rel::RelType::Rel(r)) = plan.relations[0].rel_type.as_mut() else { return Ok(()) };
    let Some(p::rel::RelType::Project(pr)) = r.rel_type.as_mut() else { return Ok(()) };
    let Some(p::expression::RexType::Literal(x)) = pr.expressions[0].rex_type.as_mut() else { return Ok(()) };
    x.literal_type = Some(l);
    let (text, errs) = fmt_default(&env.reg, &plan)?;
    env.eval(text.as_bytes(), true);
    env.ev("picoseconds");
    // The nanosecond on either side.
    let near = [value.div_euclid(1000), value / 1000].map(|v| {
        let v = match k {
            0 => LitV::PTs(9, v),
            1 => LitV::PTsTz(9, v),
            _ => LitV::PTime(9, v),
        };
        canon_text(&of(v)).replace("<9>", "<12>")
    });
    if errs.is_empty() {
        return bad("a value finer than its text is not reported", format!("{value}\n{text}"));
    }
    if !near.contains(&text) {
        return bad("a value in picoseconds is written as another time", format!("{value} {errs:?}\n{text}\nwant\n{}", near[0]));
    }
    Ok(())
}
fn first_filter(plan: &p::Plan) -> Option<&p::expression::RexType> {
    let p::plan_rel::RelType::Rel(r) = plan.relations.first()?.rel_type.as_ref()? else { return None };
    let p::rel::RelType::Filter(f) = r.rel_type.as_ref()? else { return None };
    f.condition.as_ref()?.rex_type.as_ref()
}

pub const LIT_SLOTS: [&str; 12] = [
    "Filter[@ => $0]\n  Read[t => a:i64]\n",
    "Project[$0, @]\n  Read[t => a:i64]\n",
    "Project[add($0, @):i64]\n  Read[t => a:i64]\n",
    "Project[(@)::i64]\n  Read[t => a:i64]\n",
    "Project[if_then(@ -> 1, _ -> 2)]\n  Read[t => a:i64]\n",
    "Project[if_then(true -> 1, _ -> @)]\n  Read[t => a:i64]\n",
    "Read:Virtual[(@) => a:i64]\n",
    "Read:Virtual[(1), (@) => a:i64]\n",
    "Sort[(@, &AscNullsFirst) => $0]\n  Read[t => a:i64]\n",
    "Aggregate[@ => @]\n  Read[t => a:i64]\n",
    "Join[&Inner, @ => $0, $1]\n  Read[t => a:i64]\n  Read[u => b:i64]\n",
    "Read:Virtual[(1), filter=@ => a:i64]\n",
];
pub fn lit_slot(k: usize, l: &str) -> String {
    let d = fixed_decls();
    let head = Pr::canon(&d).plan(&MPlan { version: None, decls: d.clone(), trees: vec![] });
    let head = if head.contains("=== Plan") { head } else { format!("{head}\n=== Plan\n") };
    format!("{head}{}", LIT_SLOTS[k].replace('@', l))
}

fn bad_lit(r: &mut Rng) -> String {
    let q = if r.chance(1, 4) { "?" } else { "" };
    let int_of = |r: &mut Rng| -> i128 { *r.pick(&[0i128, 1, 2, 7, 1000, 1 << 20, 1 << 40]) };
    match r.below(18) {
        0..=2 => {
            // integers out of range
            let (t, lo, hi) = *r.pick(&[
                ("i8", -128i128, 127i128),
                ("i16", -32768, 32767),
                ("i32", i32::MIN as i128, i32::MAX as i128),
                ("i64", i64::MIN as i128, i64::MAX as i128),
            ]);
            let v = if r.coin() { hi + 1 + int_of(r) } else { lo - 1 - int_of(r) };
            if t == "i64" && r.coin() { format!("{v}") } else { format!("{v}:{t}{q}") }
        }
        3 => {
            // wrap-around candidates
            let (t, bits) = *r.pick(&[("i8", 8u32), ("i16", 16), ("i32", 32)]);
            let v = (1i128 << bits) * (1 + r.below(3) as i128) + r.range(-100, 100) as i128;
            format!("{v}:{t}{q}")
        }
        4 => format!(
            "{}:{}{q}",
            r.pick(&["5", "0", "-1", "12345"]),
            r.pick(&["fp32", "fp64", "boolean", "string", "date", "time", "timestamp", "binary", "uuid", "timestamp_tz",
                "interval_year", "point", "precisiontime<3>", "precisiontimestamp<6>", "precisiontimestamptz<0>", "interval_day<6>", "list<i64>"])
                .replace('<', &format!("{q}<")).trim_end_matches('?')
        )
        .replace("?<", "?<"),
        5 => format!("{}:{}", r.pick(&["1.5", "0.0", "-2.25"]), r.pick(&["i8", "i16", "i32", "i64", "string", "boolean", "date", "time", "interval_day<6>", "point"])),
        6 => {
            // floats beyond the largest finite value
            let s = if r.coin() { "-" } else { "" };
            if r.coin() {
                format!("{s}{}.0:fp32{q}", "9".repeat(39 + r.below(300)))
            } else {
                format!("{s}{}.5{}", "9".repeat(309 + r.below(50)), if r.coin() { ":fp64" } else { "" })
            }
        }
        7 => format!("{}:{}", r.pick(&["true", "false"]), r.pick(&["i8", "i64", "fp64", "string", "date", "point", "list<boolean>"])),
        8 => format!(
            "'{}':{}",
            r.pick(&["abc", "", "1", "true", "1.5"]),
            r.pick(&["i8", "i64", "fp32", "fp64", "boolean", "binary", "uuid", "interval_year", "timestamp_tz", "point", "list<string>"])
        ),
        9 | 10 => {
            // impossible dates, alone or in a timestamp
            let d = bad_date(r);
            match r.below(4) {
                0 => format!("'{d}':date{q}"),
                1 => format!("'{d}T00:00:00':timestamp{q}"),
                2 => format!("'{d} 12:30:15':precisiontimestamp{q}<{}>", r.pick(&[0, 3, 6, 9])),
                _ => format!("'{d}T23:59:59':precisiontimestamptz{q}<{}>", r.pick(&[0, 3, 6, 9])),
            }
        }
        11 | 12 => {
            let t = bad_time(r);
            match r.below(4) {
                0 => format!("'{t}':time{q}"),
                1 => format!("'2024-02-29T{t}':timestamp{q}"),
                2 => format!("'{t}':precisiontime{q}<{}>", r.pick(&[0, 3, 6, 9])),
                _ => format!("'2024-02-29 {t}':precisiontimestamptz{q}<{}>", r.pick(&[0, 3, 6, 9])),
            }
        }
        13 | 14 => {
            // a fraction finer than the precision
            let p = *r.pick(&[0usize, 3, 6, 9]);
            let extra = 1 + r.below(12 - p);
            let mut f: String = (0..p + extra).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            f.pop();
            f.push((b'1' + r.below(9) as u8) as char);
            match r.below(4) {
                0 => format!("'12:00:00.{f}':precisiontime{q}<{p}>"),
                1 => format!("'1999-12-31T23:59:59.{f}':precisiontimestamp{q}<{p}>"),
                2 => format!("'1969-12-31 23:59:59.{f}':precisiontimestamptz{q}<{p}>"),
                _ => {
                    let f = format!("{:06}{}", r.below(1_000_000), 1 + r.below(9));
                    if r.coin() { format!("'12:00:00.{f}':time{q}") } else { format!("'1969-01-01T00:00:00.{f}':timestamp{q}") }
                }
            }
        }
        15 => {
            // precision no literal can have
            let p = *r.pick(&[1, 2, 4, 5, 7, 8, 10, 11, 12]);
            match r.below(4) {
                0 => format!("'12:00:00':precisiontime{q}<{p}>"),
                1 => format!("'2000-01-01T00:00:00':precisiontimestamp{q}<{p}>"),
                2 => format!("'2000-01-01T00:00:00':precisiontimestamptz{q}<{p}>"),
                _ if p == 12 => format!("'1d':interval_day{q}<13>"),
                _ => format!("'1d':interval_day{q}<{p}>"),
            }
        }
        16 => {
            let y = *r.pick(&["+262143", "+300000", "-262145", "-300000"]);
            match r.below(3) {
                0 => format!("'{y}-01-01':date{q}"),
                1 => format!("'{y}-01-01T00:00:00':precisiontimestamp{q}<6>"),
                // nanoseconds overflow much earlier
                _ => format!("'{}-01-01T00:00:00':precisiontimestamp{q}<9>", r.pick(&["1600", "1677", "2263", "9999"])),
            }
        }
        _ => {
            let (p, u) = *r.pick(&[(0, "ms"), (3, "us"), (6, "ms"), (9, "ps"), (12, "ns"), (0, "ns"), (3, "ns"), (6, "ns")]);
            match r.below(8) {
                0 => format!("'1d 5{u}':interval_day{q}<{p}>"),
                1 => format!("'5s 1d':interval_day{q}<6>"),
                2 => format!("'{}':interval_day{q}<6>", r.pick(&["", " ", "d", "5", "1d  5s", " 1d", "1d ", "1d,5s", "1.5s", "1h", "1d 1d", "5us 5s", "+1d", "1D", "--1d"])),
                3 => format!("'{}d':interval_day{q}<6>", *r.pick(&[2147483648i64, -2147483649, 4294967296, 9999999999])),
                4 => format!("'{}s':interval_day{q}<6>", *r.pick(&[2147483648i64, -2147483649, 4294967296, 9999999999])),
                5 => format!("'{}us':interval_day{q}<6>", *r.pick(&[9223372036854775808i128, -9223372036854775809, 1 << 64, 1 << 70])),
                6 => format!("null{}", r.pick(&["", " ", ":", ":5", ":nosuch?", ":list", ":i64<3>"])),
                _ => format!("'{}':interval_day<6>", r.pick(&["12:00:00", "2020-01-01", "abc"])),
            }
        }
    }
}
fn bad_date(r: &mut Rng) -> String {
    let y = *r.pick(&[1900, 2001, 2023, 2100, 1999]);
    let sep = if r.chance(1, 4) { "/" } else { "-" };
    let (m, d) = match r.below(6) {
        0 => (2, 29),
        1 => (2, 30 + r.below(2)),
        2 => (*r.pick(&[4, 6, 9, 11]), 31),
        3 => (13 + r.below(87), 1 + r.below(28)),
        4 => (1 + r.below(12), 32 + r.below(67)),
        _ => {
            if r.coin() {
                (0, 1 + r.below(28))
            } else {
                (1 + r.below(12), 0)
            }
        }
    };
    match r.below(10) {
        0 => format!("{y}-{m:02}/{d:02}"),
        1 => (*r.pick(&["2020-01", "2020", "01-01", "2020-01-01-01", "2020-01-01x", "x2020-01-01", "2020:01:01", "20-jan-2020", "2020.01.01"])).into(),
        _ => format!("{y}{sep}{m:02}{sep}{d:02}"),
    }
}
fn bad_time(r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!("{}:{:02}:{:02}", 24 + r.below(76), r.below(60), r.below(60)),
        1 => format!("{:02}:{}:{:02}", r.below(24), 60 + r.below(40), r.below(60)),
        2 => format!("{:02}:{:02}:{}", r.below(24), r.below(60), 60 + r.below(40)),
        3 => (*r.pick(&["12", "12:30", "12:30:15x", "12:30:15:00", "noon", "", "-1:00:00", "12-30-15", "12:30:15,5", "12:30:15 PM"])).into(),
        _ => "24:00:00".into(),
    }
}
fn edge_lit(r: &mut Rng) -> (String, Lit) {
    let n = r.coin();
    let q = if n { "?" } else { "" };
    let (t, v) = match r.below(17) {
        14..=16 => {
            // Terms beyond their usual range are kept as they are written.
            let (p, u) = *r.pick(&[(3, "ms"), (6, "us"), (9, "ns"), (12, "ps")]);
            let term = |r: &mut Rng, lo: i64, hi: i64| if r.chance(1, 3) { 0 } else { r.edgy(lo, hi) };
            let days = term(r, i32::MIN as i64, i32::MAX as i64) as i32;
            let secs = if r.coin() { r.range(-5, 5) as i32 } else { term(r, i32::MIN as i64, i32::MAX as i64) as i32 };
            let unit = 10i64.pow(p as u32);
            let sub = match r.below(3) {
                0 => r.range(-3, 3) * unit + r.range(-1, 1),
                1 => term(r, -5 * unit, 5 * unit),
                _ => term(r, i64::MIN, i64::MAX),
            };
            let mut parts = vec![];
            for (n, u) in [(days as i64, "d"), (secs as i64, "s"), (sub, u)] {
                if n != 0 || r.chance(1, 6) {
                    parts.push(format!("{n}{u}"));
                }
            }
            if parts.is_empty() {
                parts.push("0s".into());
            }
            (format!("'{}':interval_day{q}<{p}>", parts.join(" ")), LitV::IvDay { p, days, secs, sub })
        }
        12 => (format!("'12:00:00.0000000010{}':precisiontime{q}<9>", "0".repeat(r.below(4))), LitV::PTime(9, 43_200_000_000_001)),
        13 => (format!("'1970-01-01T00:00:00.5{}':precisiontimestamp{q}<3>", "0".repeat(r.below(14))), LitV::PTs(3, 500)),
        0 => (format!("-128:i8{q}"), LitV::I8(-128)),
        1 => (format!("127:i8{q}"), LitV::I8(127)),
        2 => (format!("-32768:i16{q}"), LitV::I16(-32768)),
        3 => (format!("32767:i16{q}"), LitV::I16(32767)),
        4 => (format!("-2147483648:i32{q}"), LitV::I32(i32::MIN)),
        5 => (format!("2147483647:i32{q}"), LitV::I32(i32::MAX)),
        6 => (format!("-9223372036854775808:i64{q}"), LitV::I64(i64::MIN)),
        7 => (format!("9223372036854775807:i64{q}"), LitV::I64(i64::MAX)),
        8 => (format!("'2024-02-29':date{q}"), LitV::Date(19782)),
        9 => (format!("'23:59:59.999999':time{q}"), LitV::Time(86_399_999_999)),
        10 => (format!("'1969-12-31T23:59:59.999':precisiontimestamp{q}<3>"), LitV::PTs(3, -1)),
        _ => (
            format!("'2147483647d -2147483648s 9223372036854775807us':interval_day{q}<6>"),
            LitV::IvDay { p: 6, days: i32::MAX, secs: i32::MIN, sub: i64::MAX },
        ),
    };
    (t, Lit { v, n })
}

// ---------------------------------------------------------------- types

fn type_plan(d: &Decls, ts: &[Ty]) -> MPlan {
    let ty = |k: usize| ts[k % ts.len()].clone();
    let cols: Cols = (0..ts.len()).map(|i| (format!("c{i}"), ty(i))).collect();
    let f = d.funcs[0].anchor;
    let null = |k: usize| {
        let mut t = ty(k);
        t.n = true;
        Ex::Lit(Lit { v: LitV::Null(t), n: false })
    };
    let read = MRel::leafish(Op::Read { table: vec!["t".into()], cols: cols.clone(), emit: None });
    let virt = MRel::leafish(Op::Virt { rows: vec![(0..ts.len()).map(null).collect()], cols: cols.clone(), filter: None });
    let rext = MRel::leafish(Op::RExt {
        cols: cols.clone(),
        inv: Inv { which: 0, pos: vec![Arg::Ex(Ex::Call(f, vec![], ty(1)))], named: vec![], cols: vec![] },
    });
    let ecols = (0..ts.len()).map(|k| ECol::Named(format!("c{k}"), ty(k))).collect();
    let ext = MRel {
        op: Op::Ext { kind: 2, inv: Inv { which: 0, pos: vec![], named: vec![], cols: ecols } },
        kids: vec![read, virt, rext],
        enh: None,
        opts: vec![],
    };
    let mut outs = vec![];
    for k in 0..ts.len() {
        outs.push(POut::Ex(Ex::Call(f, vec![Ex::Ref(0)], ty(k))));
        outs.push(POut::Ex(Ex::Cast(Box::new(Ex::Ref(0)), ty(k), (k % 3) as u8)));
        outs.push(POut::Ex(null(k)));
        outs.push(POut::Ex(Ex::Cast(Box::new(null(k)), Ty { k: TyK::List(Box::new(ty(k))), n: k % 2 == 0 }, 0)));
    }
    let rel = over(
        Op::Agg { g: vec![], sets: vec![vec![]], outs: vec![AOut::M(Ex::Call(f, vec![null(0)], ty(0)))] },
        over(Op::Project { outs }, ext),
    );
    MPlan { version: None, decls: d.clone(), trees: vec![MTree { root: None, rel }] }
}

const TYPE_SLOTS: [&str; 10] = [
    "Read[t => a:@]\n",
    "Read[t => b:i64, a:@]\n",
    "Read:Virtual[_ => a:@]\n",
    "Project[add($0):@]\n  Read[t => a:i64]\n",
    "Project[($0)::@]\n  Read[t => a:i64]\n",
    "Project[null:@]\n  Read[t => a:i64]\n",
    "Read[t => a:list<@>]\n",
    "Read[t => a:point<i64, @>]\n",
    "Aggregate[_ => add($0):@]\n  Read[t => a:i64]\n",
    "Read[t +> a:@ |> $0]\n",
];
fn type_slot(k: usize, t: &str) -> String {
    lit_slot(0, "1").split("=== Plan\n").next().unwrap().to_string() + "=== Plan\n" + &TYPE_SLOTS[k].replace('@', t)
}
fn bad_type(r: &mut Rng) -> String {
    let q = if r.chance(1, 3) { "?" } else { "" };
    let good = *r.pick(&["i64", "string?", "date", "point"]);
    match r.below(10) {
        0 => format!("map{q}<{good}, {good}>"),
        1 => format!("struct{q}<{good}>"),
        2 => format!(
            "{}{q}<{}>",
            r.pick(&["precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day", "PrecisionTime"]),
            r.pick(&["13", "-1", "100", "4294967302", "99999999999999999999", "-99999999999999999999", "i64", "", "6, 6", "6.0", "x"])
        ),
        3 => format!(
            "{}{q}",
            r.pick(&["nosuch", "i65", "int", "bool", "I64", "String", "varchar", "Point", "points", "i8_", "decimal", "i64x", "dat", "dates", "DATE", "timestamp_t", "uuids"])
        ),
        4 => format!("{}{q}<{}>", r.pick(&["decimal", "varchar", "fixedchar", "fixedbinary", "interval_compound", "nosuch"]), r.pick(&["10", "10, 2", "i64"])),
        5 => format!("point{q}<{}>", r.pick(&["5", "i64, 5", "-1", "\"x\"", "nosuch", "i64, nosuch"])),
        6 => format!("list{q}{}", r.pick(&["", "<>", "<i64, i64>", "<5>", "<nosuch>", "<list>", "<i64", "i64>"])),
        7 => format!("{}{q}<{}>", r.pick(&["i64", "string", "boolean", "date", "uuid", "fp64"]), r.pick(&["", "i64", "3"])),
        8 => format!("{good}{}", r.pick(&["??", "?!", "!", "*", "[]", "?<", "-"])),
        _ => format!("{}{q}", r.pick(&["point#2", "nosuch#1", "u!nosuch", "point#", "i64#1", "u!i64#9", "5", "", "'i64'", "\"i64\"", "point#4294967296", "point#-1"])),
    }
}

/// A random type with its documented text, including kinds the parser does not support.
fn wide_type(g: &mut Gen, depth: usize) -> (p::Type, String) {
    use p::r#type as ty;
    use p::r#type::Kind as K;
    let n = g.r.coin();
    let nullability = if n { ty::Nullability::Nullable } else { ty::Nullability::Required } as i32;
    let q = if n { "?" } else { "" };
    let tv = 0;
    let (k, t) = match g.r.below(if depth == 0 { 8 } else { 12 }) {
        0 => {
            let (precision, scale) = (g.r.edgy(0, 38) as i32, g.r.edgy(-2, 38) as i32);
            (K::Decimal(ty::Decimal { precision, scale, nullability, type_variation_reference: tv }), format!("decimal{q}<{precision}, {scale}>"))
        }
        1 => {
            let length = g.r.edgy(0, i32::MAX as i64) as i32;
            (K::Varchar(ty::VarChar { length, nullability, type_variation_reference: tv }), format!("varchar{q}<{length}>"))
        }
        2 => {
            let length = g.r.edgy(0, i32::MAX as i64) as i32;
            (K::FixedChar(ty::FixedChar { length, nullability, type_variation_reference: tv }), format!("fixedchar{q}<{length}>"))
        }
        3 => {
            let length = g.r.edgy(0, i32::MAX as i64) as i32;
            (K::FixedBinary(ty::FixedBinary { length, nullability, type_variation_reference: tv }), format!("fixedbinary{q}<{length}>"))
        }
        4 => {
            let precision = g.r.range(0, 12) as i32;
            (K::IntervalCompound(ty::IntervalCompound { precision, nullability, type_variation_reference: tv }), format!("interval_compound{q}<{precision}>"))
        }
        5..=7 => {
            let t = g.ty(0);
            let text = Pr::canon(&g.d).ty(&t);
            return (Enc::canon().ty(&t), text);
        }
        8 => {
            let (a, at) = wide_type(g, depth - 1);
            let (b, bt) = wide_type(g, depth - 1);
            (
                K::Map(Box::new(ty::Map { key: Some(Box::new(a)), value: Some(Box::new(b)), nullability, type_variation_reference: tv })),
                format!("map{q}<{at}, {bt}>"),
            )
        }
        9 => {
            let xs: Vec<_> = (0..1 + g.r.below(3)).map(|_| wide_type(g, depth - 1)).collect();
            let texts: Vec<String> = xs.iter().map(|x| x.1.clone()).collect();
            (
                K::Struct(ty::Struct { types: xs.into_iter().map(|x| x.0).collect(), nullability, type_variation_reference: tv }),
                format!("struct{q}<{}>", texts.join(", ")),
            )
        }
        10 => {
            let (a, at) = wide_type(g, depth - 1);
            (K::List(Box::new(ty::List { r#type: Some(Box::new(a)), nullability, type_variation_reference: tv })), format!("list{q}<{at}>"))
        }
        _ => {
            if g.d.types.is_empty() {
                return wide_type(g, 0);
            }
            let a = g.r.pick(&g.d.types).anchor;
            let xs: Vec<_> = (0..1 + g.r.below(2)).map(|_| wide_type(g, depth - 1)).collect();
            let texts: Vec<String> = xs.iter().map(|x| x.1.clone()).collect();
            let head = Pr::canon(&g.d).type_ref(a);
            (
                K::UserDefined(ty::UserDefined {
                    type_reference: a,
                    type_variation_reference: 0,
                    nullability,
                    type_parameters: xs
                        .into_iter()
                        .map(|x| ty::Parameter { parameter: Some(ty::parameter::Parameter::DataType(x.0)) })
                        .collect(),
                }),
                format!("{head}{q}<{}>", texts.join(", ")),
            )
        }
    };
    (p::Type { kind: Some(k) }, t)
}

fn c08(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let mut g = Gen::new(rng.fork(), Cfg::default());
    g.decls();
    let ts: Vec<Ty> = (0..3)
        .map(|k| match k {
            0 => {
                let j = (i as usize / 2) % (15 + 4 * 13);
                let k = match j {
                    0..=14 => TyK::Simple(j),
                    _ => match (j - 15) % 4 {
                        0 => TyK::PTs((j as i32 - 15) / 4),
                        1 => TyK::PTsTz((j as i32 - 15) / 4),
                        2 => TyK::PTime((j as i32 - 15) / 4),
                        _ => TyK::IvDay((j as i32 - 15) / 4),
                    },
                };
                Ty { k, n: i % 2 == 0 }
            }
            _ => g.ty(4),
        })
        .collect();
    let m = type_plan(&g.d, &ts);
    let (want, text) = (canon_proto(&m), canon_text(&m));
    for t in &ts {
        let s = Pr::canon(&g.d).ty(t);
        env.eval(s.as_bytes(), true);
        env.ev(match t.k {
            TyK::Simple(_) => "simple type",
            TyK::List(_) => "list type",
            TyK::User(..) => "user-defined type",
            _ => "precision type",
        });
    }
    env.sample(|| text.clone());
    expect_text(env, &want, &text)?;
    expect_parse(env, &text, &want)?;
    expect_text(env, &Enc::vary(rng.fork()).plan(&m), &text)?;
    let styled = Pr::styled(&m.decls, rng.fork()).plan(&m);
    expect_parse(env, &styled, &want)?;
    // Types that must be rejected.
    must_parse(&env.reg, &type_slot(i as usize % TYPE_SLOTS.len(), "i64"))?;
    for _ in 0..4 {
        let b = bad_type(&mut rng);
        let slot = rng.below(TYPE_SLOTS.len());
        let t = type_slot(slot, &b);
        env.eval(t.as_bytes(), true);
        env.ev("type that must be rejected");
        if let Ok(p) = try_parse(&env.reg, &t)? {
            return bad("an invalid type was accepted", format!("{b}\n--- text\n{t}\n--- plan\n{p:?}"));
        }
    }
    unspecified(env, &mut g)?;
    // Types outside the parsed set: their documented form, or a report.
    let (t, want) = wide_type(&mut g, 2);
    let base = MPlan {
        version: None,
        decls: g.d.clone(),
        trees: vec![MTree { root: None, rel: over(Op::Project { outs: vec![POut::Ex(Ex::Cast(Box::new(lit_i(1)), i64t(), 0))] }, plain_read(2)) }],
    };
    let mut plan = canon_proto(&base);
    set_types(&mut plan, &t);
    let (text, errs) = fmt_default(&env.reg, &plan)?;
    let want_text = canon_text(&base).replace("c1:i64", &format!("c1:{want}")).replace("::i64", &format!("::{want}"));
    env.eval(want.as_bytes(), true);
    env.ev("type of any kind rendered");
    if text == want_text && errs.is_empty() {
        return Ok(());
    }
    if !errs.is_empty() && super::fuzz::tokens_outside(&text) > 0 {
        return Ok(());
    }
    bad("a type is neither rendered in its documented form nor reported", format!("{}\n{errs:?}", text_diff(&text, &want_text)))
}
/// Unspecified nullability, at any depth of a type, is written as its own mark and reported, and the
/// mark is read back.
fn unspecified(env: &mut Env, g: &mut Gen) -> Res {
    fn clear(t: &mut Ty) {
        t.n = false;
        match &mut t.k {
            TyK::List(e) => clear(e),
            TyK::User(_, v) => v.iter_mut().for_each(clear),
            _ => {}
        }
    }
    fn one<'a>(t: &'a mut Ty, r: &mut Rng) -> &'a mut Ty {
        if r.coin() {
            return t;
        }
        // (checked first so that the borrow ends)
        let deeper = matches!(&t.k, TyK::List(_)) || matches!(&t.k, TyK::User(_, v) if !v.is_empty());
        if !deeper {
            return t;
        }
        match &mut t.k {
            TyK::List(e) => one(e, r),
            TyK::User(_, v) => {
                let i = r.below(v.len());
                one(&mut v[i], r)
            }
            _ => unreachable!(),
        }
    }
    let mut t = g.ty(3);
    clear(&mut t);
    one(&mut t, &mut g.r).n = true;
    let mark = Pr::canon(&g.d).ty(&t).replace('?', "⁉");
    let mut pt = Enc::canon().ty(&t);
    set_unspecified(&mut pt);
    let base = MPlan {
        version: None,
        decls: g.d.clone(),
        trees: vec![MTree { root: None, rel: over(Op::Project { outs: vec![POut::Ex(Ex::Cast(Box::new(lit_i(1)), i64t(), 0))] }, plain_read(2)) }],
    };
    let mut plan = canon_proto(&base);
    set_types(&mut plan, &pt);
    let want = canon_text(&base).replace("c1:i64", &format!("c1:{mark}")).replace("::i64", &format!("::{mark}"));
    env.eval(mark.as_bytes(), true);
    env.ev("unspecified nullability");
    let (text, errs) = fmt_default(&env.reg, &plan)?;
    if text != want {
        return bad("unspecified nullability is rendered differently", format!("{}\n--- got\n{text}", text_diff(&text, &want)));
    }
    if errs.len() != 2 {
        return bad("unspecified nullability is not reported once per place", format!("{errs:?}\n--- text\n{text}"));
    }
    expect_parse(env, &text, &plan)
}
/// Turn every nullable part of a type into one that does not say.
fn set_unspecified(t: &mut p::Type) {
    use p::r#type::Kind as K;
    macro_rules! go {
        ($($k:ident),*) => {
            match t.kind.as_mut() {
                $(Some(K::$k(x)) => if x.nullability == 1 { x.nullability = 0 },)*
                Some(K::List(x)) => {
                    if x.nullability == 1 { x.nullability = 0 }
                    if let Some(e) = x.r#type.as_mut() { set_unspecified(e) }
                }
                Some(K::UserDefined(x)) => {
                    if x.nullability == 1 { x.nullability = 0 }
                    for q in &mut x.type_parameters {
                        if let Some(p::r#type::parameter::Parameter::DataType(e)) = q.parameter.as_mut() { set_unspecified(e) }
                    }
                }
                _ => {}
            }
        };
    }
    go!(Bool, I8, I16, I32, I64, Fp32, Fp64, String, Binary, Date, Time, Timestamp, TimestampTz, IntervalYear, IntervalDay, Uuid,
        PrecisionTime, PrecisionTimestamp, PrecisionTimestampTz);
}
/// Put a type into the second table column and the cast of the base plan above.
fn set_types(plan: &mut p::Plan, t: &p::Type) {
    let Some(p::plan_rel::RelType::Rel(r)) = plan.relations[0].rel_type.as_mut() else { return };
    let Some(p::rel::RelType::Project(pr)) = r.rel_type.as_mut() else { return };
    if let Some(p::expression::RexType::Cast(c)) = pr.expressions[0].rex_type.as_mut() {
        c.r#type = Some(t.clone());
    }
    if let Some(p::rel::RelType::Read(rd)) = pr.input.as_mut().and_then(|i| i.rel_type.as_mut()) {
        rd.base_schema.as_mut().unwrap().r#struct.as_mut().unwrap().types[1] = t.clone();
    }
}

// ---------------------------------------------------------------- references

/// Which function a written name and anchor denote.
fn resolve_fn(d: &Decls, name: &str, anchor: Option<u32>) -> Option<u32> {
    let fits = |n: &str| if name.contains(':') { n == name } else { base_of(n) == name };
    let hits: Vec<u32> =
        d.funcs.iter().filter(|f| fits(&f.name) && anchor.is_none_or(|a| a == f.anchor)).map(|f| f.anchor).collect();
    if hits.len() == 1 { Some(hits[0]) } else { None }
}
fn resolve_ty(d: &Decls, name: &str, anchor: Option<u32>) -> Option<u32> {
    let hits: Vec<u32> =
        d.types.iter().filter(|f| f.name == name && anchor.is_none_or(|a| a == f.anchor)).map(|f| f.anchor).collect();
    if hits.len() == 1 { Some(hits[0]) } else { None }
}

fn colliding(g: &mut Gen) {
    let bases = ["add", "f", "equal", "Add"];
    let sigs = ["", ":", ":i64", ":i64_i64", ":any", ":i64_any"];
    let tnames = ["json", "Json", "point", "add"];
    let mut d = Decls::default();
    for k in 0..1 + g.r.below(3) {
        d.urns.push((k as u32 * 7 + 1, if g.r.coin() { "urn:same".into() } else { format!("urn:{k}") }));
    }
    for k in 0..3 {
        for _ in 0..g.r.below(if k == 2 { 3 } else { 8 }) {
            let anchor = if g.r.chance(1, 5) { genr::anchor(&mut g.r) } else { g.r.below(12) as u32 };
            let urn = g.r.pick(&d.urns).0;
            let name = match k {
                0 => format!("{}{}", g.r.pick(&bases), g.r.pick(&sigs)),
                1 => g.r.pick(&tnames).to_string(),
                _ => g.r.pick(&["v", "json"]).to_string(),
            };
            let v = [&mut d.funcs, &mut d.types, &mut d.tvars];
            let v = v.into_iter().nth(k).unwrap();
            if v.iter().all(|x| x.anchor != anchor) {
                v.push(Decl { anchor, urn, name });
            }
        }
    }
    if d.funcs.is_empty() {
        d.funcs.push(Decl { anchor: 3, urn: 1, name: "add:i64".into() });
    }
    d.sort();
    g.d = d;
}

fn c09(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let mut g = Gen::new(rng.fork(), Cfg::default());
    if i % 4 == 0 { g.decls() } else { colliding(&mut g) }
    let d = g.d.clone();
    let head = format!("{}\n=== Plan\n", ext_head(&d));
    let key = format!("{d:?}");

    // Every declaration, through the canonical rendering.
    let outs: Vec<POut> = d
        .funcs
        .iter()
        .map(|f| POut::Ex(Ex::Call(f.anchor, vec![Ex::Ref(0)], i64t())))
        .chain(d.types.iter().map(|t| POut::Ex(Ex::Cast(Box::new(Ex::Ref(0)), Ty { k: TyK::User(t.anchor, vec![]), n: false }, 0))))
        .collect();
    let m = MPlan {
        version: None,
        decls: d.clone(),
        trees: vec![MTree { root: None, rel: over(Op::Project { outs: outs.clone() }, plain_read(1)) }],
    };
    let want = canon_proto(&m);
    let (text, errs) = fmt_default(&env.reg, &want)?;
    if !errs.is_empty() {
        return bad("declared references reported", format!("{errs:?}\n{text}"));
    }
    env.eval(text.as_bytes(), true);
    env.sample(|| text.clone());
    expect_parse(env, &text, &want)?;
    // Minimal: the printed reference is the shortest that resolves.
    let line = text.lines().find(|l| l.starts_with("Project[")).unwrap_or("");
    let mut shown = vec![];
    for f in &d.funcs {
        let b = base_of(&f.name);
        let r = if resolve_fn(&d, b, None) == Some(f.anchor) {
            b.to_string()
        } else if f.name.contains(':') && resolve_fn(&d, &f.name, None) == Some(f.anchor) {
            f.name.clone()
        } else {
            format!("{}#{}", f.name, f.anchor)
        };
        shown.push(format!("{r}($0):i64"));
    }
    for t in &d.types {
        let r = if resolve_ty(&d, &t.name, None) == Some(t.anchor) { t.name.clone() } else { format!("{}#{}", t.name, t.anchor) };
        let u = if genr::built_in(&t.name) { "u!" } else { "" };
        shown.push(format!("($0)::{u}{r}"));
    }
    let want_line = format!("Project[{}]", shown.join(", "));
    if line != want_line {
        return bad("references are not printed as short as they can be", format!("got  {line}\nwant {want_line}\n{text}"));
    }

    // Random written references.
    let bases = ["add", "f", "equal", "Add", "sum", "nosuch", "json"];
    let sigs = ["", "", ":", ":i64", ":i64_i64", ":any", ":i64_any", ":str"];
    let tnames = ["json", "Json", "point", "add", "nosuch", "geo_point"];
    for _ in 0..8 {
        let is_fn = rng.chance(3, 5);
        let decl = |r: &mut Rng, v: &[Decl]| if v.is_empty() { None } else { Some(r.pick(v).clone()) };
        let picked = if is_fn { decl(&mut rng, &d.funcs) } else { decl(&mut rng, &d.types) };
        let name = match &picked {
            Some(p) if rng.chance(3, 5) => {
                if rng.coin() { p.name.clone() } else { base_of(&p.name).to_string() }
            }
            _ if is_fn => format!("{}{}", rng.pick(&bases), rng.pick(&sigs)),
            _ => rng.pick(&tnames).to_string(),
        };
        let anchor = match rng.below(4) {
            0 | 1 => None,
            2 => picked.as_ref().map(|p| p.anchor),
            _ => Some(genr::anchor(&mut rng)),
        };
        let want = if is_fn { resolve_fn(&d, &name, anchor) } else { resolve_ty(&d, &name, anchor) };
        let prefix = if !is_fn && (genr::built_in(&name) || rng.chance(1, 4)) { "u!" } else { "" };
        let mut r = format!("{prefix}{name}");
        if let Some(a) = anchor {
            r.push_str(&format!("#{a}"));
        }
        if let (Some(a), true) = (want, rng.chance(1, 4)) {
            let u = if is_fn { d.func(a) } else { d.typ(a) }.unwrap().urn;
            r.push_str(&format!("@{u}"));
        }
        let item = if is_fn { format!("{r}($0):i64") } else { format!("($0)::{r}") };
        let t = format!("{head}Project[{item}]\n  Read[t => a:i64]\n");
        env.eval(format!("{key}{r}").as_bytes(), true);
        let got = try_parse(&env.reg, &t)?;
        match (want, got) {
            (None, Err(_)) => env.ev("reference rejected"),
            (Some(a), Ok(p)) => {
                let got = used_anchor(&p);
                if got != Some((is_fn, a)) {
                    return bad("a reference resolved to another declaration", format!("{r}: got {got:?}, want {a}\n{t}"));
                }
                env.ev("reference resolved");
            }
            (None, Ok(p)) => {
                return bad("an unresolvable reference was accepted", format!("{r}: {:?}\n{t}", used_anchor(&p)));
            }
            (Some(a), Err(e)) => return bad("a resolvable reference was rejected", format!("{r} should be {a}: {e}\n{t}")),
        }
    }

    // Undeclared anchors are reported, one by one, and change nothing else.
    let a = loop {
        let a = genr::anchor(&mut rng);
        if d.funcs.iter().chain(&d.types).all(|f| f.anchor != a) {
            break a;
        }
    };
    let mut plan = want.clone();
    let k = rng.below(outs.len());
    break_anchor(&mut plan, k, a);
    let (t2, e2) = fmt_default(&env.reg, &plan)?;
    env.eval(t2.as_bytes(), true);
    env.ev("undeclared anchor");
    let cut = |s: &str| -> Vec<String> {
        let mut v: Vec<String> = s.lines().map(String::from).collect();
        for l in v.iter_mut().filter(|l| l.starts_with("Project[")) {
            let mut items: Vec<&str> = l.split(", ").collect();
            if k < items.len() {
                items[k] = "";
            }
            *l = items.join(", ");
        }
        v
    };
    if e2.is_empty() || super::fuzz::tokens_outside(&t2) == 0 {
        return bad("an undeclared anchor was not reported", format!("anchor {a}: {e2:?}\n{t2}"));
    }
    if cut(&t2) != cut(&text) {
        return bad("an undeclared anchor changed the rest of the text", text_diff(&t2, &text));
    }

    // The same rules through the public lookup tables.
    tables(env, &d, &want, &mut rng)
}
fn ext_head(d: &Decls) -> String {
    let t = Pr::canon(d).plan(&MPlan {
        version: None,
        decls: d.clone(),
        trees: vec![MTree { root: None, rel: plain_read(1) }],
    });
    let head = &t[..t.len() - super::plan_part(&t).len()];
    head.strip_suffix("=== Plan\n").unwrap_or(head).trim_end_matches('\n').to_string() + "\n"
}
fn used_anchor(plan: &p::Plan) -> Option<(bool, u32)> {
    let p::plan_rel::RelType::Rel(r) = plan.relations.first()?.rel_type.as_ref()? else { return None };
    let p::rel::RelType::Project(pr) = r.rel_type.as_ref()? else { return None };
    match pr.expressions.first()?.rex_type.as_ref()? {
        p::expression::RexType::ScalarFunction(f) => Some((true, f.function_reference)),
        p::expression::RexType::Cast(c) => match c.r#type.as_ref()?.kind.as_ref()? {
            p::r#type::Kind::UserDefined(u) => Some((false, u.type_reference)),
            _ => None,
        },
        _ => None,
    }
}
fn break_anchor(plan: &mut p::Plan, k: usize, a: u32) {
    let Some(p::plan_rel::RelType::Rel(r)) = plan.relations[0].rel_type.as_mut() else { return };
    let Some(p::rel::RelType::Project(pr)) = r.rel_type.as_mut() else { return };
    match pr.expressions[k].rex_type.as_mut() {
        Some(p::expression::RexType::ScalarFunction(f)) => f.function_reference = a,
        Some(p::expression::RexType::Cast(c)) => {
            if let Some(p::r#type::Kind::UserDefined(u)) = c.r#type.as_mut().and_then(|t| t.kind.as_mut()) {
                u.type_reference = a;
            }
        }
        _ => {}
    }
}
fn tables(env: &mut Env, d: &Decls, plan: &p::Plan, rng: &mut Rng) -> Res {
    let r = guard(|| SimpleExtensions::from_extensions(&plan.extension_urns, &plan.extensions));
    let (x, errs) = match r {
        Ok(v) => v,
        Err(m) => return bad("panic", m),
    };
    if !errs.is_empty() {
        return bad("valid declarations reported", format!("{errs:?}"));
    }
    for _ in 0..6 {
        let f = rng.pick(&d.funcs).clone();
        let name = match rng.below(3) {
            0 => f.name.clone(),
            1 => base_of(&f.name).to_string(),
            _ => format!("{}:i64", base_of(&f.name)),
        };
        let anchor = match rng.below(3) {
            0 => Some(f.anchor),
            1 => Some(genr::anchor(rng)),
            _ => None,
        };
        let want = resolve_fn(d, &name, anchor);
        let got = x.resolve_function(&name, anchor).ok().map(|r| r.anchor);
        env.evals += 1;
        if got != want {
            return bad("resolve_function", format!("{name} {anchor:?}: got {got:?}, want {want:?}\n{d:?}"));
        }
        let l = x.lookup_function(f.anchor);
        let want = (d.full_count(&f.name) == 1, d.base_count(base_of(&f.name)) == 1, f.urn);
        let got = l.as_ref().ok().map(|l| (l.name_unique, l.base_name_unique, l.urn));
        if got != Some(want) || l.ok().map(|l| l.name.full().to_string()) != Some(f.name.clone()) {
            return bad("lookup_function", format!("{f:?}: got {got:?}, want {want:?}\n{d:?}"));
        }
        for (kind, v) in [(ExtensionKind::Function, &d.funcs), (ExtensionKind::Type, &d.types), (ExtensionKind::TypeVariation, &d.tvars)] {
            let hits: Vec<&Decl> = v.iter().filter(|x| x.name == name).collect();
            let want = if hits.len() == 1 { Some(hits[0].anchor) } else { None };
            if x.find_by_name(kind, &name).ok() != want {
                return bad("find_by_name", format!("{kind} {name}: want {want:?}\n{d:?}"));
            }
            let a = anchor.unwrap_or(f.anchor);
            let want = v.iter().find(|x| x.anchor == a).map(|x| (x.urn, x.name.clone()));
            let got = x.find_by_anchor(kind, a).ok().map(|(u, n)| (u, n.full().to_string()));
            if got != want {
                return bad("find_by_anchor", format!("{kind} {a}: got {got:?}, want {want:?}\n{d:?}"));
            }
        }
    }
    Ok(())
}
