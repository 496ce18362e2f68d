//! What a text means (C21): the parser against an independent reader of the text format, on texts
//! that nobody wrote on purpose.
use super::*;
use crate::mutate;
use crate::refp::{self, Out};

pub static PROPS: &[Prop] = &[Prop {
    id: "C21",
    rule: "random valid plan texts in any spelling, and copies of them damaged by token, character and line edits, odd literals and splices of two plans, each read by the parser and by an independent reference reader: what the reference reads, the parser must read as the same plan, and what the reference refuses, the parser must refuse; texts the documentation leaves open are counted and not judged. Distinct by text",
    quick: 25_000,
    thorough: 1_200_000,
    case_cpu: 20.0,
    assume: &["bracket nesting is bounded by 10"],
    run: c21,
}];

fn judge(env: &mut Env, t: &str) -> Res {
    if super::fuzz::depth(t) > 40 {
        env.ev("skipped: nested too deep");
        return Ok(());
    }
    env.eval(t.as_bytes(), !t.trim().is_empty());
    let r = refp::read(t);
    let got = try_parse(&env.reg, t)?;
    match (r, got) {
        (Out::Unknown(u), _) => env.ev(&format!("left open: {u}")),
        (Out::Reject(r), Err(_)) => {
            env.ev(&format!("refused: {}", r.split(": ").next().unwrap_or("")));
        }
        (Out::Reject(r), Ok(p)) => {
            return bad("a text that breaks the rules is accepted", format!("rule: {r}\n--- input\n{t}\n--- plan\n{p:?}"));
        }
        (Out::Plan(_), Err(e)) => {
            return bad("a text within the rules is rejected", format!("{e}\n--- input\n{t}"));
        }
        (Out::Plan(m), Ok(p)) => {
            let want = canon_proto(&m);
            if !same(&p, &want) {
                return bad("the text parses to another plan", format!("{}\n--- input\n{t}", plan_diff(&p, &want)));
            }
            env.ev("read alike");
        }
    }
    Ok(())
}

fn c21(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (mut g, m) = plan_of(&mut rng, Cfg { max_rels: 4, ..Default::default() });
    let text = if i % 3 == 0 { canon_text(&m) } else { Pr::styled(&m.decls, g.r.fork()).plan(&m) };
    // The reference itself is checked on what is known to be valid.
    match refp::read(&text) {
        Out::Plan(x) if same(&canon_proto(&x), &canon_proto(&m)) => env.ev("reference agrees with the generator"),
        Out::Unknown(u) => env.ev(&format!("generated text left open: {u}")),
        Out::Plan(x) => panic!("reference misread\n{}\n{text}", plan_diff(&canon_proto(&x), &canon_proto(&m))),
        Out::Reject(r) => panic!("reference refused {r}\n{text}"),
    }
    judge(env, &text)?;
    for k in 0..6 {
        let mut t = mutate::tokens(&text, &mut rng);
        if k == 0 {
            t = mutate::lines(&t, &mut rng);
        }
        env.sample(|| t.clone());
        judge(env, &t)?;
    }
    for _ in 0..8 {
        let t = mutate::classy(&text, &mut rng);
        env.ev("edits within the syntax");
        judge(env, &t)?;
    }
    for _ in 0..3 {
        judge(env, &mutate::lines(&text, &mut rng))?;
        judge(env, &mutate::chars(&text, &mut rng))?;
    }
    let l = mutate::odd_lit(&mut rng);
    judge(env, &format!("=== Plan\nProject[{l}]\n  Read[t => a:i64]\n"))?;
    judge(env, &format!("=== Plan\nExtensionLeaf:ScanX[{l}, x={l}, y=({l}, {l}) => a:i64]\n"))?;
    // A line of another plan in the middle of this one.
    let (mut g2, m2) = plan_of(&mut rng, Cfg { max_rels: 4, ..Default::default() });
    let other = Pr::styled(&m2.decls, g2.r.fork()).plan(&m2);
    let (a, b): (Vec<&str>, Vec<&str>) = (text.split('\n').collect(), other.split('\n').collect());
    let mut v = a.clone();
    let at = rng.below(v.len());
    let x = *rng.pick(&b);
    if rng.coin() {
        v[at] = x;
    } else {
        v.insert(at, x);
    }
    judge(env, &v.join("\n"))
}
