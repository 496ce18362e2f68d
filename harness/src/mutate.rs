//! Text mutations: token edits, line edits and raw byte edits of valid plans, and token soups.
use crate::genr;
use crate::rng::Rng;

const TOKENS: [&str; 96] = [
    "[", "]", "(", ")", ",", " ", ":", "::", "::?", "::!", "=>", "+>", "|>", "=", "->", "_", "$0", "$1", "$2", "$99", "$-1",
    "$99999999999", "#", "@", "#1", "@1", "#0", "#99999999999", "@-1", "&Inner", "&Left", "&LeftSemi", "&AscNullsFirst",
    "&UnionAll", "&x", "&", "null", "true", "false", "null:i64?", "1", "-1", "0", "1.5", "-0.0", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "1e5", "1.", ".5", "'", "\"", "''", "\"\"", "'a'", "\"a b\"", "'\\n'",
    "'\\u{41}'", "'\\u{110000}'", "'\\", "i64", "i64?", "i8", "boolean", "string?", "date", "list<i64>", "list<", "map<i64, i64>",
    "struct<i64>", "precisiontimestamp<6>", "precisiontime<99>", "interval_day<6>", ">", "<", "?", "⁉", "u!", "Read", "Read:Virtual[",
    "Filter", "Project", "Aggregate", "Sort", "Fetch", "Join", "Set", "Cross", "Root", "ExtensionLeaf:ScanX[", "+ Enh:ScanX[_]",
    "if_then(", "filter=", "limit=1", "post_filter=",
];
const LINES: [&str; 28] = [
    "", " ", "=== Plan", "=== Extensions", "=== Version 1.2.3", "===", "=== Foo", "URNs:", "Functions:", "Types:", "Type Variations:",
    "  @  1: /urn", "  #  1 @  1: add", "  # 99 @ 99: nope", "Read[t => a:i64]", "  Read[t => a:i64]", "Project[$0]", "Root[a]",
    "  + Enh:ScanX[_]", "  + Opt:ScanX[1]", "  + Ext:ScanX[_]", "  - (1)", "    - => a:i64]", "Read:Virtual[", "Read:Virtual[(1) => a:i64]",
    "  producer: x", "  git_hash: y", "ExtensionLeaf:ScanX[_ => a:i64]",
];

/// Split into tokens: identifiers, numbers, strings, blanks and single characters.
pub fn lex(s: &str) -> Vec<&str> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut v = vec![];
    let mut i = 0;
    let end = |k: usize| if k < b.len() { b[k].0 } else { s.len() };
    while i < b.len() {
        let c = b[i].1;
        let mut j = i + 1;
        if c.is_alphanumeric() || c == '_' {
            while j < b.len() && (b[j].1.is_alphanumeric() || b[j].1 == '_') {
                j += 1;
            }
        } else if c == '\'' || c == '"' {
            while j < b.len() && b[j].1 != c && b[j].1 != '\n' {
                j += if b[j].1 == '\\' { 2 } else { 1 };
            }
            j = (j + 1).min(b.len());
        } else if c == ' ' {
            while j < b.len() && b[j].1 == ' ' {
                j += 1;
            }
        }
        v.push(&s[b[i].0..end(j)]);
        i = j;
    }
    v
}

/// A few token edits.
pub fn tokens(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<String> = lex(s).into_iter().map(String::from).collect();
    let n = 1 + r.below(3);
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(9) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => {
                let j = r.below(v.len());
                v[i] = v[j].clone();
            }
            4 => v.insert(i, r.pick::<&str>(&TOKENS).to_string()),
            5 | 6 => v[i] = r.pick::<&str>(&TOKENS).to_string(),
            7 => {
                // number edit
                let nums: Vec<usize> = (0..v.len()).filter(|&k| v[k].starts_with(|c: char| c.is_ascii_digit())).collect();
                if !nums.is_empty() {
                    let k = *r.pick(&nums);
                    v[k] = match r.below(5) {
                        0 => "0".into(),
                        1 => r.edgy(i64::MIN, i64::MAX).to_string(),
                        2 => format!("{}{}", v[k], v[k]),
                        3 => r.below(16).to_string(),
                        _ => "18446744073709551616".into(),
                    };
                }
            }
            _ => v[i] = genr::any_string(r),
        }
    }
    v.concat()
}
/// Edits inside the plan section that mostly keep the syntax: one token for another of its class
/// taken from the same text, a nullability mark, a number, a dropped or doubled list element.
pub fn classy(s: &str, r: &mut Rng) -> String {
    let Some(cut) = s.find("=== Plan\n") else { return tokens(s, r) };
    let (head, body) = s.split_at(cut + 9);
    let mut v: Vec<String> = lex(body).into_iter().map(String::from).collect();
    let all: Vec<String> = lex(s).into_iter().map(String::from).collect();
    let class = |t: &str| match t.chars().next() {
        Some(c) if c.is_ascii_digit() => 1,
        Some(c) if c.is_alphabetic() => 2,
        Some('\'') => 3,
        Some('"') => 4,
        Some(' ') => 0,
        Some('\n') => 0,
        _ => 5,
    };
    for _ in 0..1 + r.below(2) {
        let at: Vec<usize> = (0..v.len()).filter(|&i| class(&v[i]) != 0).collect();
        if at.is_empty() {
            break;
        }
        let i = *r.pick(&at);
        match r.below(10) {
            8 => {
                // a stretch from one mark to the next, again
                let marks = ["=", "|", "+", ":", "#", "@", "u", "?", "&", "-", "$", "(", "<", ","];
                let w: Vec<usize> = at.iter().copied().filter(|&i| marks.contains(&v[i].as_str())).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    let ends: Vec<usize> = (i + 1..v.len().min(i + 14)).filter(|&k| k < i + 4 || class(&v[k]) == 5 || v[k] == " ").collect();
                    let j = if ends.is_empty() { i + 1 } else { *r.pick(&ends) };
                    let mut c: Vec<String> = v[i..j].to_vec();
                    if !c.contains(&"\n".to_string()) {
                        if r.chance(1, 4) {
                            c.insert(0, " ".into());
                        }
                        v.splice(j..j, c);
                    }
                }
            }
            9 => {
                // separators dropped with their blanks, or doubled, or moved to the end
                let w: Vec<usize> = at.iter().copied().filter(|&i| [",", ":", ".", "-", "="].contains(&v[i].as_str())).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    match r.below(3) {
                        0 => {
                            v.remove(i);
                            while v.get(i).is_some_and(|t| t.trim().is_empty() && t != "\n") {
                                v.remove(i);
                            }
                        }
                        1 => {
                            let x = v[i].clone();
                            v.insert(i, x);
                        }
                        _ => {
                            if let Some(n) = v[i..].iter().position(|t| [")", "]", ">"].contains(&t.as_str())) {
                                v.insert(i + n, ",".into());
                            }
                        }
                    }
                }
            }
            0..=2 => {
                let c = class(&v[i]);
                let same: Vec<&String> = all.iter().filter(|t| class(t) == c).collect();
                if !same.is_empty() {
                    v[i] = (*r.pick(&same)).clone();
                }
            }
            3 => {
                // nullability after a word, or before what opens a parameter list
                let w: Vec<usize> = at.iter().copied().filter(|&i| class(&v[i]) == 2).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    if v.get(i + 1).is_some_and(|t| t == "?") {
                        v.remove(i + 1);
                    } else {
                        v.insert(i + 1, "?".into());
                    }
                }
            }
            4 => {
                let w: Vec<usize> = at.iter().copied().filter(|&i| class(&v[i]) == 1).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    v[i] = match r.below(4) {
                        0 => r.below(14).to_string(),
                        1 => format!("0{}", v[i]),
                        2 => r.edgy(0, i64::MAX).to_string(),
                        _ => format!("{}{}", v[i], r.below(10)),
                    };
                }
            }
            5 => {
                // a stretch between two commas or brackets, dropped or repeated
                let w: Vec<usize> = at.iter().copied().filter(|&i| [",", "(", "["].contains(&v[i].as_str())).collect();
                if !w.is_empty() {
                    let i = *r.pick(&w);
                    let n = v[i + 1..].iter().position(|t| [",", ")", "]", "\n"].contains(&t.as_str())).unwrap_or(0);
                    let c: Vec<String> = v[i + 1..i + 1 + n].to_vec();
                    if r.coin() {
                        v.drain(i + 1..i + 1 + n);
                    } else {
                        let j = *r.pick(&w);
                        let mut c = c;
                        if r.coin() {
                            c.push(",".into());
                        }
                        v.splice(j + 1..j + 1, c);
                    }
                }
            }
            6 => {
                let ops = ["=>", "+>", "|>", "->", "::", "="];
                let w: Vec<&str> = ops.iter().copied().filter(|o| body.contains(o)).collect();
                if !w.is_empty() {
                    let o = *r.pick(&w);
                    let t = v.concat();
                    let hits: Vec<usize> = t.match_indices(o).map(|x| x.0).collect();
                    if !hits.is_empty() {
                        let h = *r.pick(&hits);
                        let t = format!("{}{}{}", &t[..h], r.pick::<&str>(&ops), &t[h + o.len()..]);
                        v = lex(&t).into_iter().map(String::from).collect();
                    }
                }
            }
            _ => {
                let j = *r.pick(&at);
                v.swap(i, j);
            }
        }
    }
    format!("{head}{}", v.concat())
}
/// Characters that take several bytes, change length with case, or are not what they look like.
const CHARS: [char; 30] = [
    'é', 'ß', 'İ', '€', '😀', '\u{301}', '١', '１', '−', '：', '　', '\u{a0}', '\u{feff}', '\u{2028}', '\u{85}', '\u{0}', '\u{7f}',
    '\u{10ffff}', '⁉', '\u{200b}', '\t', '\r', '\\', '\'', '"', '$', ' ', '0', '-', '.',
];
/// Replace, insert or drop single characters, mostly inside quotes and numbers; always UTF-8.
pub fn chars(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        if v.is_empty() {
            break;
        }
        let mut i = r.below(v.len());
        if r.chance(2, 3) {
            // Inside a quoted token, if there is one.
            let (mut q, mut at) = (None, vec![]);
            for (k, c) in v.iter().enumerate() {
                match q {
                    None if *c == '\'' || *c == '"' => q = Some(*c),
                    Some(x) if x == *c || *c == '\n' => q = None,
                    Some(_) => at.push(k),
                    None => {}
                }
            }
            if !at.is_empty() {
                i = *r.pick(&at);
            }
        }
        let c = *r.pick(&CHARS);
        match r.below(5) {
            0 => v.insert(i, c),
            1 => {
                v.remove(i);
            }
            _ => v[i] = c,
        }
    }
    v.into_iter().collect()
}
/// Line edits: drop, duplicate, swap, reindent, insert.
pub fn lines(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<String> = s.split('\n').map(String::from).collect();
    for _ in 0..1 + r.below(3) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(7) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v[i] = format!("{}{}", " ".repeat(r.below(6)), v[i].trim_start()),
            4 => v.insert(i, r.pick::<&str>(&LINES).to_string()),
            5 => v[i] = r.pick::<&str>(&LINES).to_string(),
            _ => v.truncate(i),
        }
    }
    v.join("\n")
}
/// Raw byte edits; the result may not be UTF-8.
pub fn bytes(s: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = s.to_vec();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() {
            v.push(r.u64() as u8);
            continue;
        }
        let i = r.below(v.len());
        match r.below(6) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, r.u64() as u8),
            2 => v[i] ^= 1 << r.below(8),
            3 => v[i] = *r.pick(&[0, 0xff, 0x80, b'\n', b'\r', b'\\', b'\'', b'"', b' ', b'$', b'\t']),
            4 => v.truncate(i),
            _ => {
                let n = r.below(v.len() - i).min(20);
                let c: Vec<u8> = v[i..i + n].to_vec();
                let at = r.below(v.len());
                v.splice(at..at, c);
            }
        }
    }
    v
}
/// Random tokens with little structure.
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.coin() {
        s.push_str("=== Plan\n");
    }
    for _ in 0..r.below(40) {
        match r.below(8) {
            0 => s.push('\n'),
            1 => {
                s.push('\n');
                s.push_str(r.pick::<&str>(&LINES));
            }
            2 => s.push_str(&genr::any_string(r)),
            _ => s.push_str(r.pick::<&str>(&TOKENS)),
        }
    }
    s
}

/// A literal in a spelling that may or may not be acceptable: lenient dates and times, odd
/// fractions, leap seconds, leading zeros, unusual escapes and any type.
pub fn odd_lit(r: &mut Rng) -> String {
    fn num(r: &mut Rng, hi: usize) -> String {
        let n = if r.chance(1, 12) { hi + r.below(3) } else { r.below(hi) };
        match r.below(12) {
            0 => format!("{n}"),
            1 => format!(" {n}"),
            2 => format!("0{n:02}"),
            3 => format!("+{n}"),
            _ => format!("{n:02}"),
        }
    }
    let date = |r: &mut Rng| {
        let y = match r.below(12) {
            0 => format!("{}", r.range(-300_000, 300_000)),
            1 => format!("+{}", r.below(300_000)),
            2 => format!("{}", r.below(100)),
            3 => format!("{:05}", r.below(20_000)),
            4 => format!("-{:04}", r.below(5000)),
            _ => format!("{:04}", 1600 + r.below(800)),
        };
        let s = if r.chance(1, 3) { "/" } else { "-" };
        format!("{y}{s}{}{s}{}", num(r, 13), num(r, 32))
    };
    let time = |r: &mut Rng| {
        let mut t = format!("{}:{}:{}", num(r, 24), num(r, 60), num(r, 61));
        if r.chance(2, 3) {
            t.push('.');
            for _ in 0..r.below(13) {
                t.push(if r.coin() { '0' } else { (b'0' + r.below(10) as u8) as char });
            }
        }
        t
    };
    let q = if r.chance(1, 4) { "?" } else { "" };
    let p = *r.pick(&[0, 3, 6, 9, 9, 12, 1]);
    match r.below(10) {
        0 => format!("'{}':date{q}", date(r)),
        1 => format!("'{}':time{q}", time(r)),
        2 => format!("'{}':precisiontime{q}<{p}>", time(r)),
        3 => {
            let (d, t) = (date(r), time(r));
            format!("'{d}{}{t}':timestamp{q}", r.pick(&["T", " ", "t", "  "]))
        }
        4 | 5 => {
            let (d, t) = (date(r), time(r));
            format!("'{d}{}{t}':precisiontimestamp{}{q}<{p}>", r.pick(&["T", " "]), r.pick(&["", "tz"]))
        }
        6 => {
            let mut v = vec![];
            let u = match p {
                3 => "ms",
                6 => "us",
                9 => "ns",
                12 => "ps",
                _ => "us",
            };
            let mut order = vec!["d", "s", u];
            if r.chance(1, 3) {
                let x = *r.pick(&order);
                let at = r.upto(order.len());
                order.insert(at, x);
            }
            if r.chance(1, 6) {
                r.shuffle(&mut order);
            }
            for u in order {
                if r.chance(2, 3) {
                    let n = if r.chance(1, 5) { r.edgy(i64::MIN, i64::MAX) } else { r.range(-2000, 2000) };
                    v.push(format!("{}{n}{u}", if r.chance(1, 8) { "0" } else { "" }));
                }
            }
            format!("'{}':interval_day{q}<{p}>", v.join(" "))
        }
        7 => {
            let n: String = (0..1 + r.below(22)).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            format!("{}{n}{}", r.pick(&["", "-", "-0", "0"]), r.pick(&["", ":i64", ":i32?", ":i16", ":i8?", ":i64?"]))
        }
        8 => {
            let n: String = (0..1 + r.below(22)).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let f: String = (0..1 + r.below(330)).map(|_| if r.chance(3, 4) { '0' } else { (b'0' + r.below(10) as u8) as char }).collect();
            format!("{}{n}.{f}{}", r.pick(&["", "-"]), r.pick(&["", ":fp64", ":fp32", ":fp32?", ":fp64?"]))
        }
        _ => {
            let mut s = String::new();
            for _ in 0..r.below(6) {
                s.push_str(r.pick::<&str>(&["\\n", "\\t", "\\0", "\\x", "\\\\", "\\'", "\\\"", "\\u{41}", "\\u{}", "\\u{1F600}", "\\u{0000000041}", "\\u41", "\\u{d800}", "\\u{+41}", "a", "\"", "é", "]", "=>", "\\r"]));
            }
            format!("'{s}'{}", r.pick(&["", ":string", ":string?"]))
        }
    }
}
