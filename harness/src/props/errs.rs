//! Broken plans: the blamed line (C14) and rejection itself (C15).
use super::*;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        rule: "random valid plans in canonical and random spelling, LF or CRLF, with random blank lines, then exactly one fault of a random kind (syntax, structure, indentation, sections, declarations, references, literals, types, arguments, addenda, number of inputs) at a random place; the line number and line text in the error are compared with the place of the fault, the unbroken text must parse. Distinct by text",
        quick: 60_000,
        thorough: 2_000_000,
        case_cpu: 20.0,
        assume: &["a fault in a row of a virtual table may be blamed on the first line of that relation"],
        run: c14,
    },
    Prop {
        id: "C15",
        rule: "random valid plans with one or more faults that each break a documented rule, at random places; the parser must reject the text, the unbroken text must parse. Distinct by text",
        quick: 60_000,
        thorough: 2_000_000,
        case_cpu: 20.0,
        assume: &[],
        run: c15,
    },
];

/// The text as lines, and what is being broken.
struct T<'a> {
    l: Vec<Line>,
    d: &'a Decls,
    g: Gen,
}
/// Final line indexes that may be blamed, and the kind of fault.
type Fault = Option<(Vec<usize>, String)>;

/// The first bracket outside quotes.
fn opening(t: &str) -> Option<usize> {
    let mut q = None;
    let mut esc = false;
    for (i, c) in t.char_indices() {
        match (q, c) {
            _ if esc => esc = false,
            (Some(_), '\\') => esc = true,
            (Some(x), c) if c == x => q = None,
            (Some(_), _) => {}
            (None, '"' | '\'') => q = Some(c),
            (None, '[' | '(') => return Some(i),
            _ => {}
        }
    }
    None
}
const BAD_TYPES: &[&str] = &[
    "i65", "nosuch_t", "u!nosuch_t", "list<>", "list", "list<i64, i64>", "precisiontimestamp<13>", "precisiontimestamp", "precisiontime<>",
    "map<i64, i64>", "struct<i64>", "struct<>", "decimal<38, 0>", "varchar<10>", "list<nosuch_t>", "list<list<i65?>>", "i64??", "i64<3>",
    "interval_day<x>", "list<i64", "precisiontimestamptz<-1>", "list[i64]", "nosuch_t#77777", "", "func<i64>", "i64?<3>", "precisiontime<99999999999>",
];
const BAD_EXPR: &[&str] = &[
    "128:i8", "-129:i8", "32768:i16", "-32769:i16", "2147483648:i32", "-2147483649:i32", "9223372036854775808", "-9223372036854775809",
    "1.5:i64", "'abc':i64", "'2020-13-01':date", "'2021-02-29':date", "'2020-1':date", "'24:00:00':time", "'12:60:00':time", "'x':timestamp",
    "'2020-01-01':timestamp", "null", "null:nosuch_t", "1:nosuch_t", "(1)::nosuch_t", "$2147483648", "$", "'open", "nosuch_fn($0):i64",
    "nosuch_fn():i64", "nosuch_fn#77777():i64", "nosuch_fn:i64($0):i64", "if_then()", "if_then(_ -> 1)", "if_then(true -> 1)", "1 2", "&Foo", "$0$1", "(1)::",
    "(1)::map<i64, i64>", "(1:i8", "1e400", "1e39:fp32", "1:", "'1970-01-01T00:00:00.123':precisiontimestamp<0>", "'00:00:00.1':precisiontime<0>", "'P1D':interval_day<6>", "true:i64", "1:string", "'x':boolean", "''':string", "\"x\"", "a", "$x", "#1()", "--1", "1..2",
];

impl T<'_> {
    fn plan_at(&self) -> usize {
        self.l.iter().position(|x| x.depth == 0 && x.text == "=== Plan").unwrap()
    }
    fn is_rel(&self, j: usize) -> bool {
        j > self.plan_at() && !self.l[j].text.trim().is_empty() && !self.l[j].cont && !self.l[j].text.starts_with('+')
    }
    fn rels(&self) -> Vec<usize> {
        (0..self.l.len()).filter(|&j| self.is_rel(j)).collect()
    }
    /// One past the last line of the relation's own text (rows), its addenda, its subtree.
    fn head_end(&self, j: usize) -> usize {
        let mut e = j + 1;
        while e < self.l.len() && self.l[e].cont {
            e += 1;
        }
        e
    }
    fn addenda_end(&self, j: usize) -> usize {
        let mut e = self.head_end(j);
        let mut k = e;
        while k < self.l.len() && (self.l[k].text.trim().is_empty() || self.l[k].text.starts_with('+')) {
            if self.l[k].text.starts_with('+') {
                e = k + 1;
            }
            k += 1;
        }
        e
    }
    fn sub_end(&self, j: usize) -> usize {
        let mut e = self.head_end(j);
        let mut k = e;
        while k < self.l.len() && (self.l[k].text.trim().is_empty() || self.l[k].depth > self.l[j].depth) {
            if !self.l[k].text.trim().is_empty() {
                e = k + 1;
            }
            k += 1;
        }
        e
    }
    fn kids(&self, j: usize) -> Vec<usize> {
        (j + 1..self.sub_end(j)).filter(|&k| self.is_rel(k) && self.l[k].depth == self.l[j].depth + 1).collect()
    }
    fn kind(&self, j: usize) -> String {
        let t = &self.l[j].text;
        t[..t.find('[').unwrap_or(t.len())].to_string()
    }
    fn kind1(&self, j: usize) -> String {
        self.kind(j).split(':').next().unwrap().to_string()
    }
    fn insert(&mut self, at: usize, depth: usize, text: String) {
        self.l.insert(at, Line::at(depth, text));
    }
    fn bad_type(&mut self) -> String {
        // A declared type of that name takes the text of a built-in one that is not well-formed.
        let words = |t: &str| -> Vec<String> {
            t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').map(String::from).collect()
        };
        let mut t = loop {
            let t = self.g.r.pick(BAD_TYPES).to_string();
            if !words(&t).iter().any(|w| self.d.types.iter().any(|x| x.name == *w)) {
                break t;
            }
        };
        if !self.d.types.is_empty() && self.g.r.chance(1, 6) {
            let x = self.g.r.pick(&self.d.types).clone();
            let urn = self.other_urn(x.urn);
            t = match (self.d.type_count(&x.name), self.g.r.coin()) {
                (1, true) => format!("{}@{urn}", x.name),
                _ => format!("{}#{}@{urn}", x.name, x.anchor),
            };
        }
        match self.g.r.below(4) {
            0 if !t.is_empty() => format!("list<{t}>"),
            1 if !t.is_empty() => format!("list?<{t}>"),
            _ => t,
        }
    }
    /// A URN anchor, declared or not, other than the given one.
    fn other_urn(&mut self, urn: u32) -> u32 {
        let mut v: Vec<u32> = self.d.urns.iter().map(|u| u.0).filter(|x| *x != urn).collect();
        v.extend([0, 1, 77_777, u32::MAX].into_iter().filter(|x| *x != urn));
        *self.g.r.pick(&v)
    }
    /// An expression that breaks a rule, possibly deep inside a valid one.
    fn bad_expr(&mut self) -> (String, &'static str) {
        let d = self.d;
        let mut k = "expression";
        let mut e = self.g.r.pick(BAD_EXPR).to_string();
        match self.g.r.below(8) {
            0 => {
                let t = self.bad_type();
                e = match self.g.r.below(4) {
                    0 => format!("null:{t}"),
                    1 => format!("($0)::{t}"),
                    2 => format!("7:{t}"),
                    _ => match d.funcs.first() {
                        Some(f) => format!("{}#{}():{t}", base_of(&f.name), f.anchor),
                        None => format!("null:{t}"),
                    },
                };
                k = "type in expression";
            }
            1 if !d.funcs.is_empty() => {
                // references by function
                let f = self.g.r.pick(&d.funcs).clone();
                match self.g.r.below(5) {
                    4 => {
                        let urn = self.other_urn(f.urn);
                        e = format!("{}#{}@{urn}():i64", base_of(&f.name), f.anchor);
                        if d.base_count(base_of(&f.name)) == 1 && self.g.r.coin() {
                            e = format!("{}@{urn}():i64", base_of(&f.name));
                        }
                        k = "contradictory URN anchor";
                    }
                    0 => {
                        let free = (0..).map(|x| 77_000 + x).find(|x| d.func(*x).is_none()).unwrap();
                        e = format!("{}#{free}():i64", base_of(&f.name));
                        k = "undeclared anchor";
                    }
                    1 => {
                        let other = self.g.r.pick(&d.funcs).clone();
                        if base_of(&other.name) != base_of(&f.name) {
                            e = format!("{}#{}():i64", base_of(&f.name), other.anchor);
                            k = "contradictory anchor";
                        }
                    }
                    2 => {
                        let b = base_of(&f.name);
                        if d.base_count(b) > 1 {
                            e = format!("{b}():i64");
                            k = "ambiguous name";
                        }
                    }
                    _ => {
                        if f.name.contains(':') && d.full_count(&f.name) > 1 {
                            e = format!("{}():i64", f.name);
                            k = "ambiguous signature";
                        } else {
                            e = format!("{}:nosuch_sig():i64", base_of(&f.name));
                            k = "undeclared signature";
                        }
                    }
                }
            }
            _ => {}
        }
        for _ in 0..self.g.r.upto(3) {
            e = match self.g.r.below(3) {
                0 => format!("({e})::i64"),
                1 => match self.g.r.below(3) {
                    0 => format!("if_then({e} -> 1, _ -> 2)"),
                    1 => format!("if_then(true -> {e}, _ -> 2)"),
                    _ => format!("if_then(true -> 3, false -> 1, _ -> {e})"),
                },
                _ => match d.funcs.first() {
                    Some(f) => {
                        let n = format!("{}#{}", base_of(&f.name), f.anchor);
                        if self.g.r.coin() { format!("{n}({e}):i64") } else { format!("{n}($0, {e}, 'x'):i64?") }
                    }
                    None => format!("(({e})::string?)::i64"),
                },
            };
        }
        (e, k)
    }
    /// Put a line above relation `j`, so that it becomes its only input.
    fn wrap(&mut self, j: usize, text: String) -> Vec<usize> {
        let e = self.sub_end(j);
        let depth = self.l[j].depth;
        for k in j..e {
            self.l[k].depth += 1;
        }
        self.insert(j, depth, text);
        vec![j]
    }
    fn not_root(&mut self) -> usize {
        let v: Vec<usize> = self.rels().into_iter().filter(|&j| !self.l[j].text.starts_with("Root[")).collect();
        *self.g.r.pick(&v)
    }
    fn leaf_at(&mut self) -> usize {
        let v: Vec<usize> = self.rels().into_iter().filter(|&j| self.kids(j).is_empty()).collect();
        *self.g.r.pick(&v)
    }

    // -------------------------------------------------------- faults

    fn syntax(&mut self) -> Fault {
        let rels = self.rels();
        let j = *self.g.r.pick(&rels);
        let add: Vec<usize> = (self.plan_at() + 1..self.l.len()).filter(|&k| self.l[k].cont || self.l[k].text.starts_with('+')).collect();
        let j = if !add.is_empty() && self.g.r.chance(1, 3) { *self.g.r.pick(&add) } else { j };
        // The lines of the same relation text.
        let mut first = j;
        while self.l[first].cont {
            first -= 1;
        }
        let blame: Vec<usize> = (first..=j).collect();
        let multi = self.l[j].cont || (j + 1 < self.l.len() && self.l[j + 1].cont);
        let t = self.l[j].text.clone();
        let what = match self.g.r.below(if multi { 3 } else { 11 }) {
            9 | 10 => {
                let tail = *self.g.r.pick(&["x", " x", "]", " ]", "[]", "[1]", ", $0", " => $0]", "/", " / /", " /x", "#", " # comment", ";", " -- comment", " + Opt:ScanX[]", " Read[t => a:i64]", ")", "?", ":i64", "\u{a0}é", " _", "\\"]);
                self.l[j].text = format!("{t}{tail}");
                "text after the closing bracket"
            }
            0 => {
                let at = opening(&t)?;
                self.l[j].text = format!("{}!!{}", &t[..=at], &t[at + 1..]);
                "stray characters"
            }
            1 => {
                let at = opening(&t)?;
                self.l[j].text = format!("{}<{}", &t[..at], &t[at + 1..]);
                "wrong bracket"
            }
            2 => {
                let at = opening(&t)?;
                self.l[j].text = format!("{},,{}", &t[..=at], &t[at + 1..]);
                "stray commas"
            }
            3 => {
                let at = t.rfind(']').unwrap();
                self.l[j].text = t[..at].to_string();
                "missing bracket"
            }
            4 => {
                self.l[j].text = (*self.g.r.pick(&["???", "hello world", "[]", "]", "Read", "=>", "{}", "#1", "\"x\"[]", "é", "-", "+", "++", "'"])).into();
                "garbage line"
            }
            5 => {
                let c = t.chars().next().unwrap();
                self.l[j].text = format!("{}{t}", self.g.r.pick(&["x", "_", "9", "Pre", "="]));
                if c == '+' { "addendum with prefix" } else { "unknown relation" }
            }
            6 => {
                let at = opening(&t)?;
                self.l[j].text = format!("{}{}{}", &t[..at], self.g.r.pick(&["x", "2", "_", "::", ":"]), &t[at..]);
                // An extension's name may go on.
                if t.starts_with("Ext") || t.starts_with('+') {
                    return None;
                }
                "unknown relation"
            }
            7 => {
                self.l[j].text = format!("{}{t}", self.g.r.pick(&[" ", "\t", "\u{a0}"]));
                "bad indentation"
            }
            _ => {
                let at = opening(&t)?;
                let h = t[..at].to_string();
                let swapped = if self.g.r.coin() { h.to_uppercase() } else { h.to_lowercase() };
                if swapped == h || h.contains('"') {
                    return None;
                }
                // Names of extensions are case-sensitive, too, but need not be registered in one case only.
                self.l[j].text = format!("{swapped}{}", &t[at..]);
                "letter case"
            }
        };
        Some((blame, format!("syntax: {what}")))
    }

    /// A row line after something that is no virtual table, or a finished one.
    fn continuation(&mut self) -> Fault {
        let rels = self.rels();
        let j = *self.g.r.pick(&rels);
        let (h, a) = (self.head_end(j), self.addenda_end(j));
        let at = if self.g.r.coin() { h } else { a };
        // blank lines end a relation's text, too: then the line itself is at fault
        let mut first = at - 1;
        let d = if self.l[first].text.starts_with('+') && self.g.r.coin() { self.l[first].depth + 1 } else { self.l[j].depth + 1 };
        while self.l[first].cont {
            first -= 1;
        }
        let t = *self.g.r.pick(&["- ($0)", "- (1, 2),", "- (x", "- ]", "- _ => a:i64]", "- Read[t => a:i64]", "-  "]);
        self.l.insert(at, Line { depth: d, text: t.trim_end().into(), cont: true });
        Some(((first..=at).collect(), "stray continuation line".into()))
    }

    fn indentation(&mut self) -> Fault {
        // A line deeper than any relation could hold it.
        let v: Vec<usize> = (self.plan_at() + 1..self.l.len())
            .filter(|&j| !self.l[j].text.trim().is_empty() && !self.l[j].cont)
            .filter(|&j| {
                let mut k = j - 1;
                while self.l[k].text.trim().is_empty() || self.l[k].cont || self.l[k].text.starts_with('+') {
                    k -= 1;
                }
                // the relation before is its parent, or nothing is
                k == self.plan_at() || self.l[k].depth + 1 == self.l[j].depth
            })
            .collect();
        let j = *self.g.r.pick(&v);
        self.l[j].depth += 1 + self.g.r.below(3);
        Some((vec![j], "indented too deep".into()))
    }

    fn sections(&mut self) -> Fault {
        let pa = self.plan_at();
        let heads: Vec<usize> = (0..=pa).filter(|&j| self.l[j].text.starts_with("===") && self.l[j].depth == 0).collect();
        match self.g.r.below(4) {
            0 => {
                let at = self.g.r.below(heads[0] + 1);
                let t = *self.g.r.pick(&["Read[t => a:i64]", "Root[]", "x", "URNs:", "  @ 1: /u", "# comment", "== Plan", "--- Plan", "+ Enh:X[]", "Version 1.0.0"]);
                self.insert(at, 0, t.into());
                Some((vec![at], "content before the first section".into()))
            }
            1 => {
                let j = *self.g.r.pick(&heads);
                let mut c = vec!["===Plan", "=== plan", "=== Plans", "==== Plan", "=== Plan extra", "=== ", "===", "=== Extension", "=== extensions", "=== Extensions x", "=== Version", "=== Version 1", "=== Version 1.2", "=== Version 1.2.3.4", "=== Version a.b.c", "=== Version 4294967296.0.0", "=== Version -1.0.0", "=== Version1.2.3", "=== Version 1..3", "=== Version 1.2.", "=== Version 1.2.x", "=== Unknown", "=== Version 1.2.3 x", "=== version 1.2.3"];
                self.g.r.shuffle(&mut c);
                self.l[j].text = c[0].into();
                Some((vec![j], "unknown section header".into()))
            }
            2 => {
                // A section that may not come (again).
                let at = pa + 1 + self.g.r.below(self.l.len() - pa);
                if at < self.l.len() && self.l[at].cont {
                    return None;
                }
                let t = *self.g.r.pick(&["=== Plan", "=== Extensions", "=== Version 1.2.3"]);
                self.insert(at, 0, t.into());
                Some((vec![at], "section out of order".into()))
            }
            _ => {
                if heads.len() < 2 {
                    return None;
                }
                let h = heads[self.g.r.below(heads.len() - 1)];
                let after = heads.iter().find(|x| **x > h).unwrap();
                let at = h + 1 + self.g.r.below(after - h);
                let mut t = self.l[h].text.clone();
                if self.l[h].text.starts_with("=== Ext") && self.g.r.coin() {
                    t = "=== Version 0.1.2".into();
                }
                self.insert(at, 0, t);
                Some((vec![at], "section repeated".into()))
            }
        }
    }

    fn version(&mut self) -> Fault {
        let h = self.l.iter().position(|x| x.depth == 0 && x.text.starts_with("=== Version "))?;
        let end = (h + 1..self.l.len()).find(|&k| self.l[k].depth == 0 && self.l[k].text.starts_with("===")).unwrap();
        let given: Vec<usize> = (h + 1..end).filter(|&k| !self.l[k].text.trim().is_empty()).collect();
        if !given.is_empty() && self.g.r.coin() {
            // the same detail once more
            let k = *self.g.r.pick(&given);
            let key = self.l[k].text.split(':').next().unwrap().to_string();
            let t = if self.g.r.coin() { self.l[k].text.clone() } else { format!("{key}: again") };
            let at = k + 1 + self.g.r.below(end - k);
            self.insert(at, 1, t);
            return Some((vec![at], "repeated version detail".into()));
        }
        let at = h + 1 + self.g.r.below(end - h);
        let (d, t) = *self.g.r.pick(&[
            (0, "producer: x"),
            (2, "producer: x"),
            (3, "git_hash: x"),
            (1, "author: x"),
            (1, "producer x"),
            (1, "producer"),
            (1, "Producer: x"),
            (1, "git hash: x"),
            (1, ": x"),
            (0, "x"),
            (0, "URNs:"),
            (0, "Root[]"),
            (1, "=== Plan"),
        ]);
        self.insert(at, d, t.into());
        Some((vec![at], "bad version line".into()))
    }

    fn declarations(&mut self) -> Fault {
        let h = self.l.iter().position(|x| x.depth == 0 && x.text == "=== Extensions")?;
        let end = (h + 1..self.l.len()).find(|&k| self.l[k].depth == 0 && self.l[k].text.starts_with("===")).unwrap();
        let lines: Vec<usize> = (h + 1..end).filter(|&k| !self.l[k].text.trim().is_empty()).collect();
        if lines.is_empty() {
            return None;
        }
        let decls: Vec<usize> = lines.iter().copied().filter(|&k| self.l[k].depth == 1).collect();
        let used_urn = |n: u32| self.d.urns.iter().any(|u| u.0 == n);
        let free_urn = (0u32..).map(|x| 99 + x).find(|x| !used_urn(*x)).unwrap();
        let free = (0u32..).map(|x| 88_000 + x).find(|x| !self.d.funcs.iter().chain(&self.d.types).chain(&self.d.tvars).any(|y| y.anchor == *x)).unwrap();
        let heading_of = |s: &Self, k: usize| (h + 1..=k).rev().find(|&x| s.l[x].depth == 0 && !s.l[x].text.trim().is_empty()).map(|x| s.l[x].text.clone());
        match self.g.r.below(5) {
            0 => {
                // the same anchor once more, somewhere later under the same heading
                let k = *self.g.r.pick(&decls);
                let t = self.l[k].text.clone();
                let hd = heading_of(self, k)?;
                let copy = match self.g.r.below(2) {
                    0 => t,
                    _ => {
                        // same anchor, other name
                        let c = t.find(':').unwrap();
                        format!("{}: another", &t[..c])
                    }
                };
                let places: Vec<usize> = (k + 1..=end).filter(|&x| heading_of(self, x - 1).as_deref() == Some(&hd)).collect();
                let at = *self.g.r.pick(&places);
                self.insert(at, 1, copy);
                Some((vec![at], "duplicate anchor".into()))
            }
            1 => {
                // a declaration naming a URN that is not there
                let k: Vec<usize> = decls.into_iter().filter(|&k| heading_of(self, k).is_some_and(|x| x != "URNs:")).collect();
                if k.is_empty() {
                    return None;
                }
                let k = *self.g.r.pick(&k);
                let at = k + self.g.r.below(2);
                self.insert(at, 1, format!("# {free} @ {free_urn}: some_name"));
                Some((vec![at], "undeclared URN".into()))
            }
            2 => {
                let k = *self.g.r.pick(&decls);
                let urn = self.d.urns.first().map_or(1, |u| u.0);
                let t = [
                    format!("# {free} {urn}: f"),
                    format!("#x @{urn}: f"),
                    format!("# {free} @ {urn} f"),
                    format!("#-1 @{urn}: f"),
                    format!("# 4294967296 @{urn}: f"),
                    format!("# {free} @4294967296: f"),
                    format!("# {free} @{urn}:"),
                    format!("# {free} @{urn}: f g"),
                    format!("@ {free}"),
                    "@: /x".into(),
                    "@ x: /x".into(),
                    "garbage".into(),
                    "Functions:".into(),
                    "===".into(),
                    format!("@ {urn} # {free}: f"),
                    "@ 4294967296: /x".into(),
                    "@ -1: /x".into(),
                ];
                let t = self.g.r.pick(&t).clone();
                let at = k + self.g.r.below(2);
                self.insert(at, 1, t);
                Some((vec![at], "malformed declaration".into()))
            }
            3 => {
                let k = *self.g.r.pick(&decls);
                let was = self.l[k].depth;
                self.l[k].depth = *self.g.r.pick(&[0, 2, 3]);
                assert!(was == 1);
                Some((vec![k], "indentation of a declaration".into()))
            }
            _ => {
                let k = *self.g.r.pick(&lines);
                let t = *self.g.r.pick(&["URN:", "urns:", "Function:", "functions:", "Type variations:", "TypeVariations:", "Types", "URNs", "Tables:", "Root[]", "Functions: x", "  :", "x:"]);
                let at = k + self.g.r.below(2);
                self.insert(at, 0, t.into());
                Some((vec![at], "unknown heading".into()))
            }
        }
    }

    fn arity(&mut self) -> Fault {
        let rels = self.rels();
        let j = *self.g.r.pick(&rels);
        let kind = self.kind1(j);
        let kids = self.kids(j);
        let want: (usize, usize) = match kind.as_str() {
            "Root" | "Filter" | "Project" | "Aggregate" | "Sort" | "Fetch" | "ExtensionSingle" => (1, 1),
            "Join" | "Cross" => (2, 2),
            "Read" | "ExtensionLeaf" => (0, 0),
            "Set" => (2, usize::MAX),
            _ => return None,
        };
        let mut n = kids.len();
        loop {
            if n < want.0 || n > want.1 || (self.g.r.chance(1, 3) && n != kids.len()) {
                break;
            }
            if want.0 > 0 && (want.1 == usize::MAX || self.g.r.coin()) {
                // remove one
                let k = self.kids(j);
                let x = *self.g.r.pick(&k);
                let e = self.sub_end(x);
                self.l.drain(x..e);
                n -= 1;
            } else {
                let at = match self.g.r.below(2) {
                    0 => self.addenda_end(j),
                    _ => self.sub_end(j).max(self.addenda_end(j)),
                };
                let d = self.l[j].depth + 1;
                let t = *self.g.r.pick(&["Read[t => a:i64]", "Read:Virtual[_ => a:i64]", "ExtensionLeaf:ScanX[_ => $0]"]);
                self.insert(at, d, t.into());
                n += 1;
            }
        }
        if n >= want.0 && n <= want.1 {
            return None;
        }
        Some((vec![j], format!("{n} inputs of {kind}")))
    }

    fn widths(&mut self) -> Fault {
        let v: Vec<usize> = self.rels().into_iter().filter(|&j| self.kind(j) == "Set").collect();
        let lit = ["a:i64", "b:i64?", "c:string", "d:date", "e:i8", "f:i16", "g:i32", "h:fp32"];
        let read = |k: usize| {
            if k == 0 { "Read[t => ]".to_string() } else { format!("Read[t => {}]", lit[..k].join(", ")) }
        };
        if !v.is_empty() && self.g.r.coin() {
            let j = *self.g.r.pick(&v);
            // Inputs of widths of our choosing, not all equal.
            let n = 2 + self.g.r.below(3);
            let w = 1 + self.g.r.below(6);
            let mut ws = vec![w; n];
            let odd = self.g.r.below(n);
            ws[odd] = if self.g.r.coin() { w + 1 } else { w - 1 };
            let (a, e) = (self.addenda_end(j), self.sub_end(j));
            let d = self.l[j].depth + 1;
            self.l.drain(a..e.max(a));
            for (i, w) in ws.iter().enumerate() {
                self.insert(a + i, d, read(*w));
            }
            return Some((vec![j], "set inputs of unequal width".into()));
        }
        // A Set over an existing relation and a wider one.
        let j = self.leaf_at();
        let d = self.l[j].depth;
        let e = self.sub_end(j);
        self.l.drain(j..e);
        let a = self.g.r.below(6);
        let op = SETS[self.g.r.below(8)];
        let more = 1 + self.g.r.below(2);
        self.insert(j, d, format!("Set[&{op} => $0]"));
        self.insert(j + 1, d + 1, read(a));
        self.insert(j + 2, d + 1, read(a + more));
        Some((vec![j], "set inputs of unequal width".into()))
    }

    fn relation(&mut self) -> Fault {
        let j = self.not_root();
        let (bad, bk) = self.bad_expr();
        let bt = self.bad_type();
        let leafy = self.g.r.chance(1, 3);
        if leafy {
            let j = self.leaf_at();
            if self.l[j].text.starts_with("Root[") {
                return None;
            }
            let (d, e) = (self.l[j].depth, self.sub_end(j));
            let (t, what): (String, String) = match self.g.r.below(13) {
                0 => (format!("Read[t => a:{bt}]"), "column type".into()),
                1 => (format!("Read[t => a:i64, b:{bt}, c:i64]"), "column type".into()),
                2 => (format!("Read:Virtual[({bad}) => a:i64]"), bk.into()),
                3 => (format!("Read:Virtual[(1), ({bad}), (2) => a:i64]"), bk.into()),
                4 => (format!("Read:Virtual[(1) => a:{bt}]"), "column type".into()),
                5 => (format!("ExtensionLeaf:ScanX[{bad} => $0]"), bk.into()),
                6 => (format!("ExtensionLeaf:ScanX[_ => a:{bt}]"), "column type".into()),
                7 => (format!("Read:Extension[a:{bt}]"), "column type".into()),
                8 => ("Read:Extension[a:i64]".into(), "extension table without detail".into()),
                9 => ("Read[t]".into(), "read without columns".into()),
                10 => ("Read[ => a:i64]".into(), "read without table".into()),
                11 => ("ExtensionLeaf:NoSuch[_ => $0]".into(), "unregistered extension".into()),
                _ => {
                    // Malformed output of a Read
                    let t = *self.g.r.pick(&[
                        "Read[t +> a:i64, b:i64 |> $x]", "Read[t +> a:i64 |> $0 |> $0]", "Read[t => a:i64 |> $0]", "Read[t +> a:i64 |> a:i64]", "Read[t => a:i64 => b:i64]",
                        "Read[t +> a:i64 +> b:i64 |> $0]", "Read[t => a:i64,]", "Read[t => ,a:i64]", "Read[t => a:i64 b:i64]", "Read[t => a]", "Read[t => $0]", "Read[t, u => a:i64]", "Read[t. => a:i64]",
                        "Read[t => a:i64] Read[t => a:i64]", "Read[t => a:i64]]", "Read[[t => a:i64]", "Read[t |> $0]", "Read[t => a:i64, _]", "Read[t +> a:i64 |> $0, 1]", "Read[t x => a:i64]", "Read[$0 => a:i64]",
                        "Read[.t => a:i64]", "Read[t..u => a:i64]", "Read[t => a::i64]", "Read[t => (a:i64)]", "Read[t => a:i64; b:i64]", "Read(t => a:i64)", "Read[t => a:i64", "Read[t => a:i64?x]",
                        "Read:Virtual[1 => a:i64]", "Read:Virtual[(1) => a:i64 => b:i64]", "Read:Virtual[(1),, (2) => a:i64]", "Read:Virtual[(1) (2) => a:i64]", "Read:Virtual[(1)]", "Read:Virtual[_, (1) => a:i64]", "Read:Virtual[(1), _ => a:i64]", "Read:Virtual[t => a:i64]", "Read:Virtual[(1,) => a:i64]", "Read:Virtual[(,1) => a:i64]",
                        "Read:Virtual[((1)) => a:i64]", "Read:virtual[(1) => a:i64]", "Read :Virtual[(1) => a:i64]",
                    ]);
                    (t.into(), "bad read".into())
                }
            };
            // An argument that reads as something else in an extension is not an error there.
            if t.starts_with("ExtensionLeaf:ScanX[") && what == "expression" {
                return None;
            }
            self.l.drain(j..e);
            self.insert(j, d, t.clone());
            if t.starts_with("Read:Extension[a:") && what == "column type" {
                self.insert(j + 1, d + 1, "+ Ext:ScanX[]".into());
            }
            return Some((vec![j], what));
        }
        let kind = self.g.r.below(16);
        let (t, what): (String, String) = match kind {
            0 => (format!("Filter[{bad} => $0]"), bk.into()),
            1 => (format!("Project[{bad}]"), bk.into()),
            2 => (format!("Project[$0, 1, {bad}, $0]"), bk.into()),
            3 => (format!("Sort[({bad}, &AscNullsFirst) => $0]"), bk.into()),
            4 => (format!("Aggregate[{bad} => {bad}]"), bk.into()),
            5 => (format!("Aggregate[($0), ({bad}) => $0]"), bk.into()),
            6 => {
                let t = *self.g.r.pick(&[
                    "Fetch[limit=-1 => $0]", "Fetch[offset=-1 => $0]", "Fetch[limit=1, limit=1 => $0]", "Fetch[offset=0, limit=2, offset=1 => $0]",
                    "Fetch[foo=1 => $0]", "Fetch[limit=1, foo=2 => $0]", "Fetch[limit=-9223372036854775808:i64 => $0]", "Fetch[limit=5, offset=-3:i32 => $0]",
                    "Fetch[1 => $0]", "Fetch[limit= => $0]", "Fetch[limit=1]", "Fetch[limit=9223372036854775808 => $0]", "Fetch[Limit=1 => $0]", "Fetch[limit=-5:i8? => $0]",
                ]);
                (t.into(), "fetch arguments".into())
            }
            7 => {
                let t = *self.g.r.pick(&[
                    "Sort[($0, &Asc) => $0]", "Sort[($0, &AscNulls) => $0]", "Sort[($0, AscNullsFirst) => $0]", "Sort[$0 => $0]", "Sort[($0) => $0]", "Sort[($0, &ascnullsfirst) => $0]",
                    "Sort[($0, &AscNullsFirst, $1) => $0]", "Sort[($0, &AscNullsFirst)]", "Sort[($0, &Inner) => $0]", "Sort[($0, &AscNullsFirstx) => $0]",
                ]);
                (t.into(), "sort fields".into())
            }
            8 => {
                let t = *self.g.r.pick(&[
                    "Aggregate[$0 => $1]", "Aggregate[_ => 5]", "Aggregate[_ => $0]", "Aggregate[$0 => 'x']", "Aggregate[($0, $1), ($0) => $2]",
                    "Aggregate[$0, 7 => 8]", "Aggregate[($0), _ => ($0)::i64]", "Aggregate[$0]", "Aggregate[$0 => if_then(true -> 1, _ -> 2)]", "Aggregate[5 => 5:i8]", "Aggregate[(1)::i64 => (1)::i32]",
                ]);
                (t.into(), "aggregate outputs".into())
            }
            9 => {
                let t = *self.g.r.pick(&[
                    "Filter[=> $0]", "Filter[]", "Filter[true]", "Filter[true, false => $0]", "Filter[true => $0, 1]", "Filter[true => a]", "Filter[_ => $0]", "Filter[true => 5]",
                    "Filter[true => $0 => $0]", "Filter[true => $0,]", "Filter[true => $0 $0]", "Filter[true => $0] x", "Filter[true => $0]]", "Filter[true => $0][]", "Filter[true |> $0]", "Filter[true => _]", "Filter[filter=true => $0]",
                ]);
                (t.into(), "filter arguments".into())
            }
            10 => {
                let t = *self.g.r.pick(&["Nothing[]", "Union[$0]", "Write[t => a:i64]", "Select[$0]", "Root[a]", "root[a]", "Read:Foo[a:i64]", "Limit[5 => $0]", "Extension:ScanX[_]", "ExtensionFoo:ScanX[_ => $0]", "HashJoin[&Inner, true => $0]"]);
                if t == "Root[a]" && self.l[j].depth == 0 {
                    return None;
                }
                (t.into(), "unknown relation".into())
            }
            11 => ("ExtensionSingle:NoSuch[_ => $0]".into(), "unregistered extension".into()),
            12 => {
                let t = *self.g.r.pick(&["ExtensionSingle:ScanX[nope=1 => $0]", "ExtensionSingle:ScanX[count=1, count=1 => $0]", "ExtensionSingle:ScanX[count=1, 5 => $0]", "ExtensionMulti:ScanX[count=1, count=2 => $0]", "ExtensionSingle:scanx[_ => $0]"]);
                (t.into(), "extension arguments".into())
            }
            13 | 14 => {
                // two inputs
                let a = self.g.r.coin();
                let t: String = if a {
                    format!("Join[&{}, {bad} => $0]", JOINS[self.g.r.below(12)])
                } else {
                    (*self.g.r.pick(&[
                        "Join[true => $0]", "Join[&Inner => $0]", "Join[&Innerx, true => $0]", "Join[&inner, true => $0]", "Join[Inner, true => $0]", "Join[&UnionAll, true => $0]", "Join[&Semi, true => $0]",
                        "Join[&Inner, true, false => $0]", "Join[&Inner, true, filter=1 => $0]", "Cross[true => $0]", "Cross[$0, 1]", "Set[&Union => $0]", "Set[$0]", "Set[&Inner => $0]", "Set[UnionAll => $0]", "Set[&UnionAll, &UnionAll => $0]", "Set[=> $0]",
                        "Set[&unionall => $0]", "Join[&Inner, true, post_filter=true, post_filter=true => $0]",
                    ]))
                    .into()
                };
                let b = self.wrap(j, t);
                // the second input: the same width, for Set
                let e = self.sub_end(b[0]);
                let copy: Vec<Line> = self.l[b[0] + 1..e].to_vec();
                for (i, x) in copy.into_iter().enumerate() {
                    self.l.insert(e + i, x);
                }
                return Some((b, if a { bk.into() } else { "join, cross or set arguments".into() }));
            }
            _ => (format!("Project[($0)::{bt}]"), "cast type".into()),
        };
        Some((self.wrap(j, t), what))
    }

    fn addenda(&mut self) -> Fault {
        let rels = self.rels();
        let j = *self.g.r.pick(&rels);
        let d = self.l[j].depth;
        let (h, a) = (self.head_end(j), self.addenda_end(j));
        let (bad, bk) = self.bad_expr();
        let kind = self.kind(j);
        // a place among the addenda
        let places: Vec<usize> = (h..=a).collect();
        let at = *self.g.r.pick(&places);
        match self.g.r.below(9) {
            0 => {
                let t = *self.g.r.pick(&["+ Enh:NoSuch[]", "+ Opt:NoSuch[1]", "+ Foo:ScanX[]", "+ ScanX[]", "+ Enh[]", "+ Enh:ScanX", "+ enh:ScanX[]", "+ Opt:ScanX[count=1, count=1]", "+ Opt:ScanX[nope=1]", "+ Opt:ScanX[count=1, 2]", "++ Opt:ScanX[]", "+ Opt:scanx[]"]);
                self.insert(at, d + 1, t.into());
                Some((vec![at], "malformed addendum".into()))
            }
            1 => {
                if bk == "expression" {
                    return None; // may be a fine extension argument
                }
                self.insert(at, d + 1, format!("+ Opt:ScanX[{bad}]"));
                Some((vec![at], format!("addendum {bk}")))
            }
            2 => {
                // a second enhancement
                if (h..a).any(|k| self.l[k].text.contains("Enh:")) || kind == "Root" || kind.starts_with("Extension") {
                    return None;
                }
                // the detail of an extension table comes first
                self.insert(a, d + 1, "+ Enh:ScanX[]".into());
                self.insert(a + 1, d + 1, "+ Enh:ScanX[1]".into());
                Some((vec![a + 1], "second enhancement".into()))
            }
            3 => {
                if kind.starts_with("Read:Extension") {
                    self.insert(a, d + 1, "+ Ext:ScanX[]".into());
                    Some((vec![a], "second extension detail".into()))
                } else {
                    self.insert(at, d + 1, "+ Ext:ScanX[]".into());
                    Some((vec![at], "extension detail on another relation".into()))
                }
            }
            4 => {
                // after the inputs
                let k = self.kids(j);
                if k.is_empty() {
                    return None;
                }
                let k = *self.g.r.pick(&k);
                let e = self.sub_end(k);
                let t = *self.g.r.pick(&["+ Enh:ScanX[]", "+ Opt:ScanX[]", "+ Ext:ScanX[]"]);
                self.insert(e, d + 1, t.into());
                Some((vec![e], "addendum after an input".into()))
            }
            5 => {
                if d != 0 {
                    return None;
                }
                let pa = self.plan_at();
                let at = if self.g.r.coin() { j } else { pa + 1 };
                let t = *self.g.r.pick(&["+ Enh:ScanX[]", "+ Opt:ScanX[]", "+ Ext:ScanX[]"]);
                self.insert(at, 0, t.into());
                Some((vec![at], "addendum at the top level".into()))
            }
            6 => {
                if kind != "Root" && !kind.starts_with("Extension") {
                    return None;
                }
                let t = *self.g.r.pick(&["+ Enh:ScanX[]", "+ Opt:ScanX[]", "+ Ext:ScanX[]"]);
                self.insert(at, d + 1, t.into());
                Some((vec![at], format!("addendum on {}", kind.split(':').next().unwrap())))
            }
            7 => {
                // under nothing
                let t = *self.g.r.pick(&["+ Enh:ScanX[]", "+ Opt:ScanX[]"]);
                let deep = d + 2 + self.g.r.below(3);
                self.insert(a, deep, t.into());
                Some((vec![a], "addendum under nothing".into()))
            }
            _ => {
                // an extension table without its detail
                let at = (h..a).find(|&k| self.l[k].text.starts_with('+') && self.l[k].text.contains("Ext:"))?;
                if kind != "Read:Extension" {
                    return None;
                }
                self.l.remove(at);
                Some((vec![j], "extension table without detail".into()))
            }
        }
    }

    fn fault(&mut self) -> (Vec<usize>, String) {
        loop {
            let keep = self.l.clone();
            let f = match self.g.r.below(15) {
                14 => self.continuation(),
                0 | 1 => self.syntax(),
                2 => self.indentation(),
                3 => self.sections(),
                4 => self.version(),
                5 => self.declarations(),
                6 | 7 => self.arity(),
                8 => self.widths(),
                9 | 10 | 11 => self.relation(),
                _ => self.addenda(),
            };
            match f {
                Some(f) => return f,
                None => self.l = keep,
            }
        }
    }
}

fn base(env: &mut Env, rng: &mut Rng, i: u64) -> Result<(Gen, MPlan, Vec<Line>, &'static str), Bad> {
    let c = Cfg { max_rels: if i % 4 == 0 { 12 } else { 5 }, weird: 2, collide: rng.coin(), ..Default::default() };
    let (mut g, m) = loop {
        let (g, m) = plan_of(rng, c.clone());
        if !m.trees.is_empty() {
            break (g, m);
        }
    };
    let mut lines = if g.r.coin() { Pr::canon(&m.decls).plan_lines(&m) } else { Pr::styled(&m.decls, g.r.fork()).plan_lines(&m) };
    // More blank lines, with and without spaces.
    for _ in 0..g.r.upto(4) {
        let at = g.r.below(lines.len());
        if !lines[at].cont {
            lines.insert(at, Line { depth: 0, text: (*g.r.pick(&["", " ", "   ", "\t"])).into(), cont: false });
        }
    }
    let eol = if g.r.chance(1, 3) { "\r\n" } else { "\n" };
    let t = lines_text(&lines, "  ", eol);
    let want = canon_proto(&m);
    expect_parse(env, &t, &want)?;
    Ok((g, m, lines, eol))
}

fn place(e: &ParseError) -> Option<(i64, String)> {
    use ParseError as P;
    Some(match e {
        P::Extension(c, _) => (c.line_no, c.line.clone()),
        P::ExtensionDetail(c, _) => (c.line_no, c.line.clone()),
        P::Plan(c, _) => (c.line_no, c.line.clone()),
        P::Expected { context: c, .. } => (c.line_no, c.line.clone()),
        P::UnregisteredExtension { context: c, .. } => (c.line_no, c.line.clone()),
        P::RelationParse(c, _) => (c.line_no, c.line.clone()),
        P::ValidationError(c, _) => (c.line_no, c.line.clone()),
        P::Initial(c, _) => (c.line_no, c.line.clone()),
        P::Relation(c, _) => (c.line_no, c.line.clone()),
        P::NoRelationFound => return None,
    })
}

fn c14(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (g, m, lines, eol) = base(env, &mut rng, i)?;
    let mut t = T { l: lines.clone(), d: &m.decls, g };
    for _ in 0..2 {
        t.l = lines.clone();
        let (blame, what) = t.fault();
        let text = lines_text(&t.l, "  ", eol);
        env.ev(&what);
        env.eval(text.as_bytes(), true);
        env.sample(|| format!("{what}, line {:?}\n{text}", blame.iter().map(|x| x + 1).collect::<Vec<_>>()));
        let e = match try_parse(&env.reg, &text)? {
            Ok(_) => return bad("a broken plan is accepted", format!("{what}: line {:?}\n{text}", blame.iter().map(|x| x + 1).collect::<Vec<_>>())),
            Err(e) => e,
        };
        let ctx = |w: &str| format!("{w}: {what}, should blame line {:?}\n{e}\n--- text\n{text}", blame.iter().map(|x| x + 1).collect::<Vec<_>>());
        let Some((n, line)) = place(&e) else {
            return bad("an error names no line", ctx(""));
        };
        let Some(at) = blame.iter().find(|b| **b as i64 + 1 == n) else {
            return bad("an error names another line", ctx(""));
        };
        let want = t.l[*at].text.trim();
        let got = line.lines().next().unwrap_or("").trim();
        if got != want {
            return bad("an error quotes other text", ctx(&format!("{got:?} for {want:?}")));
        }
        let shown = e.to_string();
        if !shown.contains(&format!("line {n}")) || !shown.contains(got) {
            return bad("the message does not name the line", ctx(&shown));
        }
    }
    Ok(())
}

fn c15(env: &mut Env, mut rng: Rng, i: u64) -> Res {
    let (g, m, lines, eol) = base(env, &mut rng, i)?;
    let mut t = T { l: lines.clone(), d: &m.decls, g };
    for _ in 0..3 {
        t.l = lines.clone();
        let (_, what) = t.fault();
        let mut text = lines_text(&t.l, "  ", eol);
        if t.g.r.chance(1, 4) {
            text.truncate(text.trim_end_matches(['\r', '\n']).len());
        }
        env.ev(&what);
        env.eval(text.as_bytes(), true);
        env.sample(|| format!("{what}\n{text}"));
        if let Ok(p) = try_parse(&env.reg, &text)? {
            let (shown, _) = fmt_default(&env.reg, &p)?;
            return bad("a broken plan is accepted", format!("{what}\n{text}--- read as\n{shown}"));
        }
    }
    Ok(())
}
