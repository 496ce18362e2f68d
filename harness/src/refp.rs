//! An independent reader of the text format, written by hand from GRAMMAR.md and the documented
//! rules, used as the oracle for texts that nobody generated on purpose: random edits of plans.
//! It gives the model of the plan a text denotes, or says that the text breaks a rule, or that it
//! does not know (spellings the documentation leaves open). Reading is in two steps, syntax and
//! then names and values, so that a bad name never changes how the rest is read.
use crate::ext::{CTX, KEYS, NAMES};
use crate::model::*;
use prost::Message;

pub enum Out {
    Plan(Box<MPlan>),
    Reject(String),
    Unknown(&'static str),
}
enum Stop {
    Reject(String),
    Unknown(&'static str),
}
type R<T> = Result<T, Stop>;
fn no<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Reject(s.into()))
}
fn dunno<T>(s: &'static str) -> R<T> {
    Err(Stop::Unknown(s))
}

pub fn read(text: &str) -> Out {
    match Doc::new(false).read(text) {
        Ok(m) => Out::Plan(Box::new(m)),
        Err(Stop::Unknown(u)) => Out::Unknown(u),
        Err(Stop::Reject(r)) => match Doc::new(true).read(text) {
            Err(Stop::Reject(_)) => Out::Reject(r),
            Err(Stop::Unknown(u)) => Out::Unknown(u),
            // Only spaces are at fault: not an error anybody documents.
            Ok(_) => Out::Unknown("extra spaces"),
        },
    }
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug)]
enum Nul {
    No,
    Yes,
    Unspecified,
}
#[derive(Clone, Debug)]
enum STy {
    Simple(usize, Nul),
    List(Box<STy>, Nul),
    Prec(usize, String, Nul),
    Unsupported(&'static str),
    User { name: String, anchor: Option<String>, urn: Option<String>, nul: Nul, params: Vec<Option<STy>> },
}
#[derive(Clone, Debug)]
enum Tok {
    Float(String),
    Int(String),
    Bool(bool),
    Str(String),
    Null,
}
#[derive(Clone, Debug)]
enum SEx {
    If(Vec<(SEx, SEx)>, Box<SEx>),
    Cast(Box<SEx>, u8, STy),
    Call { sig: String, anchor: Option<String>, urn: Option<String>, args: Vec<SEx>, ty: STy },
    Ref(String),
    Lit(Tok, Option<STy>),
}
#[derive(Clone, Debug)]
enum SArg {
    Enum(String),
    Plain(Tok),
    Ex(SEx),
    Tuple(Vec<SArg>),
}
#[derive(Clone, Debug)]
enum SCol {
    Named(String, STy),
    Ex(SEx),
}
type SCols = Vec<(String, STy)>;
#[derive(Clone, Debug)]
struct SInv {
    name: String,
    pos: Vec<SArg>,
    named: Vec<(String, SArg)>,
    cols: Vec<SCol>,
}
#[derive(Clone, Debug)]
enum SRel {
    Root(Vec<String>),
    Read(Vec<String>, SCols, Option<Vec<String>>),
    RExt(SCols),
    Virt(Vec<Vec<SEx>>, Option<SEx>, SCols),
    Filter(SEx, Vec<String>),
    Project(Vec<SEx>),
    Agg { sets: Vec<Vec<SEx>>, outs: Vec<SEx> },
    Sort(Vec<(SEx, usize)>, Vec<String>),
    Fetch(Vec<(bool, SEx)>, Vec<String>),
    Join(usize, SEx, Option<SEx>, Vec<String>),
    Set(usize, Vec<String>),
    Cross(Vec<String>),
    Ext(usize, SInv),
}
#[derive(Clone, Debug)]
enum SLine {
    Rel(SRel),
    /// Table detail, enhancement or optimization.
    Add(usize, SInv),
}
#[derive(Clone, Debug)]
struct Node {
    rel: SRel,
    add: Vec<(usize, SInv)>,
    kids: Vec<Node>,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    /// Skip spaces before every token.
    lenient: bool,
    multi: bool,
    fuel: u32,
}
fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn sp(&mut self) {
        while self.rest().starts_with(' ') {
            self.i += 1;
        }
    }
    fn gap(&mut self) {
        if self.lenient {
            self.sp();
        }
    }
    fn t(&mut self, x: &str) -> Option<()> {
        let at = self.i;
        self.gap();
        if self.rest().starts_with(x) {
            self.i += x.len();
            Some(())
        } else {
            self.i = at;
            None
        }
    }
    fn at(&mut self, x: &str) -> bool {
        let keep = self.i;
        let r = self.t(x).is_some();
        self.i = keep;
        r
    }
    /// Try; on failure stay where we were.
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let at = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = at;
        }
        r
    }
    fn list<T>(&mut self, sep: impl Fn(&mut Self) -> Option<()>, f: impl Fn(&mut Self) -> Option<T>) -> Vec<T> {
        let mut v = vec![];
        let Some(x) = self.opt(&f) else { return v };
        v.push(x);
        while let Some(x) = self.opt(|p| {
            sep(p)?;
            f(p)
        }) {
            v.push(x);
        }
        v
    }
    /// A comma with spaces around it, or only after it.
    fn comma(&mut self) -> Option<()> {
        self.sp();
        self.t(",")?;
        self.sp();
        Some(())
    }
    fn comma1(&mut self) -> Option<()> {
        self.t(",")?;
        self.sp();
        Some(())
    }
    fn arrow(&mut self) -> Option<()> {
        self.sp();
        self.t("=>")?;
        self.sp();
        Some(())
    }
    fn run(&mut self, f: impl Fn(char) -> bool) -> &'a str {
        let r = self.rest();
        let n = r.find(|c| !f(c)).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
    fn ident(&mut self) -> Option<String> {
        self.opt(|p| {
            p.gap();
            if !p.rest().starts_with(|c: char| c.is_ascii_alphabetic()) {
                return None;
            }
            Some(p.run(word).to_string())
        })
    }
    fn digits(&mut self) -> Option<&'a str> {
        let d = self.run(|c| c.is_ascii_digit());
        (!d.is_empty()).then_some(d)
    }
    fn int(&mut self) -> Option<String> {
        self.opt(|p| {
            p.gap();
            let at = p.i;
            if p.rest().starts_with('-') {
                p.i += 1;
            }
            p.digits()?;
            Some(p.s[at..p.i].to_string())
        })
    }
    fn float(&mut self) -> Option<String> {
        self.opt(|p| {
            p.gap();
            let at = p.i;
            if p.rest().starts_with('-') {
                p.i += 1;
            }
            p.digits()?;
            if !p.rest().starts_with('.') {
                return None;
            }
            p.i += 1;
            p.digits()?;
            Some(p.s[at..p.i].to_string())
        })
    }
    fn keyword(&mut self, x: &str) -> Option<()> {
        self.opt(|p| {
            p.t(x)?;
            if p.rest().starts_with(word) { None } else { Some(()) }
        })
    }
    fn quoted(&mut self, q: char) -> Option<String> {
        self.opt(|p| {
            p.gap();
            let r = p.rest();
            let mut it = r.char_indices();
            if it.next()?.1 != q {
                return None;
            }
            let mut out = String::new();
            loop {
                let (at, c) = it.next()?;
                if c == '\n' {
                    p.multi = true;
                }
                if c == q {
                    p.i += at + 1;
                    return Some(out);
                }
                if c != '\\' {
                    out.push(c);
                    continue;
                }
                let (at, c) = it.next()?;
                match c {
                    'n' => out.push('\n'),
                    't' => out.push('\t'),
                    'r' => out.push('\r'),
                    '0' => out.push('\0'),
                    'u' => {
                        let tail = &r[at + 1..];
                        let code = tail
                            .strip_prefix('{')
                            .and_then(|x| x.split_once('}'))
                            .filter(|x| !x.0.is_empty() && x.0.chars().all(|c| c.is_ascii_hexdigit()))
                            .and_then(|x| Some((char::from_u32(u32::from_str_radix(x.0, 16).ok()?)?, x.0.len() + 2)));
                        match code {
                            Some((c, n)) => {
                                out.push(c);
                                for _ in 0..n {
                                    it.next();
                                }
                            }
                            None => {
                                if tail.starts_with("{+") {
                                    p.multi = true;
                                }
                                out.push('u')
                            }
                        }
                    }
                    c => {
                        if c == '\n' {
                            p.multi = true;
                        }
                        out.push(c)
                    }
                }
            }
        })
    }
    fn name(&mut self) -> Option<String> {
        self.ident().or_else(|| self.quoted('"'))
    }
    fn anchor(&mut self, c: &str) -> Option<String> {
        self.opt(|p| {
            p.t(c)?;
            p.sp();
            p.int()
        })
    }

    // ------------------------------------------------------------ types

    fn nul(&mut self) -> Nul {
        if self.t("?").is_some() {
            Nul::Yes
        } else if self.t("⁉").is_some() {
            Nul::Unspecified
        } else {
            Nul::No
        }
    }
    fn no_case(&mut self, x: &str) -> Option<()> {
        self.opt(|p| {
            p.gap();
            let got = p.rest().get(..x.len())?;
            if !got.eq_ignore_ascii_case(x) {
                return None;
            }
            p.i += x.len();
            Some(())
        })
    }
    fn params(&mut self) -> Option<Vec<Option<STy>>> {
        self.opt(|p| {
            p.t("<")?;
            let v = p.list(
                |p| p.comma1(),
                |p| {
                    if let Some(t) = p.ty() {
                        return Some(Some(t));
                    }
                    if p.int().is_some() || p.name().is_some() {
                        return Some(None);
                    }
                    None
                },
            );
            p.t(">")?;
            Some(v)
        })
    }
    fn ty(&mut self) -> Option<STy> {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel == 0 {
            return None;
        }
        for (i, s) in SIMPLE.iter().enumerate() {
            if self.keyword(s).is_some() {
                let n = self.nul();
                return Some(STy::Simple(i, n));
            }
        }
        if let Some(t) = self.opt(|p| {
            p.no_case("list")?;
            let n = p.nul();
            p.t("<")?;
            let e = p.ty()?;
            p.t(">")?;
            Some(STy::List(Box::new(e), n))
        }) {
            return Some(t);
        }
        if let Some(t) = self.opt(|p| {
            p.no_case("map")?;
            p.nul();
            p.t("<")?;
            p.ty()?;
            p.comma1()?;
            p.ty()?;
            p.t(">")?;
            Some(STy::Unsupported("map"))
        }) {
            return Some(t);
        }
        if let Some(t) = self.opt(|p| {
            p.no_case("struct")?;
            p.nul();
            p.params()?;
            Some(STy::Unsupported("struct"))
        }) {
            return Some(t);
        }
        for (i, s) in ["precisiontimestamptz", "precisiontimestamp", "precisiontime", "interval_day"].iter().enumerate() {
            if let Some(t) = self.opt(|p| {
                p.no_case(s)?;
                let n = p.nul();
                p.t("<")?;
                let x = p.int()?;
                p.t(">")?;
                Some(STy::Prec(i, x, n))
            }) {
                return Some(t);
            }
        }
        self.opt(|p| {
            p.t("u!");
            let name = p.ident()?;
            let anchor = p.anchor("#");
            let urn = p.anchor("@");
            let nul = p.nul();
            let params = p.params().unwrap_or_default();
            Some(STy::User { name, anchor, urn, nul, params })
        })
    }

    // ------------------------------------------------------ expressions

    fn tok(&mut self) -> Option<Tok> {
        if let Some(x) = self.float() {
            return Some(Tok::Float(x));
        }
        if let Some(x) = self.int() {
            return Some(Tok::Int(x));
        }
        for b in [true, false] {
            if self.keyword(if b { "true" } else { "false" }).is_some() {
                return Some(Tok::Bool(b));
            }
        }
        if let Some(s) = self.quoted('\'') {
            return Some(Tok::Str(s));
        }
        self.keyword("null").map(|_| Tok::Null)
    }
    fn reference(&mut self) -> Option<String> {
        self.opt(|p| {
            p.t("$")?;
            p.int()
        })
    }
    fn refs(&mut self) -> Vec<String> {
        self.list(|p| p.comma(), |p| p.reference())
    }
    /// `name`, `name:` or `name:arg_arg`, without spaces.
    fn signature(&mut self) -> Option<String> {
        self.opt(|p| {
            let mut s = p.ident()?;
            let short = |p: &mut Self| -> Option<String> {
                p.opt(|p| {
                    let pre = if p.rest().starts_with("u!") { "u!" } else { "" };
                    p.i += pre.len();
                    if !p.rest().starts_with(|c: char| c.is_ascii_alphabetic()) {
                        return None;
                    }
                    Some(format!("{pre}{}", p.run(|c| c.is_ascii_alphanumeric())))
                })
            };
            if p.rest().starts_with(':') {
                p.i += 1;
                s.push(':');
                if let Some(a) = short(p) {
                    s.push_str(&a);
                    while let Some(a) = p.opt(|p| {
                        if !p.rest().starts_with('_') {
                            return None;
                        }
                        p.i += 1;
                        short(p)
                    }) {
                        s.push('_');
                        s.push_str(&a);
                    }
                }
            }
            Some(s)
        })
    }
    fn call(&mut self) -> Option<SEx> {
        self.opt(|p| {
            let sig = p.signature()?;
            p.sp();
            let anchor = p.anchor("#");
            p.sp();
            let urn = p.anchor("@");
            p.sp();
            p.t("(")?;
            let args = p.list(|p| p.comma(), |p| p.expr());
            p.t(")")?;
            p.t(":")?;
            p.sp();
            let ty = p.ty()?;
            Some(SEx::Call { sig, anchor, urn, args, ty })
        })
    }
    fn expr(&mut self) -> Option<SEx> {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel == 0 {
            return None;
        }
        if let Some(e) = self.opt(|p| {
            p.t("if_then(")?;
            p.sp();
            let mut v = vec![];
            while let Some(c) = p.opt(|p| {
                let a = p.expr()?;
                p.sp();
                p.t("->")?;
                p.sp();
                let b = p.expr()?;
                p.comma()?;
                Some((a, b))
            }) {
                v.push(c);
            }
            if v.is_empty() {
                return None;
            }
            p.sp();
            p.t("_")?;
            p.sp();
            p.t("->")?;
            p.sp();
            let e = p.expr()?;
            p.t(")")?;
            Some(SEx::If(v, Box::new(e)))
        }) {
            return Some(e);
        }
        if let Some(e) = self.opt(|p| {
            p.t("(")?;
            p.sp();
            let e = p.expr()?;
            p.sp();
            p.t(")")?;
            p.sp();
            p.t("::")?;
            p.sp();
            let f = if p.t("?").is_some() {
                1
            } else if p.t("!").is_some() {
                2
            } else {
                0
            };
            p.sp();
            let t = p.ty()?;
            Some(SEx::Cast(Box::new(e), f, t))
        }) {
            return Some(e);
        }
        if let Some(e) = self.call() {
            return Some(e);
        }
        if let Some(r) = self.reference() {
            return Some(SEx::Ref(r));
        }
        let t = self.tok()?;
        let ty = self.opt(|p| {
            p.t(":")?;
            p.sp();
            p.ty()
        });
        Some(SEx::Lit(t, ty))
    }
    /// Spaces only before the first comma; elsewhere they are left open.
    fn exprs(&mut self) -> Option<Vec<SEx>> {
        self.opt(|p| {
            let mut v = vec![p.expr()?];
            p.sp();
            while let Some(e) = p.opt(|p| {
                p.comma1()?;
                p.expr()
            }) {
                v.push(e);
            }
            Some(v)
        })
    }

    // ------------------------------------------------- extension arguments

    fn arg(&mut self) -> Option<SArg> {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel == 0 {
            return None;
        }
        self.opt(|p| {
            let keep = p.i;
            let named = p.name().is_some() && {
                p.sp();
                p.at("=") && !p.at("=>")
            };
            p.i = keep;
            if named {
                return None;
            }
            if let Some(e) = p.opt(|p| {
                p.t("&")?;
                if p.lenient { p.ident() } else { p.rest().starts_with(|c: char| c.is_ascii_alphabetic()).then(|| p.run(word).to_string()) }
            }) {
                return Some(SArg::Enum(e));
            }
            if let Some(t) = p.opt(|p| {
                let t = p.tok()?;
                if p.at(":") {
                    return None;
                }
                // The name of a function?
                let keep = p.i;
                p.sp();
                let call = p.at("(") || p.at("#") || p.at("@");
                p.i = keep;
                if call { None } else { Some(t) }
            }) {
                return Some(SArg::Plain(t));
            }
            if let Some(r) = p.reference() {
                return Some(SArg::Ex(SEx::Ref(r)));
            }
            if let Some(e) = p.expr() {
                return Some(SArg::Ex(e));
            }
            // tuples
            p.t("(")?;
            p.sp();
            if p.t(")").is_some() {
                return Some(SArg::Tuple(vec![]));
            }
            let v = p.list(|p| p.comma(), |p| p.arg());
            if v.is_empty() {
                return None;
            }
            p.sp();
            let trailing = p.t(",").is_some();
            p.sp();
            p.t(")")?;
            if v.len() == 1 && !trailing {
                return None;
            }
            Some(SArg::Tuple(v))
        })
    }
    fn named_arg(&mut self) -> Option<(String, SArg)> {
        self.opt(|p| {
            let n = p.name()?;
            p.sp();
            p.t("=")?;
            p.sp();
            Some((n, p.arg()?))
        })
    }
    fn args(&mut self) -> (Vec<SArg>, Vec<(String, SArg)>) {
        if self.t("_").is_some() {
            return (vec![], vec![]);
        }
        let pos = self.list(|p| p.comma(), |p| p.arg());
        if pos.is_empty() {
            return (pos, self.list(|p| p.comma(), |p| p.named_arg()));
        }
        let named = self
            .opt(|p| {
                p.comma()?;
                let v = p.list(|p| p.comma(), |p| p.named_arg());
                (!v.is_empty()).then_some(v)
            })
            .unwrap_or_default();
        (pos, named)
    }
    fn ecol(&mut self) -> Option<SCol> {
        if let Some(c) = self.opt(|p| {
            let (n, t) = p.column()?;
            let keep = p.i;
            p.sp();
            let call = p.at("(") || p.at("#") || p.at("@");
            p.i = keep;
            if call { None } else { Some(SCol::Named(n, t)) }
        }) {
            return Some(c);
        }
        self.expr().map(SCol::Ex)
    }

    // -------------------------------------------------------- relations

    fn column(&mut self) -> Option<(String, STy)> {
        self.opt(|p| {
            let n = p.name()?;
            p.t(":")?;
            Some((n, p.ty()?))
        })
    }
    fn columns(&mut self) -> SCols {
        self.list(|p| p.comma1(), |p| p.column())
    }
    /// A line break with its marker.
    fn brk(&mut self) -> Option<()> {
        self.opt(|p| {
            p.sp();
            if p.rest().starts_with("\r\n") {
                p.i += 2;
            } else if p.rest().starts_with('\n') {
                p.i += 1;
            } else {
                // a lone carriage return is left open
                p.multi |= p.rest().starts_with('\r');
                return None;
            }
            p.sp();
            if !p.rest().starts_with("- ") {
                return None;
            }
            p.i += 2;
            p.sp();
            Some(())
        })
    }
    fn row_comma(&mut self) -> Option<()> {
        self.opt(|p| {
            p.sp();
            p.t(",")?;
            if p.brk().is_none() {
                p.sp();
            }
            Some(())
        })
    }
    fn virt(&mut self) -> Option<SRel> {
        self.t("Read:Virtual")?;
        self.t("[")?;
        self.brk();
        let rows = self.list(
            |p| p.row_comma(),
            |p| {
                p.t("(")?;
                p.sp();
                let v = p.exprs().unwrap_or_default();
                p.sp();
                p.t(")")?;
                Some(v)
            },
        );
        if rows.is_empty() {
            self.t("_")?;
        }
        let filter = self.opt(|p| {
            p.row_comma()?;
            p.t("filter")?;
            p.sp();
            p.t("=")?;
            p.sp();
            p.expr()
        });
        if self.brk().is_none() {
            self.sp();
        }
        self.t("=>")?;
        self.sp();
        let c = self.columns();
        self.t("]")?;
        self.sp();
        Some(SRel::Virt(rows, filter, c))
    }
    fn grouping(&mut self) -> Option<Vec<SEx>> {
        if let Some(v) = self.opt(|p| {
            p.t("(")?;
            p.sp();
            let v = p.exprs()?;
            p.sp();
            p.t(")")?;
            let keep = p.i;
            p.sp();
            let cast = p.at("::");
            p.i = keep;
            if cast { None } else { Some(v) }
        }) {
            return Some(v);
        }
        self.t("_").map(|_| vec![])
    }
    fn pick(&mut self, xs: &[&str]) -> Option<usize> {
        // the longest one that fits
        let mut v: Vec<usize> = (0..xs.len()).collect();
        v.sort_by_key(|i| std::cmp::Reverse(xs[*i].len()));
        v.into_iter().find(|i| self.t(&format!("&{}", xs[*i])).is_some())
    }
    fn inv(&mut self, rel: bool) -> Option<SInv> {
        self.t(":")?;
        let name = self.name()?;
        self.t("[")?;
        if rel {
            self.sp();
        }
        let (pos, named) = self.args();
        let cols = if rel {
            self.opt(|p| {
                p.arrow()?;
                Some(p.list(|p| p.comma(), |p| p.ecol()))
            })
            .unwrap_or_default()
        } else {
            vec![]
        };
        self.t("]")?;
        Some(SInv { name, pos, named, cols })
    }
    fn rel(&mut self, top: bool) -> Option<SLine> {
        macro_rules! head {
            ($h:literal, $p:ident, $body:expr) => {
                if let Some(r) = self.opt(|$p| {
                    $p.t($h)?;
                    $p.t("[")?;
                    let r = $body;
                    $p.t("]")?;
                    Some(r)
                }) {
                    return Some(SLine::Rel(r));
                }
            };
        }
        if top {
            head!("Root", p, SRel::Root(p.list(|p| p.comma(), |p| p.name())));
        }
        head!("Read:Extension", p, SRel::RExt(p.columns()));
        if let Some(v) = self.opt(|p| p.virt()) {
            return Some(SLine::Rel(v));
        }
        head!("Read", p, {
            let mut t = vec![p.name()?];
            while let Some(n) = p.opt(|p| {
                p.t(".")?;
                p.name()
            }) {
                t.push(n);
            }
            p.sp();
            if p.t("=>").is_some() {
                p.sp();
                SRel::Read(t, p.columns(), None)
            } else {
                p.t("+>")?;
                p.sp();
                let c = p.columns();
                let e = p.opt(|p| {
                    p.sp();
                    p.t("|>")?;
                    p.sp();
                    Some(p.refs())
                });
                SRel::Read(t, c, e)
            }
        });
        head!("Filter", p, {
            let c = p.expr()?;
            p.arrow()?;
            SRel::Filter(c, p.refs())
        });
        head!("Project", p, SRel::Project(p.list(|p| p.comma(), |p| p.expr())));
        head!("Aggregate", p, {
            let sets = match p.grouping() {
                Some(first) => {
                    let mut v = vec![first];
                    p.sp();
                    while let Some(g) = p.opt(|p| {
                        p.comma1()?;
                        p.grouping()
                    }) {
                        v.push(g);
                    }
                    v
                }
                None => vec![p.exprs()?],
            };
            p.arrow()?;
            SRel::Agg { sets, outs: p.list(|p| p.comma(), |p| p.expr()) }
        });
        head!("Sort", p, {
            let f = if p.t("_").is_some() {
                vec![]
            } else {
                p.list(
                    |p| p.comma(),
                    |p| {
                        p.t("(")?;
                        p.sp();
                        let e = p.expr()?;
                        p.comma()?;
                        let d = p.pick(&SORT_DIRS)?;
                        p.sp();
                        p.t(")")?;
                        Some((e, d))
                    },
                )
            };
            p.arrow()?;
            SRel::Sort(f, p.refs())
        });
        head!("Fetch", p, {
            let v = p.list(
                |p| p.comma(),
                |p| {
                    let limit = p.t("limit").is_some();
                    if !limit {
                        p.t("offset")?;
                    }
                    p.sp();
                    p.t("=")?;
                    p.sp();
                    if let Some(i) = p.opt(|p| {
                        let i = p.int()?;
                        if p.at(":") || p.at(".") { None } else { Some(i) }
                    }) {
                        return Some((limit, SEx::Lit(Tok::Int(i), None)));
                    }
                    Some((limit, p.expr()?))
                },
            );
            if v.is_empty() {
                p.t("_")?;
            }
            p.arrow()?;
            SRel::Fetch(v, p.refs())
        });
        head!("Join", p, {
            let t = p.pick(&JOINS)?;
            p.comma()?;
            let c = p.expr()?;
            let post = p.opt(|p| {
                p.comma()?;
                p.t("post_filter")?;
                p.sp();
                p.t("=")?;
                p.sp();
                p.expr()
            });
            p.arrow()?;
            SRel::Join(t, c, post, p.refs())
        });
        head!("Set", p, {
            let o = p.pick(&SETS)?;
            p.arrow()?;
            SRel::Set(o, p.refs())
        });
        head!("Cross", p, SRel::Cross(p.refs()));
        for (k, h) in EXT_KINDS.iter().enumerate() {
            if let Some(i) = self.opt(|p| {
                p.t(h)?;
                p.inv(true)
            }) {
                return Some(SLine::Rel(SRel::Ext(k, i)));
            }
        }
        self.t("+")?;
        self.sp();
        for (k, h) in ["Ext", "Enh", "Opt"].iter().enumerate() {
            if let Some(i) = self.opt(|p| {
                p.t(h)?;
                p.inv(false)
            }) {
                return Some(SLine::Add(k, i));
            }
        }
        None
    }
}

// ------------------------------------------------------------- documents

struct Doc {
    lenient: bool,
    d: Decls,
    version: Option<MVersion>,
}

fn indent(line: &str) -> (usize, &str) {
    let l = line.trim_end();
    let n = l.len() - l.trim_start_matches(' ').len();
    (n / 2, &l[n / 2 * 2..])
}
fn number(s: &str) -> R<u32> {
    if s.starts_with('+') {
        return dunno("signed number");
    }
    s.parse().map_err(|_| Stop::Reject(format!("number: {s}")))
}

impl Doc {
    fn new(lenient: bool) -> Doc {
        Doc { lenient, d: Decls::default(), version: None }
    }
    fn p<'a>(&self, s: &'a str) -> P<'a> {
        P { s, i: 0, lenient: self.lenient, multi: false, fuel: 200_000 }
    }

    fn read(mut self, text: &str) -> R<MPlan> {
        let raw: Vec<&str> = text.split('\n').collect();
        let mut section = 0;
        let mut heading: Option<usize> = None;
        let mut trees: Vec<Node> = vec![];
        let mut k = 0;
        while k < raw.len() {
            let mut line = raw[k].to_string();
            let bare = raw[k].strip_suffix('\r').unwrap_or(raw[k]);
            k += 1;
            let (depth, _) = indent(bare);
            let mut many = false;
            if section == 3 {
                while k < raw.len() {
                    let (d, b) = indent(raw[k]);
                    if d == depth + 1 && b.starts_with("- ") {
                        line.push('\n');
                        line.push_str(raw[k]);
                        many = true;
                        k += 1;
                    } else {
                        break;
                    }
                }
            }
            if line.trim().is_empty() {
                continue;
            }
            if many && bare.trim().is_empty() {
                return no("continuation of nothing");
            }
            let (depth, body) = indent(&line);
            if depth == 0 && body.starts_with("===") {
                let s = match body {
                    "=== Plan" => 3,
                    "=== Extensions" => 2,
                    _ => match body.strip_prefix("=== Version") {
                        Some(v) if v.starts_with(' ') => {
                            let parts: Vec<&str> = v.trim().split('.').collect();
                            if parts.len() != 3 {
                                return no("version");
                            }
                            self.version = Some(MVersion {
                                major: number(parts[0])?,
                                minor: number(parts[1])?,
                                patch: number(parts[2])?,
                                producer: String::new(),
                                git: String::new(),
                            });
                            1
                        }
                        _ => return no(format!("header: {body}")),
                    },
                };
                if s <= section {
                    return no("section order");
                }
                section = s;
                heading = None;
                continue;
            }
            match section {
                0 => return no("before the first section"),
                1 => {
                    if depth != 1 {
                        return no("version detail indentation");
                    }
                    let Some((key, v)) = body.split_once(':') else { return no("version detail") };
                    let ver = self.version.as_mut().unwrap();
                    let f = match key.trim() {
                        "producer" => &mut ver.producer,
                        "git_hash" => &mut ver.git,
                        _ => return no("version detail key"),
                    };
                    if !f.is_empty() {
                        return no("repeated version detail");
                    }
                    *f = v.trim().to_string();
                }
                2 => match depth {
                    0 => {
                        let h = ["URNs:", "Functions:", "Types:", "Type Variations:"].iter().position(|h| *h == body);
                        if h.is_none() {
                            return no(format!("heading: {body}"));
                        }
                        heading = h;
                    }
                    1 => {
                        let Some(h) = heading else { return no("declaration without heading") };
                        self.declare(h, body)?;
                    }
                    _ => return no("declaration indentation"),
                },
                _ => {
                    let mut p = self.p(body);
                    let r = p.rel(depth == 0);
                    if p.fuel == 0 {
                        return dunno("too deep");
                    }
                    if p.multi {
                        return dunno("quoted line break or odd escape");
                    }
                    let Some(r) = r else { return no(format!("syntax: {body}")) };
                    let rest = p.rest();
                    if rest.contains('\n') {
                        return no("continuation line");
                    }
                    let virt = matches!(r, SLine::Rel(SRel::Virt(..)));
                    if rest.trim_start().starts_with("//") {
                        if virt {
                            return dunno("comment after a virtual table");
                        }
                    } else if !rest.trim().is_empty() {
                        return no(format!("trailing text: {rest}"));
                    }
                    self.add(&mut trees, depth, r)?;
                }
            }
        }
        self.d.sort();
        let trees = trees.into_iter().map(|t| self.tree(t)).collect::<R<Vec<_>>>()?;
        Ok(MPlan { version: self.version, decls: self.d, trees })
    }

    fn declare(&mut self, h: usize, s: &str) -> R<()> {
        let mut p = self.p(s);
        if h == 0 {
            let x = (|| {
                let a = p.anchor("@")?;
                p.t(":")?;
                p.sp();
                let u = p.run(|c| c != ' ');
                (!u.is_empty() && p.rest().is_empty()).then_some((a, u.to_string()))
            })();
            let Some((a, u)) = x else { return no("URN declaration") };
            let a = number(&a)?;
            if self.d.urns.iter().any(|x| x.0 == a) {
                return no("duplicate URN anchor");
            }
            self.d.urns.push((a, u));
            return Ok(());
        }
        let x = (|| {
            let a = p.anchor("#")?;
            p.sp();
            let u = p.anchor("@")?;
            p.sp();
            p.t(":")?;
            p.sp();
            let pre = p.t("u!").is_some();
            let n = p.signature()?;
            p.gap();
            p.rest().is_empty().then_some((a, u, pre, n))
        })();
        let Some((a, u, pre, n)) = x else { return no("declaration") };
        let (a, u) = (number(&a)?, number(&u)?);
        if (pre && h != 2) || (h != 1 && n.contains(':')) {
            return no("declared name");
        }
        if !self.d.urns.iter().any(|x| x.0 == u) {
            return no("undeclared URN");
        }
        let v = match h {
            1 => &mut self.d.funcs,
            2 => &mut self.d.types,
            _ => &mut self.d.tvars,
        };
        if v.iter().any(|x| x.anchor == a) {
            return no("duplicate anchor");
        }
        v.push(Decl { anchor: a, urn: u, name: n });
        Ok(())
    }

    fn add(&self, trees: &mut Vec<Node>, depth: usize, l: SLine) -> R<()> {
        if depth == 0 {
            return match l {
                SLine::Rel(rel) => {
                    trees.push(Node { rel, add: vec![], kids: vec![] });
                    Ok(())
                }
                SLine::Add(..) => no("addendum at the top"),
            };
        }
        let Some(mut n) = trees.last_mut() else { return no("no parent") };
        for _ in 1..depth {
            let Some(x) = n.kids.last_mut() else { return no("no parent") };
            n = x;
        }
        match l {
            SLine::Rel(rel) => n.kids.push(Node { rel, add: vec![], kids: vec![] }),
            SLine::Add(k, i) => {
                if !n.kids.is_empty() {
                    return no("addendum after inputs");
                }
                n.add.push((k, i));
            }
        }
        Ok(())
    }

    // ------------------------------------------------- names and values

    fn tree(&self, t: Node) -> R<MTree> {
        let Node { rel, add, mut kids } = t;
        match rel {
            SRel::Root(names) => {
                if kids.len() != 1 || !add.is_empty() {
                    return no("root");
                }
                Ok(MTree { root: Some(names), rel: self.rel(kids.pop().unwrap())? })
            }
            rel => Ok(MTree { root: None, rel: self.rel(Node { rel, add, kids })? }),
        }
    }
    fn rel(&self, n: Node) -> R<MRel> {
        let kids = n.kids.into_iter().map(|k| self.rel(k)).collect::<R<Vec<_>>>()?;
        let want = match &n.rel {
            SRel::Root(_) => return no("root inside"),
            SRel::Read(..) | SRel::Virt(..) | SRel::RExt(_) | SRel::Ext(0, _) => 0..=0,
            SRel::Join(..) | SRel::Cross(_) => 2..=2,
            SRel::Set(..) => 2..=usize::MAX,
            SRel::Ext(2, _) => 0..=usize::MAX,
            _ => 1..=1,
        };
        if !want.contains(&kids.len()) {
            return no("number of inputs");
        }
        let mut ext = None;
        let mut enh = None;
        let mut opts = vec![];
        for (k, i) in n.add {
            if matches!(n.rel, SRel::Ext(..)) {
                return no("addendum on an extension");
            }
            let i = self.inv(i, k + 1)?;
            match k {
                0 if ext.is_some() || !matches!(n.rel, SRel::RExt(_)) => return no("table detail"),
                0 => ext = Some(i),
                1 if enh.is_some() => return no("second enhancement"),
                1 => enh = Some(i),
                _ => opts.push(i),
            }
        }
        let op = match n.rel {
            SRel::Root(_) => unreachable!(),
            SRel::Read(table, cols, emit) => Op::Read { table, cols: self.cols(cols)?, emit: emit.map(|e| self.emit(e)).transpose()? },
            SRel::RExt(cols) => match ext {
                None => return no("no table detail"),
                Some(inv) => Op::RExt { cols: self.cols(cols)?, inv },
            },
            SRel::Virt(rows, filter, cols) => Op::Virt {
                rows: rows.into_iter().map(|r| self.exs(r)).collect::<R<_>>()?,
                filter: filter.map(|f| self.ex(f)).transpose()?,
                cols: self.cols(cols)?,
            },
            SRel::Filter(c, e) => Op::Filter { cond: self.ex(c)?, emit: self.emit(e)? },
            SRel::Project(v) => Op::Project {
                outs: v
                    .into_iter()
                    .map(|e| {
                        Ok(match e {
                            SEx::Ref(r) => POut::Ref(self.index(&r)? as usize),
                            e => POut::Ex(self.ex(e)?),
                        })
                    })
                    .collect::<R<_>>()?,
            },
            SRel::Agg { sets, outs } => {
                let key = |e: &Ex| Enc::canon().ex(e).encode_to_vec();
                let mut g: Vec<Ex> = vec![];
                let mut keys: Vec<Vec<u8>> = vec![];
                let mut s = vec![];
                for set in sets {
                    let mut v = vec![];
                    for e in self.exs(set)? {
                        let kk = key(&e);
                        v.push(keys.iter().position(|x| *x == kk).unwrap_or_else(|| {
                            g.push(e);
                            keys.push(kk);
                            g.len() - 1
                        }));
                    }
                    s.push(v);
                }
                let mut o = vec![];
                for e in outs {
                    let e = self.ex(e)?;
                    match keys.iter().position(|x| *x == key(&e)) {
                        Some(i) => o.push(AOut::G(i)),
                        None if matches!(e, Ex::Call(..)) => o.push(AOut::M(e)),
                        None => return no("aggregate output"),
                    }
                }
                Op::Agg { g, sets: s, outs: o }
            }
            SRel::Sort(f, e) => Op::Sort {
                fields: f.into_iter().map(|(e, d)| Ok((self.ex(e)?, d))).collect::<R<_>>()?,
                emit: self.emit(e)?,
            },
            SRel::Fetch(v, e) => {
                let (mut limit, mut offset) = (None, None);
                for (l, x) in v {
                    let x = self.ex(x)?;
                    if let Ex::Lit(Lit { v, .. }) = &x {
                        let n = match v {
                            LitV::I8(i) | LitV::I16(i) | LitV::I32(i) => *i as i64,
                            LitV::I64(i) => *i,
                            _ => 0,
                        };
                        if n < 0 {
                            return no("negative bound");
                        }
                    }
                    let slot = if l { &mut limit } else { &mut offset };
                    if slot.is_some() {
                        return no("repeated bound");
                    }
                    *slot = Some(x);
                }
                Op::Fetch { limit, offset, emit: self.emit(e)? }
            }
            SRel::Join(ty, c, post, e) => {
                Op::Join { ty, cond: self.ex(c)?, post: post.map(|x| self.ex(x)).transpose()?, emit: self.emit(e)? }
            }
            SRel::Set(op, e) => {
                if kids.iter().any(|k| k.width() != kids[0].width()) {
                    return no("set widths");
                }
                Op::Set { op, emit: self.emit(e)? }
            }
            SRel::Cross(e) => Op::Cross { emit: self.emit(e)? },
            SRel::Ext(kind, i) => Op::Ext { kind, inv: self.inv(i, 0)? },
        };
        Ok(MRel { op, kids, enh, opts })
    }
    fn index(&self, s: &str) -> R<i32> {
        s.parse().map_err(|_| Stop::Reject(format!("reference: {s}")))
    }
    fn emit(&self, v: Vec<String>) -> R<Vec<usize>> {
        v.iter().map(|x| Ok(self.index(x)? as usize)).collect()
    }
    fn cols(&self, v: SCols) -> R<Cols> {
        v.into_iter().map(|(n, t)| Ok((n, self.ty(t)?))).collect()
    }
    fn exs(&self, v: Vec<SEx>) -> R<Vec<Ex>> {
        v.into_iter().map(|e| self.ex(e)).collect()
    }
    fn nul(&self, n: Nul) -> R<bool> {
        match n {
            Nul::No => Ok(false),
            Nul::Yes => Ok(true),
            Nul::Unspecified => dunno("unspecified nullability"),
        }
    }
    fn resolve(&self, v: &[Decl], name: &str, anchor: Option<String>, urn: Option<String>, by_base: bool) -> R<u32> {
        let urn = urn.as_deref().map(number).transpose()?;
        let full = |d: &&Decl| d.name == name;
        let base = |d: &&Decl| by_base && !name.contains(':') && base_of(&d.name) == name;
        let d = match anchor.as_deref().map(number).transpose()? {
            Some(a) => v.iter().find(|d| d.anchor == a).filter(|d| full(d) || base(d)),
            None => {
                let mut m: Vec<&Decl> = v.iter().filter(full).collect();
                if by_base && !name.contains(':') {
                    m = v.iter().filter(base).collect();
                }
                if m.len() == 1 { Some(m[0]) } else { None }
            }
        };
        match d {
            None => no(format!("name: {name}")),
            Some(d) if urn.is_some_and(|u| u != d.urn) => no(format!("URN of a name: {name}")),
            Some(d) => Ok(d.anchor),
        }
    }
    fn ty(&self, t: STy) -> R<Ty> {
        Ok(match t {
            STy::Simple(i, n) => Ty { k: TyK::Simple(i), n: self.nul(n)? },
            STy::List(e, n) => Ty { k: TyK::List(Box::new(self.ty(*e)?)), n: self.nul(n)? },
            STy::Prec(k, p, n) => {
                let p: i32 = match p.parse() {
                    Ok(p) if (0..=12).contains(&p) => p,
                    _ => return no("precision"),
                };
                Ty { k: [TyK::PTsTz, TyK::PTs, TyK::PTime, TyK::IvDay][k](p), n: self.nul(n)? }
            }
            STy::Unsupported(x) => return no(format!("unsupported type: {x}")),
            STy::User { name, anchor, urn, nul, params } => {
                let mut ps = vec![];
                for x in params {
                    match x {
                        None => return no("type parameter"),
                        Some(t) => ps.push(self.ty(t)?),
                    }
                }
                let a = self.resolve(&self.d.types, &name, anchor, urn, false)?;
                Ty { k: TyK::User(a, ps), n: self.nul(nul)? }
            }
        })
    }
    fn ex(&self, e: SEx) -> R<Ex> {
        Ok(match e {
            SEx::Ref(r) => Ex::Ref(self.index(&r)?),
            SEx::If(v, e) => {
                let v = v.into_iter().map(|(a, b)| Ok((self.ex(a)?, self.ex(b)?))).collect::<R<_>>()?;
                Ex::If(v, Box::new(self.ex(*e)?))
            }
            SEx::Cast(e, f, t) => Ex::Cast(Box::new(self.ex(*e)?), self.ty(t)?, f),
            SEx::Call { sig, anchor, urn, args, ty } => {
                let args = self.exs(args)?;
                let ty = self.ty(ty)?;
                Ex::Call(self.resolve(&self.d.funcs, &sig, anchor, urn, true)?, args, ty)
            }
            SEx::Lit(t, ty) => Ex::Lit(self.lit(t, ty.map(|t| self.ty(t)).transpose()?)?),
        })
    }
    fn float(&self, s: &str) -> R<f64> {
        let f: f64 = s.parse().unwrap();
        if f.is_finite() { Ok(f) } else { no("infinite") }
    }
    fn lit(&self, t: Tok, ty: Option<Ty>) -> R<Lit> {
        let n = ty.as_ref().is_some_and(|t| t.n);
        let simple = ty.as_ref().and_then(|t| if let TyK::Simple(i) = t.k { Some(SIMPLE[i]) } else { None });
        let bad = no("literal type");
        let v = match t {
            Tok::Null => {
                return match ty {
                    None => no("untyped null"),
                    Some(t) => Ok(Lit { v: LitV::Null(t), n: false }),
                };
            }
            Tok::Bool(b) => match (&ty, simple) {
                (None, _) | (_, Some("boolean")) => LitV::Bool(b),
                _ => return bad,
            },
            Tok::Int(s) => {
                let Ok(i) = s.parse::<i64>() else { return no("integer range") };
                let fit = |lo: i64, hi: i64| if (lo..=hi).contains(&i) { Ok(i as i32) } else { no("integer range") };
                match (&ty, simple) {
                    (None, _) | (_, Some("i64")) => LitV::I64(i),
                    (_, Some("i8")) => LitV::I8(fit(-128, 127)?),
                    (_, Some("i16")) => LitV::I16(fit(-32768, 32767)?),
                    (_, Some("i32")) => LitV::I32(fit(i32::MIN as i64, i32::MAX as i64)?),
                    _ => return bad,
                }
            }
            Tok::Float(s) => match (&ty, simple) {
                (None, _) | (_, Some("fp64")) => LitV::F64(self.float(&s)?),
                (_, Some("fp32")) => {
                    let f = s.parse::<f64>().unwrap() as f32;
                    if f.is_infinite() != s.parse::<f32>().unwrap().is_infinite() || (f.is_finite() && f != s.parse::<f32>().unwrap()) {
                        return dunno("double rounding");
                    }
                    if f.is_infinite() {
                        return no("infinite");
                    }
                    LitV::F32(f)
                }
                _ => return bad,
            },
            Tok::Str(s) => match ty.as_ref().map(|t| &t.k) {
                None => LitV::Str(s),
                Some(TyK::Simple(i)) => match SIMPLE[*i] {
                    "string" => LitV::Str(s),
                    "date" => LitV::Date(date(&s)?),
                    "time" => LitV::Time(time(&s, 6)?),
                    "timestamp" => LitV::Ts(stamp(&s, 6)?),
                    _ => return bad,
                },
                Some(TyK::PTime(p)) => LitV::PTime(*p, time(&s, *p)?),
                Some(TyK::PTs(p)) => LitV::PTs(*p, stamp(&s, *p)?),
                Some(TyK::PTsTz(p)) => LitV::PTsTz(*p, stamp(&s, *p)?),
                Some(TyK::IvDay(p)) => interval(&s, *p)?,
                _ => return bad,
            },
        };
        Ok(Lit { v, n })
    }
    fn arg(&self, a: SArg) -> R<Arg> {
        Ok(match a {
            SArg::Enum(e) => Arg::Enum(e),
            SArg::Tuple(v) => Arg::Tuple(v.into_iter().map(|x| self.arg(x)).collect::<R<_>>()?),
            SArg::Plain(Tok::Null) => Arg::Null,
            SArg::Plain(Tok::Bool(b)) => Arg::Bool(b),
            SArg::Plain(Tok::Str(s)) => Arg::Str(s),
            SArg::Plain(Tok::Float(s)) => Arg::Float(self.float(&s)?),
            SArg::Plain(Tok::Int(s)) => match s.parse() {
                Ok(i) => Arg::Int(i),
                Err(_) => return no("integer range"),
            },
            SArg::Ex(e) => match self.ex(e)? {
                Ex::Lit(Lit { v: LitV::I64(i), n: false }) => Arg::Int(i),
                Ex::Lit(Lit { v: LitV::F64(i), n: false }) => Arg::Float(i),
                Ex::Lit(Lit { v: LitV::Str(i), n: false }) => Arg::Str(i),
                Ex::Lit(Lit { v: LitV::Bool(i), n: false }) => Arg::Bool(i),
                e => Arg::Ex(e),
            },
        })
    }
    /// What the handler of namespace `ns` gets.
    fn inv(&self, i: SInv, ns: usize) -> R<Inv> {
        let pos = i.pos.into_iter().map(|a| self.arg(a)).collect::<R<Vec<_>>>()?;
        let mut named: Vec<(String, Arg)> = vec![];
        for (k, a) in i.named {
            if named.iter().any(|x| x.0 == k) {
                return no("repeated argument");
            }
            named.push((k, self.arg(a)?));
        }
        let cols = i
            .cols
            .into_iter()
            .map(|c| {
                Ok(match c {
                    SCol::Named(n, t) => ECol::Named(n, self.ty(t)?),
                    SCol::Ex(e) => ECol::Ex(self.ex(e)?),
                })
            })
            .collect::<R<Vec<_>>>()?;
        let Some(which) = NAMES.iter().position(|n| *n == i.name) else { return no("unregistered extension") };
        if which == CTX && ns == 0 {
            named.retain(|x| x.0 != "inputs");
        }
        let rank = |k: &str| KEYS.iter().position(|x| *x == k);
        if named.iter().any(|x| rank(&x.0).is_none()) {
            return no("unknown argument");
        }
        named.sort_by_key(|x| rank(&x.0));
        Ok(Inv { which, pos, named, cols })
    }
}

// ---------------------------------------------------------- dates, times

fn num(s: &str) -> i64 {
    s.parse().unwrap()
}
/// Whether `s` has the shape of `pat`, where 0 stands for a digit.
fn shape(s: &str, pat: &str) -> bool {
    s.len() == pat.len() && s.bytes().zip(pat.bytes()).all(|(a, b)| if b == b'0' { a.is_ascii_digit() } else { a == b })
}
/// Other spellings may or may not be read; letters never are.
fn other<T>(s: &str) -> R<T> {
    if s.chars().any(|c| c.is_alphabetic() && !"tT".contains(c)) || !s.contains(|c: char| c.is_ascii_digit()) {
        return no("not a date or time");
    }
    dunno("unusual date or time")
}
fn date(s: &str) -> R<i32> {
    // Years that do not have four digits have a sign.
    let (sign, tail) = match s.as_bytes().first() {
        Some(b'-') => (-1, &s[1..]),
        Some(b'+') => (1, &s[1..]),
        _ => (0, s),
    };
    let n = tail.len() - tail.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    if n < 4 || (sign == 0 && n != 4) || n > 6 || !(shape(&tail[n..], "-00-00") || shape(&tail[n..], "/00/00")) {
        return other(s);
    }
    let (y, m, d) = (num(&tail[..n]) * if sign < 0 { -1 } else { 1 }, num(&tail[n + 1..n + 3]), num(&tail[n + 4..]));
    if !(-262_143..=262_142).contains(&y) {
        return no("far year");
    }
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&m) || d < 1 || d > len[m as usize - 1] {
        return no("impossible date");
    }
    // Days before a year, counted from far back.
    let before = |y: i64| {
        let y = y + 400_000;
        let y1 = y - 1;
        y * 365 + y1 / 4 - y1 / 100 + y1 / 400
    };
    Ok((before(y) - before(1970) + len[..m as usize - 1].iter().sum::<i64>() + d - 1) as i32)
}
/// Seconds and nanoseconds of the day.
fn clock(s: &str) -> R<(i64, i64)> {
    let (hms, frac) = match s.split_once('.') {
        Some((a, b)) => (a, b),
        None => (s, ""),
    };
    if !shape(hms, "00:00:00") || !frac.bytes().all(|c| c.is_ascii_digit()) || (frac.is_empty() && s.contains('.')) {
        return other(s);
    }
    let (h, m, x) = (num(&hms[..2]), num(&hms[3..5]), num(&hms[6..]));
    if h > 23 || m > 59 || x > 59 {
        return no("impossible time");
    }
    if frac.bytes().skip(9).any(|c| c != b'0') {
        return no("too fine");
    }
    let nine: String = frac.chars().chain("000000000".chars()).take(9).collect();
    Ok((h * 3600 + m * 60 + x, num(&nine)))
}
fn scaled(secs: i64, nanos: i64, p: i32) -> R<i64> {
    let unit = match p {
        0 | 3 | 6 | 9 => 10i128.pow(9 - p as u32),
        _ => return no("precision of a literal"),
    };
    let v = secs as i128 * 1_000_000_000 + nanos as i128;
    if v % unit != 0 {
        return no("too fine");
    }
    match i64::try_from(v / unit) {
        Ok(x) => Ok(x),
        Err(_) => no("out of range"),
    }
}
fn time(s: &str, p: i32) -> R<i64> {
    scaled(0, 0, p)?;
    let (a, b) = clock(s)?;
    scaled(a, b, p)
}
fn stamp(s: &str, p: i32) -> R<i64> {
    scaled(0, 0, p)?;
    let Some((a, b)) = s.rsplit_once(['T', ' ']) else { return other(s) };
    let d = date(a)?;
    let (a, b) = clock(b)?;
    scaled(d as i64 * 86_400 + a, b, p)
}
fn interval(s: &str, p: i32) -> R<LitV> {
    if ![0, 3, 6, 9, 12].contains(&p) {
        return no("precision of a literal");
    }
    let units = [("d", 0), ("ms", 2), ("us", 3), ("ns", 4), ("ps", 5), ("s", 1)];
    let (mut days, mut secs, mut sub) = (0i32, 0i32, 0i64);
    let mut last = -1i32;
    for t in s.split(' ') {
        let digits = t.strip_prefix('-').unwrap_or(t);
        let n = digits.len() - digits.trim_start_matches(|c: char| c.is_ascii_digit()).len();
        let cut = t.len() - digits.len() + n;
        let Some((_, k)) = units.iter().find(|u| u.0 == &t[cut..]) else { return no("interval unit") };
        let rank = (*k).min(2);
        if n == 0 || rank <= last {
            return no("interval term");
        }
        last = rank;
        let v = &t[..cut];
        let big = || Stop::Reject("interval range".into());
        match rank {
            0 => days = v.parse().map_err(|_| big())?,
            1 => secs = v.parse().map_err(|_| big())?,
            _ => {
                if (*k - 1) * 3 != p {
                    return no("interval precision");
                }
                sub = v.parse().map_err(|_| big())?;
            }
        }
    }
    Ok(LitV::IvDay { p, days, secs, sub })
}
