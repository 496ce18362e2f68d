//! Random plans of the model, biased towards collisions, boundaries and unusual names.
use crate::ext;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_rels: usize,
    pub expr_depth: usize,
    pub ext: bool,
    pub version: bool,
    /// Out of 10: how often a name is an arbitrary string.
    pub weird: usize,
    pub max_trees: usize,
    /// Many declarations with colliding names.
    pub collide: bool,
    /// One plan in this many is far larger than usual in one respect; 0 for none.
    pub big: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_rels: 7, expr_depth: 3, ext: true, version: true, weird: 3, max_trees: 3, collide: true, big: 12 }
    }
}

pub struct Gen {
    pub r: Rng,
    pub c: Cfg,
    pub d: Decls,
    budget: usize,
    /// Which dimension is large in this plan, and how often that may still be used.
    dim: Dim,
    fuel: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dim {
    None,
    Cols,
    Outs,
    Args,
    Cases,
    Rows,
    Inputs,
    Opts,
    Pos,
    Tuple,
    ECols,
    Sort,
    Groups,
    Sets,
    Text,
    Rels,
    Trees,
    Decls,
    Types,
    Depth,
    Path,
}
const DIMS: [Dim; 20] = [
    Dim::Cols, Dim::Outs, Dim::Args, Dim::Cases, Dim::Rows, Dim::Inputs, Dim::Opts, Dim::Pos, Dim::Tuple, Dim::ECols, Dim::Sort,
    Dim::Groups, Dim::Sets, Dim::Text, Dim::Rels, Dim::Trees, Dim::Decls, Dim::Types, Dim::Depth, Dim::Path,
];

const IDENTS: [&str; 26] = [
    "a", "b", "c", "id", "name", "Value", "x1", "col_2", "UPPER", "filter", "Read", "null", "true", "false", "if_then",
    "limit", "offset", "Root", "i64", "list", "string", "Enh", "e", "z_", "u", "post_filter",
];
const FRAGS: [&str; 40] = [
    "", " ", "  ", "\"", "'", "\\", "\\\\", "\\\"", "\\n", "\n", "\r\n", "\t", "\0", "\u{7f}", "\u{1b}", "=>", "+>",
    "|>", "]", "[", "(", ")", ",", ", ", ":", ".", "$0", "#1", "@2", "- ", "+ Enh:", "===", "é", "ключ", "漢字",
    "\u{301}", "\u{200b}", "\u{feff}", "\u{1F600}", "!{x}",
];

/// An arbitrary string; favours characters that matter to quoting.
pub fn any_string(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.upto(4) {
        match r.below(7) {
            0 | 1 | 2 => s.push_str(r.pick::<&str>(&FRAGS)),
            3 => s.push_str(r.pick::<&str>(&IDENTS)),
            4 => s.push(char::from(r.below(128) as u8)),
            5 => s.push(any_char(r)),
            _ => s.push_str(&r.range(-100, 1000).to_string()),
        }
    }
    s
}
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(4) {
            0 => r.below(0x300) as u32,
            1 => r.below(0x3000) as u32,
            2 => r.below(0x11_0000) as u32,
            _ => *r.pick(&[0x85, 0xa0, 0xad, 0x2028, 0x2029, 0x202e, 0xfeff, 0xfffd, 0xffff, 0x10ffff, 0xd7ff, 0xe000]),
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn ident(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        return r.pick::<&str>(&IDENTS).to_string();
    }
    let first = b"abcxyzABCXYZ";
    let rest = b"abz019_AZ";
    let mut s = String::new();
    s.push(*r.pick(first) as char);
    for _ in 0..r.upto(6) {
        s.push(*r.pick(rest) as char);
    }
    s
}

pub fn days_of(y: i64, m: u32, d: u32) -> i64 {
    // inverse of `civil`, by days-from-civil
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
/// First and last day that a date literal can be written for.
pub fn day_min() -> i64 {
    days_of(-262143, 1, 1)
}
pub fn day_max() -> i64 {
    days_of(262142, 12, 31)
}

pub fn any_day(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => day_min() + r.below(3) as i64,
        1 => day_max() - r.below(3) as i64,
        2 => r.range(-3, 3),
        3 => {
            let y = *r.pick(&[0i64, -1, 1, 4, 100, 400, 999, 1000, 1900, 2000, 2024, 9999, 10000, -9999, -10000, 99999]);
            days_of(y, 1, 1) + r.range(-1, 1)
        }
        4 => {
            let y = *r.pick(&[1900i64, 2000, 2023, 2024, 1600, 0, -4]);
            days_of(y, 3, 1) + r.range(-2, 1)
        }
        5 => r.range(-100_000, 100_000),
        6 => r.range(days_of(-20000, 1, 1), days_of(20000, 1, 1)),
        _ => r.range(day_min(), day_max()),
    }
}
/// Time of day in units of 10^-p seconds.
pub fn any_tod(r: &mut Rng, p: i32) -> i64 {
    let u = 10i64.pow(p as u32);
    let secs = match r.below(5) {
        0 => 0,
        1 => 86399,
        2 => *r.pick(&[59i64, 60, 3599, 3600, 43199, 43200, 35999, 36000]),
        _ => r.range(0, 86399),
    };
    let sub = match r.below(6) {
        0 => 0,
        1 => u - 1,
        2 => 1.min(u - 1),
        3 => (u / 10) * r.below(10) as i64,
        4 => r.range(0, u - 1) / 1000 * 1000 % u,
        _ => r.range(0, u - 1),
    };
    secs * u + sub
}
pub fn any_ts(r: &mut Rng, p: i32) -> i64 {
    let u = 10i64.pow(p as u32);
    if p == 9 {
        return match r.below(5) {
            0 => r.edgy(i64::MIN, i64::MAX),
            _ => r.range(-106750, 106750) * 86400 * u + any_tod(r, 9),
        };
    }
    let d = any_day(r);
    let v = d as i128 * 86400 * u as i128 + any_tod(r, p) as i128;
    v.clamp(i64::MIN as i128, i64::MAX as i128) as i64
}

thread_local! {
    /// Only generate doubles that serde_json reads exactly (see the known finding of C13).
    pub static JSON_EXACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn json_exact(f: f64) -> bool {
    serde_json::from_str::<f64>(&serde_json::to_string(&f).unwrap()).is_ok_and(|x| x.to_bits() == f.to_bits())
}
pub fn any_f64(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(8) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1e15, 1e16, 1e17, 1e21, 123456789.125, 1e-7, f64::MIN_POSITIVE]),
            1 => *r.pick(&[f64::MAX, f64::MIN, 5e-324, -5e-324, f64::EPSILON, 9007199254740993.0, 1.7976931348623155e308]),
            2 => r.range(-1000, 1000) as f64,
            3 => r.range(-100000, 100000) as f64 / 100.0,
            4 => r.range(i64::MIN, i64::MAX) as f64,
            _ => f64::from_bits(r.u64()),
        };
        if f.is_finite() && (!JSON_EXACT.get() || json_exact(f)) {
            return f;
        }
    }
}
pub fn any_f32(r: &mut Rng) -> f32 {
    loop {
        let f = match r.below(6) {
            0 => *r.pick(&[0.0f32, -0.0, 1.0, 0.1, 16777217.0, 3.4028235e38, -3.4028235e38, 1e-45, 1.1754944e-38, 1e10]),
            1 => r.range(-1000, 1000) as f32,
            2 => r.range(-100000, 100000) as f32 / 8.0,
            _ => f32::from_bits(r.u64() as u32),
        };
        if f.is_finite() && (!JSON_EXACT.get() || f.abs() != f32::MAX) {
            return f;
        }
    }
}

pub fn anchor(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0,
        1 => *r.pick(&[u32::MAX, u32::MAX - 1, i32::MAX as u32, i32::MAX as u32 + 1, 999, 1000, 1001]),
        2 => r.u64() as u32,
        3 => r.below(2000) as u32,
        _ => r.below(12) as u32,
    }
}

const FN_BASE: [&str; 19] = [
    "add", "equal", "sum", "count", "gt", "f", "nullif", "true_fn", "falsey", "if_then_x", "if_then", "true", "null", "Add", "i64", "list", "Read",
    "filter", "x_1",
];
const SIGS: [&str; 12] = ["", "i64", "i64_i64", "any_any", "str", "u!json", "u!json_str", "dec_dec", "fp64_i32", "x", "i64_any", "list"];
const TYPE_NAMES: [&str; 13] = [
    "point", "json", "date_range", "i64x", "geo_point", "Point", "timestamps", "listing", "mapper", "structure", "null_t",
    "u8", "interval_days",
];
const SIMPLE: [&str; 15] = [
    "boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp_tz", "timestamp", "date", "time",
    "interval_year", "uuid",
];
const COMPOUND: [&str; 7] =
    ["list", "map", "struct", "precisiontimestamptz", "precisiontimestamp", "precisiontime", "interval_day"];
/// Whether a type name without prefix means a built-in type (those with parameters in any case).
pub fn built_in(name: &str) -> bool {
    SIMPLE.contains(&name) || COMPOUND.contains(&name.to_ascii_lowercase().as_str())
}

impl Gen {
    pub fn new(r: Rng, c: Cfg) -> Gen {
        let mut g = Gen { r, c, d: Decls::default(), budget: 0, dim: Dim::None, fuel: 0 };
        if g.c.big > 0 && g.r.chance(1, g.c.big) {
            g.dim = *g.r.pick(&DIMS);
            g.fuel = 1 + g.r.below(3);
        }
        g
    }
    pub fn dim(&self) -> Dim {
        self.dim
    }
    /// The usual count, or a large one if this is the dimension of this plan.
    fn many(&mut self, d: Dim, usual: usize) -> usize {
        if self.dim != d || self.fuel == 0 || !self.r.chance(2, 3) {
            return usual;
        }
        self.fuel -= 1;
        *self.r.pick(&[7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 26, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257])
    }
    /// Like `many`, for what nests.
    fn deep(&mut self, d: Dim, usual: usize) -> usize {
        if self.dim != d || self.fuel == 0 || !self.r.chance(2, 3) {
            return usual;
        }
        self.fuel -= 1;
        5 + self.r.below(8)
    }
    fn long_ident(&mut self) -> String {
        let mut s = ident(&mut self.r);
        let n = self.many(Dim::Text, 0);
        while s.len() < n {
            s.push_str("x_1");
        }
        s
    }
    /// A string; sometimes a long one.
    fn string(&mut self) -> String {
        let n = self.many(Dim::Text, 0);
        let mut s = any_string(&mut self.r);
        let fill = self.r.coin();
        while s.chars().count() < n {
            let x = if fill { "abcdefghij".to_string() } else { any_string(&mut self.r) };
            s.push_str(&x);
        }
        s
    }

    pub fn urn(&mut self) -> String {
        match self.r.below(4) {
            0 => format!("extension:io.substrait:functions_{}", ident(&mut self.r)),
            1 => format!("https://example.com/{}.yaml#{}", ident(&mut self.r), self.r.below(9)),
            2 => "/urn/common".into(),
            _ => {
                // no spaces or line breaks, nothing that trims away
                let s: String = (0..1 + self.r.below(6))
                    .map(|_| match self.r.below(3) {
                        0 => *self.r.pick(&[':', '#', '@', '/', '=', '[', '"', '\'', '\\', '%', 'é', '漢']),
                        _ => (33 + self.r.below(94)) as u8 as char,
                    })
                    .collect();
                s
            }
        }
    }
    pub fn fname(&mut self) -> String {
        let base = if self.c.collide || self.r.coin() {
            self.r.pick::<&str>(&FN_BASE).to_string()
        } else {
            ident(&mut self.r)
        };
        if self.r.chance(2, 5) { base } else { format!("{base}:{}", self.r.pick::<&str>(&SIGS)) }
    }
    pub fn tname(&mut self) -> String {
        if self.r.chance(4, 5) {
            return self.r.pick::<&str>(&TYPE_NAMES).to_string();
        }
        match self.r.below(4) {
            0 => self.r.pick::<&str>(&SIMPLE).to_string(),
            1 => self.r.pick::<&str>(&COMPOUND).to_string(),
            2 => {
                let names: &[&str] = if self.r.coin() { &SIMPLE } else { &COMPOUND };
                let s = self.r.pick(names).to_string();
                let k = self.r.below(s.len());
                s.chars().enumerate().map(|(i, c)| if i == k || self.r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect()
            }
            _ => ident(&mut self.r),
        }
    }

    pub fn decls(&mut self) {
        let mut d = Decls::default();
        let nu = 1 + self.r.below(4);
        let nu = self.many(Dim::Decls, nu);
        for _ in 0..nu {
            let a = anchor(&mut self.r);
            let u = self.urn();
            if d.urns.iter().all(|x| x.0 != a) {
                d.urns.push((a, u));
            }
        }
        let big = self.r.chance(1, 6);
        let nf = 1 + self.r.below(if big { 24 } else { 7 });
        let wide = self.dim == Dim::Decls;
        for k in 0..3 {
            let n = match k {
                0 => nf,
                1 => self.r.below(if big { 10 } else { 5 }),
                _ => self.r.below(3),
            };
            let n = self.many(Dim::Decls, n);
            for _ in 0..n {
                let a = if wide && self.r.coin() { self.r.below(400) as u32 } else { anchor(&mut self.r) };
                let urn = self.r.pick(&d.urns).0;
                let name = match k {
                    0 => self.fname(),
                    1 => self.tname(),
                    _ => ident(&mut self.r),
                };
                let v = match k {
                    0 => &mut d.funcs,
                    1 => &mut d.types,
                    _ => &mut d.tvars,
                };
                if v.iter().all(|x| x.anchor != a) {
                    v.push(Decl { anchor: a, urn, name });
                }
            }
        }
        if d.funcs.is_empty() {
            d.funcs.push(Decl { anchor: 1, urn: d.urns[0].0, name: "add".into() });
        }
        d.sort();
        self.d = d;
    }

    pub fn prec(&mut self) -> i32 {
        *self.r.pick(&[0, 3, 6, 9])
    }
    pub fn ty(&mut self, depth: usize) -> Ty {
        if depth > 0 && self.dim == Dim::Types && self.fuel > 0 {
            // a deep chain of lists and user-defined types, or one with many parameters
            let mut t = self.ty(0);
            let k = self.deep(Dim::Types, 0);
            for _ in 0..k {
                let k = if self.d.types.is_empty() || self.r.coin() {
                    TyK::List(Box::new(t))
                } else {
                    TyK::User(self.r.pick(&self.d.types).anchor, vec![t])
                };
                t = Ty { k, n: self.r.coin() };
            }
            if k > 0 {
                return t;
            }
        }
        let n = self.r.coin();
        let k = match self.r.below(if depth == 0 { 14 } else { 18 }) {
            0..=9 => TyK::Simple(self.r.below(SIMPLE.len())),
            10 => TyK::PTs(self.r.range(0, 12) as i32),
            11 => TyK::PTsTz(self.r.range(0, 12) as i32),
            12 => TyK::PTime(self.r.range(0, 12) as i32),
            13 => TyK::IvDay(self.r.range(0, 12) as i32),
            14 | 15 => TyK::List(Box::new(self.ty(depth - 1))),
            _ => {
                if self.d.types.is_empty() {
                    TyK::List(Box::new(self.ty(depth - 1)))
                } else {
                    let a = self.r.pick(&self.d.types).anchor;
                    let ps = if self.r.coin() { 0 } else { self.r.upto(3) };
                    let ps = self.many(Dim::Types, ps);
                    TyK::User(a, (0..ps).map(|_| self.ty(depth - 1)).collect())
                }
            }
        };
        Ty { k, n }
    }

    pub fn lit(&mut self) -> Lit {
        let r = &mut self.r;
        let n = r.chance(1, 3);
        let v = match r.below(17) {
            0 => LitV::Bool(r.coin()),
            1 => LitV::I8(r.edgy(-128, 127) as i32),
            2 => LitV::I16(r.edgy(-32768, 32767) as i32),
            3 => LitV::I32(r.edgy(i32::MIN as i64, i32::MAX as i64) as i32),
            4 | 5 => LitV::I64(r.edgy(i64::MIN, i64::MAX)),
            6 => LitV::F32(any_f32(r)),
            7 => LitV::F64(any_f64(r)),
            8 | 9 => LitV::Str(self.string()),
            10 => LitV::Date(any_day(r) as i32),
            11 => LitV::Time(any_tod(r, 6)),
            12 => LitV::Ts(any_ts(r, 6)),
            13 => {
                let p = *r.pick(&[0, 3, 6, 9]);
                LitV::PTime(p, any_tod(r, p))
            }
            14 => {
                let p = *r.pick(&[0, 3, 6, 9]);
                let v = any_ts(r, p);
                if r.coin() { LitV::PTs(p, v) } else { LitV::PTsTz(p, v) }
            }
            15 => {
                let p = *r.pick(&[0, 3, 6, 9, 12]);
                let max = 3_650_000i64;
                let days = r.edgy(-max, max);
                let secs = r.edgy(i32::MIN as i64, i32::MAX as i64).clamp(
                    (-max * 86400 - days * 86400).max(i32::MIN as i64),
                    (max * 86400 - days * 86400).min(i32::MAX as i64),
                );
                let b = 10i64.pow(p as u32) - 1;
                let sub = if p == 0 { 0 } else { r.edgy(-b, b) };
                let (mut days, mut secs, mut sub) = (days as i32, secs as i32, sub);
                if r.chance(1, 3) {
                    days = 0
                }
                if r.chance(1, 3) {
                    secs = 0
                }
                if r.chance(1, 3) {
                    sub = 0
                }
                LitV::IvDay { p, days, secs, sub }
            }
            _ => {
                let mut t = self.ty(2);
                t.n = true;
                return Lit { v: LitV::Null(t), n: false };
            }
        };
        Lit { v, n }
    }
    pub fn fref(&mut self, w: usize) -> i32 {
        if w > 0 && self.r.chance(9, 10) {
            self.r.below(w) as i32
        } else {
            *self.r.pick(&[0, 1, 7, 42, i32::MAX])
        }
    }
    pub fn call(&mut self, w: usize, depth: usize) -> Ex {
        let f = self.r.pick(&self.d.funcs).anchor;
        let n = *self.r.pick(&[0, 1, 1, 2, 2, 2, 3, 5]);
        let n = self.many(Dim::Args, n);
        let args = (0..n).map(|_| self.ex(w, depth.saturating_sub(1))).collect();
        let t = self.ty(1);
        Ex::Call(f, args, t)
    }
    pub fn ex(&mut self, w: usize, depth: usize) -> Ex {
        if depth > 0 && self.dim == Dim::Depth && self.fuel > 0 {
            let k = self.deep(Dim::Depth, 0);
            if k > 0 {
                let mut e = self.ex(w, 0);
                for _ in 0..k {
                    e = match self.r.below(4) {
                        0 => Ex::Cast(Box::new(e), self.ty(0), self.r.below(3) as u8),
                        1 => {
                            let c = self.ex(w, 0);
                            if self.r.coin() { Ex::If(vec![(c, e)], Box::new(Ex::Ref(0))) } else { Ex::If(vec![(e, c)], Box::new(Ex::Ref(0))) }
                        }
                        _ => Ex::Call(self.r.pick(&self.d.funcs).anchor, vec![e], self.ty(0)),
                    };
                }
                return e;
            }
        }
        if depth == 0 {
            return if self.r.coin() { Ex::Ref(self.fref(w)) } else { Ex::Lit(self.lit()) };
        }
        match self.r.below(10) {
            0 | 1 => Ex::Ref(self.fref(w)),
            2 | 3 => Ex::Lit(self.lit()),
            4..=6 => self.call(w, depth),
            7 => {
                let x = self.ex(w, depth - 1);
                let t = self.ty(2);
                Ex::Cast(Box::new(x), t, self.r.below(3) as u8)
            }
            8 => {
                let n = 1 + self.r.below(3);
                let n = self.many(Dim::Cases, n);
                let cs = (0..n).map(|_| (self.ex(w, depth - 1), self.ex(w, depth - 1))).collect();
                let e = self.ex(w, depth - 1);
                Ex::If(cs, Box::new(e))
            }
            _ => self.call(w, depth),
        }
    }
    pub fn name(&mut self) -> String {
        if self.r.below(10) < self.c.weird { self.string() } else { self.long_ident() }
    }
    pub fn cols(&mut self) -> Cols {
        let n = *self.r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 6]);
        let n = self.many(Dim::Cols, n);
        (0..n).map(|_| (self.name(), self.ty(2))).collect()
    }
    pub fn emit(&mut self, w: usize) -> Vec<usize> {
        if w == 0 {
            return vec![];
        }
        let n = self.many(Dim::Outs, 0);
        if n > 0 {
            return (0..n).map(|i| if i < w { i } else { self.r.below(w) }).collect();
        }
        match self.r.below(8) {
            0..=2 => (0..w).collect(),
            3 => {
                let mut v: Vec<usize> = (0..w).collect();
                self.r.shuffle(&mut v);
                v
            }
            4 => (0..w - 1).collect(),
            5 => (1..w).chain([0]).collect(),
            6 => (0..w).chain([self.r.below(w)]).collect(),
            _ => (0..self.r.upto(w + 1)).map(|_| self.r.below(w)).collect(),
        }
    }

    pub fn arg(&mut self, w: usize, depth: usize) -> Arg {
        match self.r.below(if depth == 0 { 9 } else { 11 }) {
            0 | 1 => Arg::Str(self.string()),
            2 => Arg::Int(self.r.edgy(i64::MIN, i64::MAX)),
            3 => Arg::Float(any_f64(&mut self.r)),
            4 => Arg::Bool(self.r.coin()),
            5 => Arg::Null,
            6 => Arg::Enum(ident(&mut self.r)),
            7 => Arg::Ex(Ex::Ref(self.fref(w))),
            8 => loop {
                let d = self.r.upto(2);
                let e = self.ex(w, d);
                if let Ex::Lit(l) = &e {
                    // Literals of a default type read as plain scalars.
                    if !l.n && matches!(l.v, LitV::Bool(_) | LitV::I64(_) | LitV::F64(_) | LitV::Str(_)) {
                        continue;
                    }
                }
                return Arg::Ex(e);
            },
            _ => {
                let n = self.r.upto(3);
                let n = self.many(Dim::Tuple, n);
                Arg::Tuple((0..n).map(|_| self.arg(w, depth - 1)).collect())
            }
        }
    }
    pub fn inv(&mut self, w: usize) -> Inv {
        let which = self.r.below(ext::NAMES.len());
        let np = *self.r.pick(&[0, 0, 1, 1, 2, 3]);
        let np = self.many(Dim::Pos, np);
        let pos = (0..np).map(|_| self.arg(w, 2)).collect();
        let mut named = vec![];
        if self.r.coin() {
            for k in ext::KEYS {
                if self.r.chance(1, 4) {
                    named.push((k.to_string(), self.arg(w, 2)));
                }
            }
        }
        Inv { which, pos, named, cols: vec![] }
    }
    pub fn ecols(&mut self, w: usize) -> Vec<ECol> {
        let n = *self.r.pick(&[0, 1, 2, 2, 3, 4]);
        let n = self.many(Dim::ECols, n);
        (0..n)
            .map(|_| match self.r.below(4) {
                0 | 1 => ECol::Named(self.name(), self.ty(2)),
                2 => ECol::Ex(Ex::Ref(self.fref(w))),
                _ => loop {
                    let e = self.ex(w, 2);
                    // Boolean and null literals read as named columns.
                    if let Ex::Lit(Lit { v: LitV::Bool(_) | LitV::Null(_), .. }) = e {
                        continue;
                    }
                    break ECol::Ex(e);
                },
            })
            .collect()
    }

    pub fn leaf(&mut self) -> MRel {
        let k = self.r.below(if self.c.ext { 10 } else { 7 });
        let op = match k {
            0..=2 => Op::Read { table: self.table(), cols: self.cols(), emit: None },
            3 => {
                let cols = self.cols();
                let emit = Some(self.emit(cols.len()));
                Op::Read { table: self.table(), cols, emit }
            }
            4..=6 => {
                let cols = self.cols();
                let n = self.r.below(6);
                let rows = (0..self.many(Dim::Rows, n))
                    .map(|_| (0..cols.len()).map(|_| self.ex(0, 1)).collect::<Vec<_>>())
                    .collect();
                let filter = if self.r.chance(1, 4) { Some(self.ex(cols.len(), 2)) } else { None };
                Op::Virt { rows, cols, filter }
            }
            7 | 8 => {
                let cols = self.cols();
                let inv = self.inv(cols.len());
                Op::RExt { cols, inv }
            }
            _ => {
                let mut inv = self.inv(0);
                inv.cols = self.ecols(0);
                return MRel::leafish(Op::Ext { kind: 0, inv });
            }
        };
        let mut m = MRel::leafish(op);
        self.addenda(&mut m);
        m
    }
    fn table(&mut self) -> Vec<String> {
        let n = 1 + self.r.below(3);
        (0..self.many(Dim::Path, n)).map(|_| self.name()).collect()
    }
    fn addenda(&mut self, m: &mut MRel) {
        if !self.c.ext || !self.r.chance(1, 4) {
            return;
        }
        let w = m.direct();
        if self.r.coin() {
            m.enh = Some(self.inv(w));
        }
        let n = self.r.upto(3);
        for _ in 0..self.many(Dim::Opts, n) {
            let i = self.inv(w);
            m.opts.push(i);
        }
    }

    pub fn rel(&mut self) -> MRel {
        self.budget = self.r.upto(self.c.max_rels.saturating_sub(1));
        if self.c.max_rels > 1 {
            self.budget = self.many(Dim::Rels, self.budget).min(40);
        }
        self.rel_in()
    }
    fn kid(&mut self) -> MRel {
        self.rel_in()
    }
    fn rel_in(&mut self) -> MRel {
        if self.budget == 0 {
            return self.leaf();
        }
        self.budget -= 1;
        let pick = self.r.below(if self.c.ext { 22 } else { 18 });
        self.rel_of(pick)
    }
    /// A relation of a chosen kind (0..22).
    pub fn rel_of(&mut self, pick: usize) -> MRel {
        let d = self.c.expr_depth;
        let mut m = match pick {
            0..=2 => {
                let k = self.kid();
                let w = k.width();
                let cond = self.ex(w, d);
                MRel { op: Op::Filter { cond, emit: self.emit(w) }, kids: vec![k], enh: None, opts: vec![] }
            }
            3..=6 => {
                let k = self.kid();
                let outs = self.pouts(k.width());
                MRel { op: Op::Project { outs }, kids: vec![k], enh: None, opts: vec![] }
            }
            7..=9 => {
                let k = self.kid();
                let op = self.agg(k.width());
                MRel { op, kids: vec![k], enh: None, opts: vec![] }
            }
            10 | 11 => {
                let k = self.kid();
                let w = k.width();
                let nf = self.r.below(4);
                let nf = self.many(Dim::Sort, nf);
                let fields = (0..nf).map(|_| (self.ex(w, 2), self.r.below(4))).collect();
                MRel { op: Op::Sort { fields, emit: self.emit(w) }, kids: vec![k], enh: None, opts: vec![] }
            }
            12 | 13 => {
                let k = self.kid();
                let w = k.width();
                let limit = if self.r.chance(2, 3) { Some(self.fetch_val(w)) } else { None };
                let offset = if self.r.chance(1, 2) { Some(self.fetch_val(w)) } else { None };
                MRel { op: Op::Fetch { limit, offset, emit: self.emit(w) }, kids: vec![k], enh: None, opts: vec![] }
            }
            14 | 15 => {
                let (a, b) = (self.kid(), self.kid());
                let (l, rr) = (a.width(), b.width());
                let ty = self.r.below(JOINS.len());
                let cond = self.ex(l + rr, d);
                let post = if self.r.chance(1, 3) { Some(self.ex(l + rr, 2)) } else { None };
                let emit = self.emit(join_width(ty, l, rr));
                MRel { op: Op::Join { ty, cond, post, emit }, kids: vec![a, b], enh: None, opts: vec![] }
            }
            16 => {
                let (a, b) = (self.kid(), self.kid());
                let emit = self.emit(a.width() + b.width());
                MRel { op: Op::Cross { emit }, kids: vec![a, b], enh: None, opts: vec![] }
            }
            17 => {
                // Inputs of equal width: copies of one schema, or reads projected to it.
                let first = self.kid();
                let w = first.width();
                let n = 1 + self.r.below(3);
                let n = self.many(Dim::Inputs, n).min(40);
                let mut kids = vec![first];
                for _ in 0..n {
                    kids.push(self.of_width(w));
                }
                if self.r.coin() {
                    self.r.shuffle(&mut kids);
                }
                let op = self.r.below(SETS.len());
                MRel { op: Op::Set { op, emit: self.emit(w) }, kids, enh: None, opts: vec![] }
            }
            18 | 19 => {
                let k = self.kid();
                let w = k.width();
                let mut inv = self.inv(w);
                inv.cols = self.ecols(w);
                return MRel { op: Op::Ext { kind: 1, inv }, kids: vec![k], enh: None, opts: vec![] };
            }
            _ => {
                let n = self.r.upto(3);
                let n = self.many(Dim::Inputs, n).min(40);
                let kids: Vec<MRel> = (0..n).map(|_| self.kid()).collect();
                let w = kids.iter().map(|k| k.width()).sum();
                let mut inv = self.inv(w);
                inv.cols = self.ecols(w);
                return MRel { op: Op::Ext { kind: 2, inv }, kids, enh: None, opts: vec![] };
            }
        };
        self.addenda(&mut m);
        m
    }
    fn of_width(&mut self, w: usize) -> MRel {
        if w == 0 || self.r.coin() {
            let cols = (0..w).map(|_| (self.name(), self.ty(1))).collect();
            return MRel::leafish(Op::Read { table: self.table(), cols, emit: None });
        }
        let k = self.kid();
        let kw = k.width();
        let outs = (0..w)
            .map(|_| if kw > 0 && self.r.coin() { POut::Ref(self.r.below(kw)) } else { POut::Ex(self.nonref(kw, 1)) })
            .collect();
        MRel { op: Op::Project { outs }, kids: vec![k], enh: None, opts: vec![] }
    }
    pub fn nonref(&mut self, w: usize, d: usize) -> Ex {
        loop {
            let e = self.ex(w, d);
            if !matches!(e, Ex::Ref(_)) {
                return e;
            }
        }
    }
    pub fn pouts(&mut self, w: usize) -> Vec<POut> {
        let n = self.r.upto(w + 2);
        let n = self.many(Dim::Outs, n);
        let d = self.c.expr_depth;
        match self.r.below(5) {
            // everything in order, then new columns
            0 => {
                let mut v: Vec<POut> = (0..w).map(POut::Ref).collect();
                for _ in 0..self.r.upto(2) {
                    v.push(POut::Ex(self.nonref(w, d)));
                }
                v
            }
            _ => {
                let mut v: Vec<POut> = vec![];
                for _ in 0..n {
                    if w > 0 && self.r.coin() {
                        v.push(POut::Ref(self.r.below(w)));
                    } else if !v.is_empty() && self.r.chance(1, 5) {
                        let x = self.r.pick(&v).clone();
                        v.push(x);
                    } else {
                        v.push(POut::Ex(self.nonref(w, d)));
                    }
                }
                v
            }
        }
    }
    pub fn agg(&mut self, w: usize) -> Op {
        let mut g: Vec<Ex> = vec![];
        let mut enc: Vec<Vec<u8>> = vec![];
        let mut sets: Vec<Vec<usize>> = vec![];
        let ns = *self.r.pick(&[1, 1, 1, 1, 2, 3, 4]);
        let ns = self.many(Dim::Sets, ns).min(70);
        for _ in 0..ns {
            let n = self.r.upto(3);
            let n = self.many(Dim::Groups, n).min(70);
            let mut s = vec![];
            for _ in 0..n {
                let i = if !g.is_empty() && self.r.coin() {
                    self.r.below(g.len())
                } else {
                    let e = if self.r.chance(2, 3) && w > 0 { Ex::Ref(self.r.below(w) as i32) } else { self.ex(w, 2) };
                    let b = enc_bytes(&e);
                    match enc.iter().position(|x| *x == b) {
                        Some(i) => i,
                        None => {
                            g.push(e);
                            enc.push(b);
                            g.len() - 1
                        }
                    }
                };
                if !s.contains(&i) {
                    s.push(i);
                }
            }
            sets.push(s);
        }
        let n = self.r.upto(4);
        let n = self.many(Dim::Groups, n).min(70);
        let mut outs: Vec<AOut> = vec![];
        for i in 0..n {
            if !g.is_empty() && self.r.coin() {
                let j = if self.r.coin() { i.min(g.len() - 1) } else { self.r.below(g.len()) };
                outs.push(AOut::G(j));
            } else {
                let m = self.call(w, 2);
                if !enc.contains(&enc_bytes(&m)) {
                    outs.push(AOut::M(m));
                }
            }
        }
        if self.r.chance(1, 4) {
            // all grouping columns in order first
            let mut v: Vec<AOut> = (0..g.len()).map(AOut::G).collect();
            v.extend(outs.into_iter().filter(|o| matches!(o, AOut::M(_))));
            outs = v;
        }
        Op::Agg { g, sets, outs }
    }
    fn fetch_val(&mut self, w: usize) -> Ex {
        if self.r.chance(2, 3) {
            return Ex::Lit(Lit { v: LitV::I64(self.r.edgy(0, i64::MAX)), n: false });
        }
        loop {
            let e = self.ex(w, 2);
            if let Ex::Lit(l) = &e {
                match l.v {
                    LitV::I64(i) if i < 0 => continue,
                    LitV::I8(i) | LitV::I16(i) | LitV::I32(i) if i < 0 => continue,
                    _ => {}
                }
            }
            return e;
        }
    }

    pub fn version(&mut self) -> Option<MVersion> {
        if !self.c.version || self.r.chance(1, 2) {
            return None;
        }
        let mut v = MVersion {
            major: anchor(&mut self.r),
            minor: anchor(&mut self.r),
            patch: anchor(&mut self.r),
            producer: String::new(),
            git: String::new(),
        };
        if self.r.coin() {
            v.producer = self.free_text();
        }
        if self.r.coin() {
            v.git = match self.r.below(3) {
                0 => self.free_text(),
                _ => (0..40).map(|_| *self.r.pick(b"0123456789abcdef") as char).collect(),
            };
        }
        if v == (MVersion { major: 0, minor: 0, patch: 0, producer: String::new(), git: String::new() }) {
            return None;
        }
        Some(v)
    }
    /// One line of text without leading or trailing white space.
    fn free_text(&mut self) -> String {
        let s = match self.r.below(3) {
            0 => "substrait-explain v1.2 (test)".to_string(),
            1 => format!("{}: {}", ident(&mut self.r), ident(&mut self.r)),
            _ => any_string(&mut self.r),
        };
        // Values that look like something else in the text.
        let s = match self.r.below(14) {
            0 => format!("\"{s}\""),
            1 => format!("'{s}'"),
            2 => format!("{}{s}", self.r.pick(&["producer: ", "git_hash: ", "=== ", "=== Plan", "# ", "//", "--", "# 1 @ 1: ", "@ 1: ", ": ", "0.1.2"])),
            3 => format!("{s}{}", self.r.pick(&[":", ";", "\\", "\"", "#1", " # x", " // x", "]", ",", "===", " ="])),
            4 => s.repeat(1 + self.r.below(40)),
            5 => s.to_uppercase(),
            _ => s,
        };
        let s: String = s.chars().filter(|c| !c.is_control() && !c.is_whitespace() || *c == ' ').collect();
        s.trim().to_string()
    }

    pub fn plan(&mut self) -> MPlan {
        self.decls();
        let n = 1 + self.r.below(self.c.max_trees);
        let n = if self.c.max_trees > 1 { self.many(Dim::Trees, n).min(40) } else { n };
        let mut trees = vec![];
        for _ in 0..n {
            let rel = self.rel();
            let root = if self.r.chance(2, 3) {
                let w = rel.width();
                Some((0..w).map(|_| self.name()).collect())
            } else {
                None
            };
            trees.push(MTree { root, rel });
        }
        let version = self.version();
        MPlan { version, decls: self.d.clone(), trees }
    }
}

pub fn enc_bytes(e: &Ex) -> Vec<u8> {
    use prost::Message;
    Enc::canon().ex(e).encode_to_vec()
}
