//! Generic extension handlers used by the monitors: each records exactly what it was given in a
//! protobuf message and gives exactly that back, so any loss between text and handler is visible.
use crate::model::{Arg, ECol, Enc, Inv};
use prost::Message;
use substrait::proto as p;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn,
    ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionValue, TupleValue,
};

/// Names of the handlers; the same ones in all four namespaces.
pub const NAMES: [&str; 9] =
    ["ScanX", "my_ext", "Weird Name", "quote\"d\\", "null", "Ünïcode\u{1F600}", "", "CtxProbe", "line\nbreak=>]"];
/// Handler whose rendering includes the widths of its inputs.
pub const CTX: usize = 7;
/// Named arguments a handler accepts, in the order in which it prints them.
pub const KEYS: [&str; 14] = [
    "count", "mode", "nullable", "true_x", "weird key", "k\"q", "ключ", "", "A1", "_x", "null", "true", "filter",
    "a=b, c]",
];
pub const NS: [&str; 4] = ["relation", "extension_table", "enhancement", "optimization"];

/// Type URLs are shared between namespaces but denote another handler in each.
pub fn url(n: usize, ns: usize) -> String {
    format!("type.googleapis.com/vx.U{}", (n + 2 * ns) % NAMES.len())
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct PArg {
    #[prost(oneof = "pv::V", tags = "1,2,3,4,5,6,7,8")]
    pub v: Option<pv::V>,
}
pub mod pv {
    #[derive(Clone, PartialEq, prost::Oneof)]
    pub enum V {
        #[prost(string, tag = "1")]
        S(String),
        #[prost(int64, tag = "2")]
        I(i64),
        #[prost(double, tag = "3")]
        F(f64),
        #[prost(bool, tag = "4")]
        B(bool),
        #[prost(bool, tag = "5")]
        N(bool),
        #[prost(string, tag = "6")]
        E(String),
        #[prost(message, tag = "7")]
        T(super::PTuple),
        #[prost(message, tag = "8")]
        X(substrait::proto::Expression),
    }
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PTuple {
    #[prost(message, repeated, tag = "1")]
    pub items: Vec<PArg>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PNamed {
    #[prost(string, tag = "1")]
    pub k: String,
    #[prost(message, optional, tag = "2")]
    pub v: Option<PArg>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PCol {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub ty: Option<p::Type>,
    #[prost(message, optional, tag = "3")]
    pub ex: Option<p::Expression>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct GenMsg {
    #[prost(message, repeated, tag = "1")]
    pub pos: Vec<PArg>,
    #[prost(message, repeated, tag = "2")]
    pub named: Vec<PNamed>,
    #[prost(message, repeated, tag = "3")]
    pub cols: Vec<PCol>,
    /// 1 + namespace * 100 + handler, so that a payload cannot be mistaken for another's.
    #[prost(uint32, tag = "4")]
    pub tag: u32,
    /// Makes the handler fail when it renders.
    #[prost(uint32, tag = "5")]
    pub poison: u32,
}

fn plain(e: p::Expression) -> pv::V {
    use p::expression::{RexType, literal::LiteralType as L};
    if let Some(RexType::Literal(l)) = &e.rex_type
        && !l.nullable
    {
        match l.literal_type.as_ref() {
            Some(L::I64(i)) => return pv::V::I(*i),
            Some(L::Fp64(f)) => return pv::V::F(*f),
            Some(L::String(s)) => return pv::V::S(s.clone()),
            Some(L::Boolean(b)) => return pv::V::B(*b),
            _ => {}
        }
    }
    pv::V::X(e)
}
fn to_parg(v: &ExtensionValue) -> Result<PArg, ExtensionError> {
    use pv::V;
    Ok(PArg {
        v: Some(match v {
            ExtensionValue::String(s) => V::S(s.clone()),
            ExtensionValue::Integer(i) => V::I(*i),
            ExtensionValue::Float(f) => V::F(*f),
            ExtensionValue::Boolean(b) => V::B(*b),
            ExtensionValue::Null => V::N(true),
            ExtensionValue::Error(e) => return Err(e.clone()),
            // A literal expression of the default type is the same argument as the plain value.
            ExtensionValue::Expr(e) => plain(e.to_proto()),
            ExtensionValue::Enum(_) => V::E(EnumValue::try_from(v)?.0),
            ExtensionValue::Tuple(t) => {
                V::T(PTuple { items: t.iter().map(to_parg).collect::<Result<_, _>>()? })
            }
        }),
    })
}
fn from_parg(a: &PArg) -> ExtensionValue {
    use pv::V;
    match a.v.as_ref() {
        None => ExtensionValue::Error(ExtensionError::Custom("empty argument".into())),
        Some(V::S(s)) => ExtensionValue::String(s.clone()),
        Some(V::I(i)) => ExtensionValue::Integer(*i),
        Some(V::F(f)) => ExtensionValue::Float(*f),
        Some(V::B(b)) => ExtensionValue::Boolean(*b),
        Some(V::N(_)) => ExtensionValue::Null,
        Some(V::E(e)) => ExtensionValue::Enum(e.clone()),
        Some(V::T(t)) => ExtensionValue::Tuple(t.items.iter().map(from_parg).collect::<TupleValue>()),
        Some(V::X(e)) => ExtensionValue::Expr(Expr::from(e.clone())),
    }
}

/// Pauses inside the handlers, to spread the schedules: 0 none, 1 yields, 2 short sleeps.
pub static JITTER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
fn pause() {
    match JITTER.load(std::sync::atomic::Ordering::Relaxed) {
        0 => {}
        1 => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros(50)),
    }
}
/// Handler `N` of namespace `S`.
pub struct H<const N: usize, const S: usize>(pub GenMsg);

pub fn tag(n: usize, s: usize) -> u32 {
    (1 + s * 100 + n) as u32
}

impl<const N: usize, const S: usize> AnyConvertible for H<N, S> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(url(N, S), self.0.encode_to_vec()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if any.type_url != url(N, S) {
            return Err(ExtensionError::TypeUrlMismatch { expected: url(N, S), actual: any.type_url.to_string() });
        }
        let m = GenMsg::decode(any.value).map_err(ExtensionError::DecodeFailed)?;
        if m.tag != tag(N, S) {
            return Err(ExtensionError::Custom(format!("payload {} given to handler {}", m.tag, tag(N, S))));
        }
        Ok(H(m))
    }
    fn type_url() -> String {
        url(N, S)
    }
}
impl<const N: usize, const S: usize> Explainable for H<N, S> {
    fn name() -> &'static str {
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        pause();
        let mut m = GenMsg { tag: tag(N, S), ..Default::default() };
        for v in args.positional() {
            m.pos.push(to_parg(v)?);
        }
        for k in KEYS {
            if let Some(v) = args.get_named_arg(k) {
                m.named.push(PNamed { k: k.into(), v: Some(to_parg(v)?) });
            }
        }
        if N == CTX && S == 0 {
            let _ = args.get_named_arg("inputs");
        }
        for c in args.output_columns() {
            m.cols.push(match c {
                ExtensionColumn::Named { name, r#type } => {
                    PCol { name: name.clone(), ty: Some(r#type.clone()), ex: None }
                }
                ExtensionColumn::Expr(e) => PCol { ex: Some(e.to_proto()), ..Default::default() },
            });
        }
        Ok(H(m))
    }
    fn to_args(&self, ctx: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        pause();
        if self.0.poison != 0 {
            return Err(ExtensionError::Custom("poisoned".into()));
        }
        let mut a = ExtensionArgs::default();
        for v in &self.0.pos {
            a.positional.push(from_parg(v));
        }
        for n in &self.0.named {
            let v = n.v.as_ref().map_or(ExtensionValue::Null, from_parg);
            a.named.insert(n.k.clone(), v);
        }
        if N == CTX && S == 0 {
            let w: Vec<i64> = ctx.inputs().iter().map(|i| i.emitted_column_count() as i64).collect();
            a.insert("inputs", w);
        } else if S != 0 && !ctx.inputs().is_empty() {
            return Err(ExtensionError::Custom("addendum given relation inputs".into()));
        }
        for c in &self.0.cols {
            a.output_columns.push(match (&c.ty, &c.ex) {
                (Some(t), _) => ExtensionColumn::Named { name: c.name.clone(), r#type: t.clone() },
                (_, Some(e)) => ExtensionColumn::Expr(Expr::from(e.clone())),
                _ => return Err(ExtensionError::Custom("bad column".into())),
            });
        }
        Ok(a)
    }
}

pub fn registry() -> ExtensionRegistry {
    registry_of(|_, _| true)
}
/// A registry of the handlers (name, namespace) that `keep` selects.
pub fn registry_of(keep: impl Fn(usize, usize) -> bool) -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    macro_rules! reg {
        ($($n:literal)*) => { $(
            if keep($n, 0) { r.register_relation::<H<$n, 0>>().ok(); }
            if keep($n, 1) { r.register_extension_table::<H<$n, 1>>().ok(); }
            if keep($n, 2) { r.register_enhancement::<H<$n, 2>>().ok(); }
            if keep($n, 3) { r.register_optimization::<H<$n, 3>>().ok(); }
        )* };
    }
    reg!(0 1 2 3 4 5 6 7 8);
    r
}

fn enc_arg(a: &Arg, e: &mut Enc) -> PArg {
    use pv::V;
    PArg {
        v: Some(match a {
            Arg::Str(s) => V::S(s.clone()),
            Arg::Int(i) => V::I(*i),
            Arg::Float(f) => V::F(*f),
            Arg::Bool(b) => V::B(*b),
            Arg::Null => V::N(true),
            Arg::Enum(s) => V::E(s.clone()),
            Arg::Tuple(t) => V::T(PTuple { items: t.iter().map(|x| enc_arg(x, e)).collect() }),
            Arg::Ex(x) => V::X(e.ex(x)),
        }),
    }
}
pub fn msg(inv: &Inv, ns: usize, e: &mut Enc) -> GenMsg {
    GenMsg {
        tag: tag(inv.which, ns),
        pos: inv.pos.iter().map(|a| enc_arg(a, e)).collect(),
        named: inv.named.iter().map(|(k, a)| PNamed { k: k.clone(), v: Some(enc_arg(a, e)) }).collect(),
        cols: inv
            .cols
            .iter()
            .map(|c| match c {
                ECol::Named(n, t) => PCol { name: n.clone(), ty: Some(e.ty(t)), ex: None },
                ECol::Ex(x) => PCol { ex: Some(e.ex(x)), ..Default::default() },
            })
            .collect(),
        poison: 0,
    }
}
/// The Any a plan stores for `inv` in namespace `ns`.
pub fn to_any(inv: &Inv, ns: usize, e: &mut Enc) -> pbjson_types::Any {
    pbjson_types::Any { type_url: url(inv.which, ns), value: msg(inv, ns, e).encode_to_vec().into() }
}
